"""Checks of the chain: Chain.tla and what is built around it."""
import json
import os
from vlib import SEED, THOROUGH, cover_paths

COMMON = ['common/report.go', 'cryptonote/lib.go']
BASES = [0, 59998, 215998, 265998, 699998, 700200]


def tkey(chain):
    return tuple(chain)


def chain_graph(c, cp='', zone=True):
    """Explore Chain.tla and return (universe, edges)."""
    r = c.tlc('Chain', consts={'Checkpoint': '"%s"' % cp, 'FarZone': 'TRUE' if zone else 'FALSE'})
    universe = [o['universe'] for o in r['emitted'] if 'universe' in o][0]
    edges = [(tkey(o['s']), o['a'], tkey(o['t'])) for o in r['emitted'] if 's' in o]
    return universe, edges


def to_steps(edges, path):
    return [dict(b=edges[i][1]['b'], m=edges[i][1]['m'], v=edges[i][1]['v'], t=list(edges[i][2])) for i in path]


def chain_build(c, race=False):
    return c.go_build('cryptonote', COMMON + ['cryptonote/chain.go'], race=race,
                      optional={'cryptonote/chain_deep.go': 'common/stub.go'})


def check_c01(c):
    binp = chain_build(c)
    for cp in ('', 'A2', 'C3') if THOROUGH else ('', 'A2'):
        universe, edges = chain_graph(c, cp)
        cases = []
        for base in BASES:
            for _ in range(6 if THOROUGH else 2):
                paths, left = cover_paths(edges, (), c.rng, max_len=60)
                assert left == 0
                cases += [dict(base=base, fault=False, steps=to_steps(edges, p)) for p in paths]
            if base == 0:   # the test network begins with a block of its own
                paths, left = cover_paths(edges, (), c.rng, max_len=60)
                cases += [dict(net='test', base=base, fault=False, steps=to_steps(edges, p)) for p in paths]
            # long random histories
            cases += walks(c, edges, base, 40 if THOROUGH else 12, 120)
        c.go_run(binp, 'TestVerifChain', cases, params=dict(universe=universe, checkpoint=cp, zone=True), shards=8)
    c.assumptions += ['blocks carry transactions only inside the checkpoint zone (a checkpoint far above is added)',
                      'ancestors below the base block are stored directly, the last 375 of them']
    return c.finish(exhaustive=True, rule='every transition of Chain.tla (block x delivered bodies x chain) replayed into '
                    'AddBlock on top of each base height; non-trivial: distinct (base, chain, block, bodies)')


def walks(c, edges, base, n, length, fault=False):
    out = {}
    for i, (s, a, t) in enumerate(edges):
        out.setdefault(s, []).append(i)
    res = []
    for _ in range(n):
        s, p = (), []
        for _ in range(length):
            es = out[s]
            i = c.rng.choice(es)
            # do not run to the end of the chain at once
            if edges[i][1]['v'] == 'accepted' and c.rng.random() < 0.5:
                i = c.rng.choice(es)
            p.append(i)
            s = edges[i][2]
        res.append(dict(base=base, fault=fault, steps=to_steps(edges, p)))
    return res


def check_c02(c):
    """Pairs: after every refusal every next offer, and after a storage fault too."""
    binp = chain_build(c)
    universe, edges = chain_graph(c)
    out = {}
    par = {(): None}
    q = [()]
    for i, (s, a, t) in enumerate(edges):
        out.setdefault(s, []).append(i)
    for s in q:
        for i in out[s]:
            t = edges[i][2]
            if t not in par:
                par[t] = i
                q.append(t)

    def prefix(s):
        p = []
        while par[s] is not None:
            p.append(par[s])
            s = edges[par[s]][0]
        return p[::-1]
    bases = BASES if THOROUGH else [0, 699998]
    for base in bases:
        cases = []
        for s in q:
            refused = [i for i in out[s] if edges[i][1]['v'] != 'accepted']
            accepted = [i for i in out[s] if edges[i][1]['v'] == 'accepted']
            for e in refused:
                # the refused offer, then all refused ones again in some order, then each acceptance
                for f in accepted or [e]:
                    others = c.rng.sample(refused, min(len(refused), 4))
                    cases.append(dict(base=base, fault=False, steps=to_steps(edges, prefix(s) + [e] + others + [e, f])))
                # everything that can follow is still judged the same: one acceptance chain to the end
                p, x = prefix(s) + [e], s
                while True:
                    acc = [i for i in out[x] if edges[i][1]['v'] == 'accepted']
                    if not acc:
                        break
                    i = c.rng.choice(acc)
                    p.append(i)
                    x = edges[i][2]
                    p.append(c.rng.choice([k for k in out[x] if edges[k][1]['v'] != 'accepted']))
                cases.append(dict(base=base, fault=False, steps=to_steps(edges, p)))
        cases += walks(c, edges, base, 200 if THOROUGH else 40, 60, fault=True)
        c.go_run(binp, 'TestVerifChain', cases, params=dict(universe=universe, checkpoint='', zone=True), shards=8)
    return c.finish(exhaustive=True, rule='at every chain of Chain.tla, every refused offer followed by every acceptance and by '
                    'other offers, with full observation after every step; storage faults before acceptances')



HEIGHTS = '{1, 60000, 60001, 216000, 216001, 266000, 266001, 300000, 499999, 500000, 500001, 700000, 700001, 700002}'


def check_c03(c):
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/chain.go', 'cryptonote/rules.go'])
    r = c.tlc('BlockRules')
    cases = r['emitted']
    r = c.tlc('BlockRules', consts={'Pairs': 'TRUE', 'Heights': HEIGHTS if THOROUGH else '{60001, 216001, 500000, 700001}'})
    cases += r['emitted']
    c.rng.shuffle(cases)
    c.go_run(binp, 'TestVerifRules', cases, shards=8)
    return c.finish(exhaustive=True, rule='every single and every pair of deviations from the plain block at the listed heights')



def check_c04(c):
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/chain.go', 'cryptonote/times.go'])
    cases = []
    for k in range(8 if THOROUGH else 2):
        r = c.tlc('Timestamps', consts={'Seed': SEED * 17 + k, 'Rich': 'TRUE' if THOROUGH or k == 0 else 'FALSE'})
        cases += r['emitted']
    c.rng.shuffle(cases)
    if not THOROUGH:
        cases = cases[:12000]
    c.go_run(binp, 'TestVerifTimes', cases, shards=8)
    c.assumptions.append('the clock is the one of testing/synctest')
    return c.finish(exhaustive=False, rule='height x pattern of ancestor timestamps x timestamp around both limits, with time passing; '
                    'non-trivial: distinct (pattern, height, timestamp)')


def check_c12(c):
    binp = c.go_build('config', ['common/report.go', 'config/config.go'])
    r = c.tlc('Fork')
    c.go_run(binp, 'TestVerifFork', r['emitted'])
    # a block of any other version is refused, at every fork height, again and again
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/chain.go', 'cryptonote/rules.go'])
    hs = set()
    for f in (60000, 216000, 266000, 700000):
        hs |= {f - 1, f, f + 1, f + 2}
    hs |= {1, 30000, 216394, 216395, 300000, 500000, 667000, 899999}
    r = c.tlc('BlockRules', consts={'Heights': '{%s}' % ', '.join(map(str, sorted(hs)))})
    plain = dict(inputs='one', unlock='ten', sigs='absent', outs='one', pver=1, psize='small', extra='pub', sig='ok')
    cases = [x for x in r['emitted'] if all(x['c'][k] == v for k, v in plain.items())]
    c.go_run(binp, 'TestVerifRules', cases * (40 if THOROUGH else 10), shards=8)
    # the parameters used are those of the block's own version: windows and limits around the forks
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/chain.go', 'cryptonote/times.go'], name='times')
    r = c.tlc('Timestamps', consts={'Seed': SEED, 'Rich': 'TRUE', 'Shapes': '{"half", "edge", "edge1"}',
                                    'Heights': '{60000, 60001, 216000, 216001, 266000, 266001, 266002, 700000, 700001, 700002}'})
    c.go_run(binp, 'TestVerifTimes', r['emitted'], shards=8)
    return c.finish(exhaustive=True, rule='every height up to 1000000, every version around every fork, limits and windows on both sides of each fork')


def check_c11(c):
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/chain.go', 'cryptonote/sparse.go'])
    tops = set(range(0, 600 if THOROUGH else 140))
    for k in range(7, 14 if THOROUGH else 12):
        tops |= {2 ** k - 1, 2 ** k, 2 ** k + 1}
    tops |= {c.rng.randrange(140, 4000) for _ in range(40)}
    tops.add(70001)
    r = c.tlc('Sparse', consts={'Tops': '{%s}' % ', '.join(map(str, sorted(tops)))})
    c.go_run(binp, 'TestVerifSparse', r['emitted'], params=dict(grow=300 if THOROUGH else 135))
    return c.finish(exhaustive=False, rule='every top index up to a bound, powers of two and their neighbours, random larger ones')


def check_c09(c):
    binp = c.go_build('config', ['common/report.go', 'config/config.go'])
    r = c.tlc('Checkpoints')
    dom = [o for o in r['emitted'] if 'indexes' in o][0]
    tables = [o for o in r['emitted'] if 'alt' in o]
    edges = [(tkey(o['s']), o['a'], tkey(o['t'])) for o in r['emitted'] if 's' in o]
    cases = []
    for _ in range(20 if THOROUGH else 4):
        paths, left = cover_paths(edges, tuple([0] * len(dom['indexes'])), c.rng, max_len=30)
        assert left == 0
        cases += [dict(steps=[dict(i=edges[i][1]['i'], h=edges[i][1]['h'], ok=edges[i][1]['ok'], t=list(edges[i][2])) for i in p]) for p in paths]
    c.go_run(binp, 'TestVerifCheckpoints', cases, params=dict(dom, tables=tables), shards=8)
    # asked and added to at the same time
    binr = c.go_build('config', ['common/report.go', 'config/checklin.go'], race=True, name='checklin')
    conc = dict(indexes=[1, 7, 15, 30], sizes=[0, 6, 7, 8, 15, 18, 25, 30, 41, 60], heights=[0, 1, 2, 7, 8, 15, 16, 19, 30, 31, 49, 50])
    for n, g, calls in [(120, 4, 5), (60, 8, 3)] if not THOROUGH else [(1500, 4, 6), (400, 8, 3)]:
        r = c.go_run(binr, 'TestVerifCheckpointsLin', [{}] * 8, params=dict(conc, histories=n, goroutines=g, calls=calls), shards=8, timeout=300)
        hs = r['extra'].pop('histories', [])
        c.cov['harness_runs'][-1].pop('histories', None)
        if c.violations:
            break
        lin_check(c, 'CheckpointsLin', hs)
    # what the checkpoints mean for the blocks of a chain
    binp = chain_build(c)
    for cp in ('A1', 'A2', 'C3', 'B1', 'B3', 'A3'):
        for zone in (True, False):
            universe, edges = chain_graph(c, cp, zone)
            cases = []
            for base in (0, 59998, 265998, 700200) if THOROUGH else (0, 700200):
                paths, left = cover_paths(edges, (), c.rng, max_len=60)
                cases += [dict(base=base, fault=False, steps=to_steps(edges, p)) for p in paths]
            c.go_run(binp, 'TestVerifChain', cases, params=dict(universe=universe, checkpoint=cp, zone=zone), shards=8)
    return c.finish(exhaustive=True, rule='every set of checkpoints over five heights and two hashes, in many orders, with all queries '
                    'asked after each addition; every offer to a chain with a checkpoint on either branch')



def check_c06(c):
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/chain.go', 'cryptonote/bodies.go'])
    r = c.tlc('Bodies')
    cases = r['emitted']
    c.rng.shuffle(cases)
    c.go_run(binp, 'TestVerifBodies', cases * (5 if THOROUGH else 1), shards=8)
    return c.finish(exhaustive=True, rule='every list of up to three of three transactions x every one-step deviation of the delivered '
                    'bodies x what was confirmed before; blocks of exactly the maximum size and around it')



def check_c10(c):
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/chain.go', 'cryptonote/lin.go'], race=True)
    universe, _ = chain_graph(c)
    jobs = [(0, 60, 4, 5), (700200, 25, 3, 5)] if not THOROUGH else [(0, 400, 4, 6), (700200, 150, 4, 5), (59998, 150, 4, 5)]
    total = 0
    for base, n, g, calls in jobs:
        r = c.go_run(binp, 'TestVerifLin', [{}] * 8, params=dict(universe=universe, histories=n, goroutines=g, calls=calls, base=base),
                     shards=8, timeout=500)
        hs = r['extra'].pop('histories', [])
        c.cov['harness_runs'][-1].pop('histories', None)
        if c.violations:
            break
        path = os.path.join(c.work, 'histories.json')
        json.dump(hs, open(path, 'w'))
        t = c.tlc('ChainLin', env=dict(VERIF_HISTORIES=path), workers=8, timeout=700)
        ok = {o['linearized'] for o in t['emitted'] if 'linearized' in o}
        for i, h in enumerate(hs):
            if i + 1 not in ok:
                c.violations.append(dict(key='linearizability', what='no order of the calls explains their results', case=h))
        c.traces += len(ok)
        total += len(hs)
        c.samples += hs[:1]
    c.cov['histories'] = total
    c.assumptions.append('schedules are those the Go scheduler produced under the race detector')
    return c.finish(exhaustive=False, rule='histories of concurrent calls recorded from the race-detector build, each decided by TLC; '
                    'non-trivial: every call counts once')


def lin_check(c, module, hs):
    """Give recorded histories to TLC; those it cannot explain are violations."""
    path = os.path.join(c.work, 'histories.json')
    json.dump(hs, open(path, 'w'))
    t = c.tlc(module, env=dict(VERIF_HISTORIES=path), workers=8, timeout=700)
    ok = {o['linearized'] for o in t['emitted'] if 'linearized' in o}
    for i, h in enumerate(hs):
        if i + 1 not in ok:
            c.violations.append(dict(key='linearizability', what='no order of the calls explains their results', case=h))
    c.traces += len(ok)
    c.samples += hs[:1]
    c.cov['histories'] = c.cov.get('histories', 0) + len(hs)


def check_c15(c):
    files = COMMON + ['cryptonote/storage.go']
    opt = {'cryptonote/storage_deep.go': 'common/stub.go'}
    binp = c.go_build('cryptonote', files, name='storage', optional=opt)
    r = c.tlc('Storage')
    dom = [o for o in r['emitted'] if 'blocks' in o][0]
    edges = [(json.dumps(o['s']), dict(o['a'], o=o['o']), json.dumps(o['t'])) for o in r['emitted'] if 's' in o]
    cases = []
    for _ in range(12 if THOROUGH else 3):
        paths, left = cover_paths(edges, '[]', c.rng, max_len=40)
        assert left == 0
        cases += [dict(steps=[edges[i][1] for i in p]) for p in paths]
    c.go_run(binp, 'TestVerifStorage', cases, params=dom, shards=8)
    binr = c.go_build('cryptonote', files, race=True, name='storagerace', optional=opt)
    for n, g, calls in [(150, 4, 5), (60, 8, 3)] if not THOROUGH else [(1500, 4, 6), (400, 8, 3), (400, 3, 9)]:
        r = c.go_run(binr, 'TestVerifStorageLin', [{}] * 8, params=dict(dom, histories=n, goroutines=g, calls=calls), shards=8, timeout=300)
        hs = r['extra'].pop('histories', [])
        c.cov['harness_runs'][-1].pop('histories', None)
        if c.violations:
            break
        lin_check(c, 'StorageLin', hs)
    c.assumptions.append('schedules are those the Go scheduler produced under the race detector')
    c.assumptions.append('an empty storage is not asked for its top; a storage is prepared for a network at most once')
    return c.finish(exhaustive=False, rule='every push in every state of Storage.tla with all questions asked after each; concurrent histories of the real storage, all linearised by StorageLin.tla')


CHECKS = {'C15': check_c15, 'C01': check_c01, 'C02': check_c02, 'C03': check_c03, 'C04': check_c04, 'C06': check_c06, 'C09': check_c09, 'C10': check_c10, 'C11': check_c11, 'C12': check_c12}

"""Checks of the peer-to-peer part: Peer.tla and what is built around it."""
import json
import os
import subprocess
from vlib import REPO, SEED, THOROUGH, CheckError, cover_paths, go_env

FILES = ['common/report.go', 'p2p/world.go', 'p2p/peer.go']


NOTES = ['payloads that do not decode may end the connection or not',
         'blocks carry transactions only inside the checkpoint zone',
         'announcements without repeated hashes, except known blocks that come again']


def pkey(s):
    return json.dumps(s, sort_keys=True)


def peer_build(c, race=False):
    return c.go_build('p2p', FILES, race=race, optional={'p2p/drive.go': 'p2p/drive_tcp.go'})


def peer_graph(c, cfg='Peer.cfg', **k):
    """Explore Peer.tla and return (initial states, edges); edges carry the step to replay."""
    r = c.tlc('Peer', cfg=cfg, consts={a: ('"%s"' % b if isinstance(b, str) and b[:1].isalpha() and b not in ('TRUE', 'FALSE') else b)
                                       for a, b in k.items()})
    inits, edges = [], []
    for o in r['emitted']:
        if 'init' in o:
            inits.append(o['init'])
        elif 's' in o:
            edges.append((pkey(o['s']), dict(m=o['m'], out=o['out'], free=o['free'], t=dict(chain=o['t']['chain'], st=o['t']['st'])), pkey(o['t'])))
    return inits, edges


def own_of(init):
    ch = init['chain']
    return ch[2] if len(ch) == 3 and ch[0] == -1 else len(ch)


def peer_cases(c, inits, edges, zone, role, max_len=30, keep=None):
    cases = []
    for i in inits:
        paths, left = cover_paths(edges, pkey(i), c.rng, max_len=max_len)
        for p in paths:
            cases.append(dict(own=own_of(i), zone=zone, role=role, steps=[edges[e][1] for e in p]))
    if keep and len(cases) > keep:
        c.rng.shuffle(cases)
        cases = cases[:keep]
    return cases


def check_p01(c):
    binp = peer_build(c)
    total = 0
    for own, zone in [(24, 13), (24, 900000), (24, 0), (0, 0), (10, 900000)]:
        inits, edges = peer_graph(c, Mode='handshake', Owns='{%d}' % own, Zone=zone, Depth=4 if THOROUGH else 3)
        cases = peer_cases(c, inits, edges, zone, 'incoming')
        c.go_run(binp, 'TestVerifPeer', cases, shards=8, crash_is_violation=True)
    c.assumptions += NOTES
    return c.finish(exhaustive=True, rule='every message of every kind and with every combination of fields of Peer.tla in every state of an incoming connection, in histories of up to %d messages from chains of three lengths with and without a checkpoint zone' % (4 if THOROUGH else 3))



SYNC = dict(Mode='sync', Zone=900000)


def sync_cases(c, owns, roles=('incoming',)):
    cases = []
    for role in roles:
        for own in owns:
            inits, edges = peer_graph(c, Role=role, Owns='{%d}' % own, **SYNC)
            cases += peer_cases(c, inits, edges, 900000, role, max_len=40)
    return cases


def honest_cases(c, plans, hostile=False, role='incoming', keep=None, max_len=60):
    cases = []
    for owns, remotes, choices, events in plans:
        inits, edges = peer_graph(c, cfg='Peer.cfg' if hostile else 'PeerHonest.cfg', Mode='honest', Role=role, Owns=owns, Remotes=remotes,
                                  Zone=900000, Choices=choices, Hostile='TRUE' if hostile else 'FALSE', Events=events)
        cases += peer_cases(c, inits, edges, 900000, role, max_len=max_len, keep=keep)
    return cases


HOSTILE = [('{0, 1}', '{2, 3, 127, 128, 129, 257, 260}', '{60, 128, 129, 300}', 0), ('{100}', '{130, 228, 229, 300}', '{20, 128, 129, 130, 300}', 0)]
HOSTILE_DEEP = [('{0}', '{129, 260}', '{128, 129, 200, 300}', 1), ('{100}', '{130, 300}', '{129, 130, 300}', 1)]


def check_p02(c):
    binp = c.go_build('p2p', FILES + ['p2p/drive.go', 'p2p/dial.go'])
    cases = []
    for own, zone in [(24, 13), (24, 900000), (24, 0), (0, 0), (10, 900000)]:
        inits, edges = peer_graph(c, Mode='handshake', Role='outgoing', Owns='{%d}' % own, Zone=zone, Depth=2)
        cs = peer_cases(c, inits, edges, zone, 'outgoing', max_len=3)
        cases += cs if THOROUGH else [x for x in cs if len(x['steps']) == 1 or c.rng.random() < 0.03]
    hc = honest_cases(c, [('{0, 3}', '{3, 5, 131}', '{4, 300}', 0)], role='outgoing', max_len=12)
    c.rng.shuffle(hc)
    cases += hc[:2000 if THOROUGH else 150]
    c.rng.shuffle(cases)
    c.go_run(binp, 'TestVerifDial', cases, shards=8, crash_is_violation=True)
    c.assumptions += NOTES
    return c.finish(exhaustive=THOROUGH, rule='every answer of Peer.tla to the handshake of an outgoing connection, and honest and hostile histories that follow; quick: a sample of the histories of more than one message')


def check_p03(c):
    binp = peer_build(c)
    c.go_run(binp, 'TestVerifPeer', sync_cases(c, [0, 1, 2, 3] if THOROUGH else [1]), shards=8, crash_is_violation=True)
    cases = honest_cases(c, HOSTILE, hostile=True)
    if THOROUGH:
        cases += honest_cases(c, HOSTILE_DEEP, hostile=True, keep=40000)
    c.go_run(binp, 'TestVerifPeer', cases, shards=8, crash_is_violation=True)
    c.assumptions += NOTES
    return c.finish(exhaustive=True, rule='every announcement and delivery of Peer.tla in every reachable state of the download accounting of short chains, and histories of long ones with announcements around 128 blocks and hostile deliveries')


def check_p04(c):
    binp = peer_build(c)
    c.go_run(binp, 'TestVerifPeer', sync_cases(c, [0, 1, 2, 3] if THOROUGH else [2]), shards=8, crash_is_violation=True)
    cases = honest_cases(c, HOSTILE, hostile=True)
    c.go_run(binp, 'TestVerifPeer', cases, shards=8, crash_is_violation=True)
    c.assumptions += NOTES
    return c.finish(exhaustive=True, rule='every message of Peer.tla in every reachable state of a synchronisation of short chains, and long ones with hostile deliveries and announcements')


def check_p05(c):
    binp = peer_build(c)
    small = [('0..5', '0..7', '{2, 3, 5}', 1)] if THOROUGH else [('{0, 1, 2, 3}', '{0, 2, 3, 4, 5}', '{2, 4}', 1)]
    c.go_run(binp, 'TestVerifPeer', honest_cases(c, small, keep=None if THOROUGH else 3000), shards=8, crash_is_violation=True)
    large = [('{0, 5}', '{128, 129, 130, 257}', '{129, 150, 300}', 0), ('{0}', '{260}', '{2}', 0), ('{127}', '{129, 255, 256, 300}', '{100, 130, 300}', 0)]
    deep = [('{0}', '{129, 260}', '{128, 129, 200, 300}', 1), ('{128}', '{128, 129, 300}', '{60, 129, 300}', 1)]
    cases = honest_cases(c, large, max_len=700) + honest_cases(c, deep, keep=None if THOROUGH else 350, max_len=60)
    c.go_run(binp, 'TestVerifPeer', cases, shards=8, crash_is_violation=True)
    c.assumptions += NOTES
    return c.finish(exhaustive=False, rule='every own length, peer length and announcement size of the given sets with every order of growth of both chains; TLC proves on each that the node always gets there; quick: a sample of the histories with growth')


def check_p06(c):
    binp = c.go_build('p2p', FILES + ['p2p/drive.go', 'p2p/framing.go'])
    cases = []
    for k in ([dict(), dict(Every='TRUE', Count=1)] if not THOROUGH else [dict(Lens='{0, 1, 40}', Count=3), dict(Every='TRUE', Count=1, Lens='{0, 1, 40, 100}'),
                                                                     dict(Every='TRUE', Count=2, Lens='{0, 3}')]):
        r = c.tlc('Framing', consts=k)
        inits = [o['init'] for o in r['emitted'] if 'init' in o]
        edges = [(pkey(o['s']), dict(at=o['t']['at'], st=o['t']['st'], got=o['got']), pkey(o['t'])) for o in r['emitted'] if 's' in o]
        by = {}
        for e in edges:
            o = json.loads(e[0])
            by.setdefault((tuple(o['pk']), o['fault']), []).append(e)
        for i in inits:
            es = by[(tuple(i['pk']), i['fault'])]
            paths, left = cover_paths(es, pkey(i), c.rng, max_len=60)
            cases += [dict(pk=i['pk'], fault=i['fault'], steps=[es[e][1] for e in p]) for p in paths]
    c.go_run(binp, 'TestVerifFraming', cases, shards=8, crash_is_violation=True)
    c.go_run(binp, 'TestVerifFrames', [{}] * 4, shards=4, crash_is_violation=True)
    return c.finish(exhaustive=True, rule='every cut of streams of packets of Framing.tla, at every byte for one packet, with every fault')


def check_p07(c):
    binp = c.go_build('p2p', FILES + ['p2p/drive.go', 'p2p/store.go'], name='store')
    r = c.tlc('PeerStore')
    edges = [(pkey(o['s']), dict(op=o['a']['op'], p=o['a']['p'], ok=o['a']['ok'], t=o['t']), pkey(o['t'])) for o in r['emitted']]
    cases = []
    for _ in range(40 if THOROUGH else 4):
        paths, left = cover_paths(edges, pkey(dict(white=[], grey=[])), c.rng, max_len=40)
        cases += [dict(steps=[edges[e][1] for e in p]) for p in paths]
    c.go_run(binp, 'TestVerifStore', cases, shards=8, crash_is_violation=True)
    binr = c.go_build('p2p', FILES + ['p2p/drive.go', 'p2p/store.go'], race=True, name='storerace')
    for n, g, calls in [(150, 4, 6), (60, 8, 3)] if not THOROUGH else [(1500, 4, 6), (400, 8, 3), (400, 3, 9)]:
        r = c.go_run(binr, 'TestVerifStoreLin', [{}] * 8, params=dict(histories=n, goroutines=g, calls=calls), shards=8, timeout=300, crash_is_violation=True)
        hs = r['extra'].pop('histories', [])
        c.cov['harness_runs'][-1].pop('histories', None)
        if c.violations:
            break
        path = os.path.join(c.work, 'histories.json')
        json.dump(hs, open(path, 'w'))
        t = c.tlc('PeerStoreLin', env=dict(VERIF_HISTORIES=path), workers=8, timeout=700)
        ok = {o['linearized'] for o in t['emitted'] if 'linearized' in o}
        for i, h in enumerate(hs):
            if i + 1 not in ok:
                c.violations.append(dict(key='linearizability', what='no order of the calls explains their results', case=h))
        c.traces += len(ok)
        c.samples += hs[:1]
    c.assumptions.append('schedules are those the Go scheduler produced under the race detector')
    return c.finish(exhaustive=False, rule='every move in every state of PeerStore.tla; concurrent histories of the real store, all linearised by PeerStoreLin.tla')


def check_p08(c):
    binp = c.go_build('p2p', FILES + ['p2p/drive.go', 'p2p/life.go'], name='life')
    c.tlc('NodeLife', cfg='NodeLifeLive.cfg', consts=dict(Conns='{1, 2, 3}'))
    cases = []
    for k in [dict(Ops='{}'), dict(Ops='{"dial"}'), dict(Conns='{1}')] if not THOROUGH else [dict(Ops='{"dial"}'), dict(), dict(Conns='{1, 2, 3}', Ops='{}')]:
        r = c.tlc('NodeLife', consts=k)
        edges = [(pkey(o['s']), dict(op=o['a']['op'], c=o['a']['c'], served=o['served'], empty=set(o['t']['conn']) == {'none'}), pkey(o['t'])) for o in r['emitted']]
        init = pkey(dict(node='up', conn=['none'] * len(r['emitted'][0]['s']['conn'])))
        paths, left = cover_paths(edges, init, c.rng, max_len=9)
        cases += [dict(steps=[edges[e][1] for e in p]) for p in paths]
    c.rng.shuffle(cases)
    c.go_run(binp, 'TestVerifLife', cases, shards=8, crash_is_violation=True, timeout=850)
    return c.finish(exhaustive=True, rule='every step of NodeLife.tla in every state of %d connections, over TCP, the stop in every one of them' % (3 if THOROUGH else 2))


def check_p09(c):
    binp = c.go_build('p2p', FILES + ['p2p/drive.go', 'p2p/hostile.go'], name='hostile')
    c.go_run(binp, 'TestVerifHold', [dict(k=k, stays=s) for k in ['entry', 'chain', 'ask', 'newtxs', 'newblock', 'lite', 'pool'] for s in (True, False)],
             shards=8, crash_is_violation=True)
    r = c.tlc('Hostile', consts=dict(Depth=3 if THOROUGH else 2))
    inits = [(o['init'], o['goal']) for o in r['emitted'] if 'init' in o]
    edges = [(pkey(o['s']), dict(o['a'], may=o['t']['may'], chain=o['t']['chain'], mute=o['mute']), pkey(o['t'])) for o in r['emitted'] if 's' in o]
    cases = []
    for i, goal in inits:
        paths, left = cover_paths(edges, pkey(i), c.rng, max_len=3)
        cases += [dict(goal=goal, steps=[edges[e][1] for e in p]) for p in paths]
    c.rng.shuffle(cases)
    c.go_run(binp, 'TestVerifHostile', cases, params=dict(rounds=20 if THOROUGH else 2), shards=8, crash_is_violation=True, timeout=850)
    c.assumptions.append('a packet may take 1000 times its size and 24 MB of memory while it is handled')
    return c.finish(exhaustive=False, rule='every corruption of Hostile.tla in every state of a connection, alone and after another one, at random places of its class')


def check_p10(c):
    binp = c.go_build('p2p', FILES + ['p2p/drive.go', 'p2p/swarm.go'], name='swarm')
    for scene, k in ([('two', dict(Own=1)), ('sly', {}), ('behind', {}), ('slylong', {}), ('three', dict(Joins=0))] if not THOROUGH else
                     [('two', dict(Own=1, Events=1, Choices='{2, 300}')), ('sly', dict(Events=1)), ('behind', dict(Events=1, Choices='{2, 4}')), ('slylong', dict(Own=1)), ('three', {})]):
        c.tlc('Swarm', cfg='SwarmLive.cfg', consts=dict(dict(Scene='"%s"' % scene, Joins=1), **k))
    plans = [('two', dict(Joins=1, Choices='{2, 4}')), ('behind', dict(Joins=1, Own=1)), ('sly', dict(Joins=1)), ('slylong', dict(Events=1)), ('free', dict(Own=1)),
             ('three', {}), ('threesly', {}), ('long', dict(Choices='{300}'))]
    if THOROUGH:
        plans = [(s, dict(Joins=1, Events=1, Choices='{2, 300}', Own=own)) for s in ('two', 'behind', 'sly', 'slylong') for own in (0, 1)] + \
                [('free', dict(Joins=1, Own=own)) for own in (0, 1)] + [(s, dict(Joins=1, Own=own)) for s in ('three', 'threesly') for own in (0, 1)] + \
                [('long', dict(Choices='{129, 300}'))]
    cases = []
    for scene, k in plans:
        r = c.tlc('Swarm', consts=dict(dict(Scene='"%s"' % scene), **k))
        init = [o['init'] for o in r['emitted'] if 'init' in o][0]
        edges = [(pkey(o['s']), dict(c=o['c'], op=o['op'], m=o['m'], out=o['out'], t=dict(chain=o['t']['chain'], c=[dict(s=dict(st=x['s']['st'])) for x in o['t']['c']])),
                  pkey(o['t'])) for o in r['emitted'] if 's' in o]
        paths, left = cover_paths(edges, pkey(init), c.rng, max_len=40)
        cs = [dict(scene=scene, n=len(init['c']), own=k.get('Own', 0), zone=900000, steps=[edges[e][1] for e in p]) for p in paths]
        c.rng.shuffle(cs)
        cases += cs[:20000 if THOROUGH else 1500]
    c.rng.shuffle(cases)
    c.go_run(binp, 'TestVerifSwarm', cases, shards=8, crash_is_violation=True)
    binr = c.go_build('p2p', FILES + ['p2p/drive.go', 'p2p/swarm.go'], race=True, name='swarmrace')
    r = c.go_run(binr, 'TestVerifTogether', [{}] * 8, params=dict(histories=400 if THOROUGH else 40, rounds=14), shards=8, timeout=400, crash_is_violation=True)
    hs = r['extra'].pop('histories', [])
    c.cov['harness_runs'][-1].pop('histories', None)
    if not c.violations:
        path = os.path.join(c.work, 'rounds.json')
        json.dump(hs, open(path, 'w'))
        t = c.tlc('SwarmTrace', env=dict(VERIF_HISTORIES=path), workers=8, timeout=700, expect_violation=True)
        ok = {o['explained'] for o in t['emitted'] if 'explained' in o}
        far = {}
        for o in t['emitted']:
            if 'far' in o:
                far[o['far'][0]] = max(far.get(o['far'][0], 0), o['far'][1])
        for i, h in enumerate(hs):
            if i + 1 not in ok:
                n = far.get(i + 1, 1)
                c.violations.append(dict(key='together', what='no order of handling explains round %d: %s' % (n, json.dumps(h['rounds'][n - 1] if n <= len(h['rounds']) else {})), case=h))
        c.traces += len(ok)
        c.samples += hs[:1]
    c.assumptions += NOTES + ['schedules of messages sent at once are those the Go scheduler produced under the race detector']
    return c.finish(exhaustive=False, rule='histories of Swarm.tla that cover every step in every state of its scenes, up to %d histories of each; rounds of messages sent at the same moment, all explained by SwarmTrace.tla' % (20000 if THOROUGH else 1500))


def own_network():
    """The command that gives a process a loopback network of its own, if that is possible here."""
    pre = ['unshare', '-Urn', 'sh', '-c', 'ip link set lo up && exec "$0" "$@"']
    try:
        return pre if subprocess.run(pre + ['true'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=20).returncode == 0 else None
    except (OSError, subprocess.TimeoutExpired):
        return None


def program(c):
    prog = os.path.join(c.work, 'krbd')
    r = subprocess.run(['go', 'build', '-o', prog, '.'], cwd=REPO, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise CheckError('the program does not build:\n' + r.stdout[-2000:])
    return prog


def check_p12(c):
    binp = c.go_build('p2p', FILES + ['p2p/drive_tcp.go', 'p2p/daemon.go', 'p2p/starve.go'], name='starve')
    prog = program(c)
    for n, limit in ((3, 1), (4, 2), (4, 3)):
        c.tlc('Starve', cfg='StarveLive.cfg', consts=dict(N=n, Limit=limit), workers=4)
    net = own_network()
    budget = (260 if THOROUGH else 14) if net else (20 if THOROUGH else 2)
    cases, total = [], 0
    for n, limit in ((3, 1), (4, 2), (4, 3)) + (((5, 2),) if THOROUGH else ()):
        r = c.tlc('Starve', consts=dict(N=n, Limit=limit), workers=1)
        init = [o['init'] for o in r['emitted'] if 'init' in o][0]
        edges = [(pkey(o['s']), dict(c=o['a']['c'], op=o['a']['op'], served=o['served'], said=o['said'], wait=o['t']['queue']), pkey(o['t'])) for o in r['emitted'] if 's' in o]
        paths, left = cover_paths(edges, pkey(init), c.rng, max_len=16)
        cs = [dict(limit=limit, steps=[edges[e][1] for e in p]) for p in paths]
        cs = [x for x in cs if any(s['wait'] for s in x['steps'])]
        total += len(cs)
        c.rng.shuffle(cs)
        for x in cs[:budget]:
            if x['steps'][-1]['op'] != 'stop':
                x['steps'].append(dict(c=0, op='stop', served=[], said=[], wait=[]))
            cases.append(x)
    c.rng.shuffle(cases)
    c.go_run(binp, 'TestVerifStarve', cases, params=dict(bin=prog, budget=450 if THOROUGH else 150), shards=24 if net else 1, prefix=net or (), timeout=700 if THOROUGH else 400, memory=16)
    c.cov['paths_in_all'] = total
    c.assumptions.append('the system refuses connections by a limit on the descriptors of the process, which is lifted again or not')
    return c.finish(exhaustive=False, rule='%d of the %d histories that cover every step in every state of Starve.tla, against the program in a process of its own with descriptors for one to three connections' % (len(cases), total))


def check_p11(c):
    binp = c.go_build('p2p', FILES + ['p2p/drive_tcp.go', 'p2p/daemon.go'], name='daemon')
    prog = program(c)
    for scene, k in [('two', {}), ('sly', {}), ('behind', {})] + ([('slylong', {}), ('two', dict(Events=1)), ('three', {}), ('threesly', {})] if THOROUGH else []):
        c.tlc('Daemon', cfg='DaemonLive.cfg', consts=dict(dict(Scene='"%s"' % scene, Starts=2), **k))
    plans = [('two', dict(Starts=2)), ('behind', dict(Starts=2)), ('slylong', {}), ('sly', dict(Joins=1)), ('free', {}), ('long', dict(Choices='{300}'))]
    if THOROUGH:
        plans += [('two', dict(Starts=2, Joins=1, Events=1, Choices='{2, 300}')), ('three', {}), ('threesly', {}), ('slylong', dict(Starts=2, Events=1)), ('free', dict(Joins=1))]
    net = own_network()
    budget = (400 if THOROUGH else 32) if net else (60 if THOROUGH else 3)
    cases, total = [], 0
    for scene, k in plans:
        r = c.tlc('Daemon', consts=dict(dict(Scene='"%s"' % scene), **k))
        init = [o['init'] for o in r['emitted'] if 'init' in o][0]
        edges = [(pkey(o['s']), dict(c=o['c'], op=o['op'], m=o['m'], out=o['out'], t=dict(p=o['t']['p'], o=o['t']['o'], chain=o['t']['s']['chain'],
                  st=[x['s']['st'] for x in o['t']['s']['c']])), pkey(o['t'])) for o in r['emitted'] if 's' in o]
        paths, left = cover_paths(edges, pkey(init), c.rng, max_len=60)
        cs = [dict(scene=scene, steps=[edges[e][1] for e in p]) for p in paths]
        total += len(cs)
        c.rng.shuffle(cs)
        cs = cs[:budget]
        for x in cs:   # whatever happened, it can be interrupted
            last = x['steps'][-1]['t']
            if last['p'] == 'on':
                t = dict(last, p='ending')
                x['steps'].append(dict(c=0, op='interrupt', m=dict(k='interrupt', sub=c.rng.choice(['once', 'twice', 'half'])), out=[], t=t))
                last = t
            if last['p'] == 'ending':
                x['steps'].append(dict(c=0, op='end', m=dict(k='end', sub=''), out=[], t=dict(last, p='off', chain=[])))
        cases += cs
    c.rng.shuffle(cases)
    c.go_run(binp, 'TestVerifDaemon', cases, params=dict(bin=prog, quiet=20, budget=450 if THOROUGH else 200), shards=64 if net else 1, prefix=net or (), timeout=700 if THOROUGH else 500, memory=16)
    c.cov['paths_in_all'] = total
    c.assumptions += NOTES + ['that nothing else is sent is observed for 20 ms of real time after each step, and by the steps that follow',
                              'the port the program listens at is 127.0.0.1:32447; a signal before it listens is not tried']
    return c.finish(exhaustive=False, rule='up to %d of the %d histories that cover every step in every state of Daemon.tla, against the program in a process of its own' % (len(cases), total))


def check_u02(c):
    args = '{1, 2, 3}'
    for pkg, files, test, n in (('crypto', ['common/report.go', 'common/pure.go', 'crypto/pure_ops.go'], 'TestVerifPureCrypto', 19),
                                ('p2p', ['common/report.go', 'common/pure.go', 'p2p/world.go', 'p2p/pure_ops.go'], 'TestVerifPureNode', 24)):
        binp = c.go_build(pkg, files, race=True, name='pure' + pkg, optional={pkg + '/pure_deep.go': pkg + '/pure_flat.go'})
        cases = c.tlc('Pure', consts=dict(NOps=n, Args=args))['emitted']
        if THOROUGH:
            three = c.tlc('Pure', consts=dict(NOps=n, Args='{1, 2}', Procs='{1, 2, 3}'), workers=4)['emitted']
            c.rng.shuffle(three)
            cases = cases + three[:6000]
        c.rng.shuffle(cases)
        c.go_run(binp, test, cases, params=dict(ops=n, copies=2, rounds=3 if THOROUGH else 2), shards=8, crash_is_violation=True)
    r = c.tlc('Pure', consts=dict(NOps=2, Args='{1, 2}', Shared='TRUE'), expect_violation=True)
    if 'Invariant Alone is violated' not in r['out']:
        raise CheckError('Pure.tla does not tell a place of its own from a shared one')
    c.assumptions.append('schedules of calls made at once are those the Go scheduler produced under the race detector')
    return c.finish(exhaustive=True, rule='every pair of the functions listed, with every pair of three arguments, at the same moment, each twice over%s' % (
        '; some thousands of triples' if THOROUGH else ''))


CHECKS = {'P12': check_p12, 'U02': check_u02, 'P11': check_p11, 'P10': check_p10, 'P01': check_p01, 'P02': check_p02, 'P03': check_p03, 'P04': check_p04, 'P05': check_p05, 'P06': check_p06, 'P07': check_p07, 'P08': check_p08, 'P09': check_p09}

"""Checks of transactions, rewards and difficulty."""
from vlib import SEED, THOROUGH, cover_paths

COMMON = ['common/report.go', 'cryptonote/lib.go']
MARKS = [60000, 216000, 216394, 266000, 500000, 667000, 700000]
HEIGHTS = sorted({2} | {m + d for m in MARKS for d in (-1, 0, 1, 2)})


def tla_set(xs):
    return '{%s}' % ', '.join(('"%s"' % x) if isinstance(x, str) else str(x) for x in xs)


def tx_check(c, jobs):
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/chain.go', 'cryptonote/tx.go'])
    for kinds, heights in jobs:
        r = c.tlc('Tx', consts={'Kinds': tla_set(kinds), 'Heights': tla_set(heights), 'Rich': 'TRUE' if THOROUGH else 'FALSE'}, workers=8)
        cases = r['emitted']
        c.rng.shuffle(cases)
        # one height after the other: the chains are reused
        cases.sort(key=lambda x: x['c']['h'])
        c.go_run(binp, 'TestVerifTx', cases, shards=8)


def check_c07(c):
    hs = HEIGHTS if THOROUGH else [2, 60001, 216001, 216395, 266001, 500001, 667000, 699999, 700000, 700001]
    tx_check(c, [(['ring', 'keyimage', 'coinbase', 'sum'], hs), (['out'], hs if THOROUGH else [2, 60001, 216001, 266001, 699999, 700000, 700001]),
                 (['verify'], HEIGHTS if THOROUGH else [1000, 60001, 216001, 266001, 700001])])
    c.assumptions.append('multi-signature inputs and outputs cannot be decoded by the code, so they cannot be part of a block')
    return c.finish(exhaustive=True, rule='every case of Tx.tla about rings, key images, coinbase inputs, sums, outputs and verification at the listed heights; '
                    'refused cases are offered with the reward as if the fee counted and as if it did not')


def check_c08(c):
    hs = HEIGHTS
    tx_check(c, [(['fee'], hs), (['fusion'], hs if THOROUGH else [60001, 215999, 216000, 216001, 216395, 265999, 266000, 266001, 699999, 700000, 700001]),
                 (['size', 'ring', 'out'], hs if THOROUGH else [216000, 216001, 216394, 216395, 266000, 266001, 500001, 667000, 699999, 700000, 700001])])
    return c.finish(exhaustive=True, rule='every case of Tx.tla about fees, fusions, sizes, rings and output amounts on both sides of every height '
                    'at which the policy changes; fees one atomic unit around every threshold')


def check_c05(c):
    binp = c.go_build('config', ['common/report.go', 'config/reward.go'])
    traces = c.quint('Reward', 'RewardCases', 400 if THOROUGH else 100, 300, invariant='bounded')
    cases = [dict(s['q'], big=s['big'], claim=s['claim'], emission=s['emission']) for t in traces for s in t]
    c.go_run(binp, 'TestVerifReward', cases, shards=4)
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/chain.go', 'cryptonote/tx.go', 'cryptonote/emission.go'], name='emission',
                      optional={'cryptonote/emission_deep.go': 'common/stub.go'})
    traces = c.quint('Reward', 'Emission', 800 if THOROUGH else 120, 40, invariant='sane', timeout=600)
    cases = []
    for t in traces:
        steps = [dict(s['offer'], coins=s['coins'], txs=s['txs']) for s in t[1:]]
        cases.append(dict(version=t[0]['version'], sizes=t[0]['sizes'], coins=t[0]['coins'], steps=steps))
    c.go_run(binp, 'TestVerifEmission', cases, shards=8)
    return c.finish(exhaustive=False, rule='random questions concentrated on the thresholds of median, size, supply and fee; random histories of '
                    'blocks of sizes around the median and its double with true and false claims; non-trivial: distinct questions and offers')


def check_c13(c):
    binp = c.go_build('config', ['common/report.go', 'config/difficulty.go'])
    traces = c.quint('Difficulty', 'DifficultyCases', 400 if THOROUGH else 80, 60, invariant='sane', timeout=800)
    cases = [s for t in traces for s in t if s['ask']]
    # as in the chain: every window of a growing chain is asked too
    chains = c.quint('Difficulty', 'DifficultyChain', 600 if THOROUGH else 110, 30, invariant='sane', timeout=800)
    c.go_run(binp, 'TestVerifDifficulty', [dict(net=x['net'], top=x['top'], ts=x['ts'], cum=x['cum'], low=x['low'], high=x['high']) for x in cases], shards=8)
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/chain.go', 'cryptonote/growth.go'], name='growth')
    runs = []
    for t in chains:
        steps = [dict(t=x['ts'][-1], low=x['low'], high=x['high']) for x in t[1:]]
        runs.append(dict(net=t[0]['net'], top=t[0]['top'], ts=t[0]['ts'], cum=t[0]['cum'], steps=steps))
        for i, x in enumerate(t[1:], 1):
            # after a rounded number the chain starts again from the state of the specification
            if t[i]['low'] != t[i]['high']:
                y = t[i]
                runs.append(dict(net=y['net'], top=y['top'], ts=y['ts'], cum=y['cum'], steps=steps[i:]))
    runs = [r for r in runs if r['steps']]
    c.go_run(binp, 'TestVerifGrowth', runs, shards=8)
    c.assumptions += ['version 3 is computed with floating point numbers: its result must lie within one part in 10^9 of the exact value',
                      'average difficulties whose 64 bit product overflows in the original version 5 algorithm (2.7e10 to 6.9e12) are left out']
    return c.finish(exhaustive=False, rule='random windows of every version around every switch (timestamps regular, unordered, equal, extreme; work '
                    'constant, noisy, rising, falling, with outliers), and growing chains whose recorded work must follow; non-trivial: distinct windows')


def check_u01(c):
    binp = c.go_build('utils', ['common/report.go', 'utils/arith.go'])
    traces = c.quint('Amounts', 'ArithCases', 1200 if THOROUGH else 150, 300, invariant='exact', timeout=800)
    c.go_run(binp, 'TestVerifArith', [s for t in traces for s in t], shards=4)
    c.assumptions.append('the divisor of Div128p32 is not zero; the two middle values of a median sum to less than 2^64; ClampInt64 has lo <= hi')
    return c.finish(exhaustive=False, rule='random questions concentrated on powers of two and their neighbours, whole and half words, extremes; '
                    'lists of equal, sorted and unsorted values; non-trivial: distinct questions')


def check_c16(c):
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/amounts.go'], name='amounts')
    traces = c.quint('Amounts', 'UnlockCases', 600 if THOROUGH else 80, 300, invariant='monotone', timeout=800)
    c.go_run(binp, 'TestVerifUnlock', [s for t in traces for s in t], shards=4)
    c.assumptions.append('time is simulated (testing/synctest), between 2000-01-01 and 115 days later')
    return c.finish(exhaustive=False, rule='random questions within two of every bound: the height and the time an output is unlocked at, the number '
                    'from which on an unlock time is a time; non-trivial: distinct questions')


def check_c17(c):
    binp = c.go_build('cryptonote', COMMON + ['cryptonote/amounts.go'], name='amounts')
    traces = c.quint('Amounts', 'DecomposeCases', 800 if THOROUGH else 100, 300, invariant='sane', timeout=800)
    c.go_run(binp, 'TestVerifDecompose', [s for t in traces for s in t], shards=4)
    return c.finish(exhaustive=False, rule='random amounts of 64 bits with zeros, nines and single digits in every position, thresholds within one of '
                    'the sums of their first digits; non-trivial: distinct questions')


CHECKS = {'U01': check_u01, 'C16': check_c16, 'C17': check_c17, 'C05': check_c05, 'C07': check_c07, 'C08': check_c08, 'C13': check_c13}

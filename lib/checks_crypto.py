"""Checks of the keys, signatures and hashes."""
from vlib import THOROUGH


def crypto_bin(c):
    return c.go_build('crypto', ['common/report.go', 'crypto/curve.go', 'crypto/sign.go', 'crypto/ring.go', 'crypto/derive.go', 'crypto/merkle.go'])


TRUST = 'Keccak is trusted to have no collisions and the curve no known discrete logarithms: different terms are expected to be different bytes'


def check_k01(c):
    r = c.tlc('Sign', workers=8)
    c.go_run(crypto_bin(c), 'TestVerifSign', r['emitted'], params=dict(rounds=100 if THOROUGH else 4), shards=8)
    c.assumptions.append(TRUST)
    return c.finish(exhaustive=True, rule='every combination of exchanged hash, key, challenge and response of Sign.tla, each with several secret keys including the smallest and the largest')


def check_k02(c):
    r = c.tlc('Ring', consts=dict(N='4' if THOROUGH else '3'), workers=8, timeout=800)
    c.go_run(crypto_bin(c), 'TestVerifRing', r['emitted'], params=dict(rounds=4 if THOROUGH else 1, sizes=40 if THOROUGH else 14), shards=8)
    c.assumptions.append(TRUST)
    c.assumptions.append('a caller that leaves out the group test of CheckRingSignature tests the key image itself')
    return c.finish(exhaustive=True, rule='every ring of up to %d members, every signer and every pair of changes of Ring.tla; larger rings with one change each' % (4 if THOROUGH else 3))


def derive(c):
    idx = '{"0", "1", "127", "128", "16383", "16384", "max32", "max"}' if THOROUGH else '{"0", "1", "127", "128", "max"}'
    r = c.tlc('Derive', consts=dict(Senders='{"r1", "r2", "r3"}' if THOROUGH else '{"r1", "r2"}', Wallets='{"1", "2"}', Indexes=idx), workers=8)
    c.go_run(crypto_bin(c), 'TestVerifDerive', r['emitted'], params=dict(rounds=30 if THOROUGH else 2, what=c.pid), shards=4)
    c.assumptions.append(TRUST)
    return r


def check_k03(c):
    derive(c)
    return c.finish(exhaustive=True, rule='every transaction key (with every low order part), receiver and position of Derive.tla, each with several secrets; all outputs compared with each other')


def check_k04(c):
    derive(c)
    return c.finish(exhaustive=True, rule='the key of every output of Derive.tla, its image with every low order part, each with several secrets; all images compared with each other')


def check_k05(c):
    r = c.tlc('Merkle', consts=dict(N='70' if THOROUGH else '36', D='64'), workers=8)
    c.go_run(crypto_bin(c), 'TestVerifMerkle', r['emitted'], shards=8)
    c.assumptions.append(TRUST)
    return c.finish(exhaustive=True, rule='lists of up to %d hashes, every change of one and swap of two of them; branches of up to 64' % (70 if THOROUGH else 36))


def check_k06(c):
    binp = c.go_build('crypto/edwards25519', ['common/report.go', 'edwards25519/points.go'])
    traces = c.quint_par(8, 'Curve', 'CurveCases', 60 if THOROUGH else 6, 100, invariant='sane', timeout=800)
    c.go_run(binp, 'TestVerifPoints', [s for t in traces for s in t], shards=4)
    return c.finish(exhaustive=False, rule='random questions: sums, differences and multiples of points with and without low order part, equal ones included; encodings '
                    'at the edges of the field and of points with the sign or the number changed; scalars at the ends of the group, next to multiples of its '
                    'order and to powers of two; non-trivial: distinct questions')


def check_k07(c):
    binp = c.go_build('crypto', ['common/report.go', 'crypto/curve.go', 'crypto/keys.go'], name='keys')
    traces = c.quint_par(4, 'Curve', 'KeyCases', 60 if THOROUGH else 6, 100, invariant='sane', timeout=800)
    c.go_run(binp, 'TestVerifKeys', [s for t in traces for s in t], shards=2)
    c.assumptions.append(TRUST)
    return c.finish(exhaustive=False, rule='random secret keys and encodings concentrated on the edges of the order and the field; some hundreds of new keys')


CHECKS = {'K07': check_k07, 'K06': check_k06, 'K01': check_k01, 'K02': check_k02, 'K03': check_k03, 'K04': check_k04, 'K05': check_k05}

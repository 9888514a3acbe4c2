"""Checks of the encodings."""
from vlib import SEED, THOROUGH


def kv_cases(c, what, edits):
    r = c.tlc('Kv', consts=dict(What='"%s"' % what, Edits='"%s"' % edits, Long='TRUE' if what == 'format' else 'FALSE'), workers=8)
    by = {}
    for x in r['emitted']:
        if 't' in x:
            by.setdefault(x['i'], {}).update(m=x['m'], t=x['t'], val=x['val'], b=x['b'])
        else:
            by.setdefault(x['i'], {}).setdefault('es', []).append(dict(e=x['e'], d=x['d']))
    return list(by.values())


def kv_check(c, what):
    binp = c.go_build('encoding/binary', ['common/report.go', 'common/kvlib.go', 'common/within.go', 'binary/kv.go'])
    c.go_run(binp, 'TestVerifKv', kv_cases(c, 'format', 'all' if THOROUGH else 'few'), params=dict(what=what), shards=8)
    binp = c.go_build('p2p', ['common/report.go', 'common/kvlib.go', 'common/within.go', 'p2p/messages.go'])
    c.go_run(binp, 'TestVerifMessages', kv_cases(c, 'messages', 'all' if THOROUGH else 'few'), params=dict(what=what), shards=8)


def check_e01(c):
    kv_check(c, 'roundtrip')
    c.assumptions.append('fixed size arrays are blobs of bytes: the decoder supports no other array')
    return c.finish(exhaustive=True, rule='every type and value of Kv.tla and every message of the protocol; every reordering of two fields and every wide length')


def check_e02(c):
    kv_check(c, 'malformed')
    return c.finish(exhaustive=True, rule='every cut, every tag, every length and every listed change of one byte of every encoding of Kv.tla, '
                    'and random combinations which only have to be survived')


def check_e05(c):
    r = c.tlc('Base58', consts=dict(What='"text"', Rich='TRUE' if THOROUGH else 'FALSE'), workers=8)
    binp = c.go_build('crypto/base58', ['common/report.go', 'base58/text.go'])
    c.go_run(binp, 'TestVerifBase58', r['emitted'], shards=8)
    r = c.tlc('Base58', consts=dict(What='"address"', Rich='FALSE'), workers=8)
    binp = c.go_build('cryptonote', ['common/report.go', 'cryptonote/address.go'], name='address')
    c.go_run(binp, 'TestVerifAddress', r['emitted'], shards=8)
    c.assumptions.append('Keccak is trusted as a checksum: no text tried collides in its 32 bits')
    return c.finish(exhaustive=True, rule='every text of Base58.tla and every change of one digit; every tag, key and shape of an address, and changes, '
                    'insertions, deletions and swaps of its characters')


def wire_check(c):
    binp = c.go_build('cryptonote', ['common/report.go', 'common/within.go', 'cryptonote/wire.go'], name='wire')
    for what in ('extra', 'tx', 'block'):
        r = c.tlc('Wire', consts=dict(What='"%s"' % what, Rich='TRUE' if THOROUGH else 'FALSE'), workers=8)
        by = {}
        for x in r['emitted']:
            if 'val' in x:
                by.setdefault(x['i'], {}).update(x)
            else:
                by.setdefault(x['i'], {}).setdefault('es', []).append(dict(e=x['e'], d=x['d'], x=x['x'], pre=x['pre']))
        c.go_run(binp, 'TestVerifWire', list(by.values()), params=dict(what=what, prop=c.pid), shards=8)


def check_e03(c):
    wire_check(c)
    c.assumptions.append('the encoding of multisignature inputs and outputs is not implemented: they are refused')
    return c.finish(exhaustive=True, rule='every transaction, block and extra of Wire.tla and every edit of them which is valid again')


def check_e04(c):
    wire_check(c)
    return c.finish(exhaustive=True, rule='every cut, every listed change of every number, tag, key and extra byte of every transaction, block and extra of '
                    'Wire.tla, and random combinations which only have to be survived')


CHECKS = {'E03': check_e03, 'E04': check_e04, 'E05': check_e05, 'E01': check_e01, 'E02': check_e02}

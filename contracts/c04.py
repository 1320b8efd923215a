from .base import *
from .leafspec import *
from .c03 import val_setup, bad_setup, roundtrip, gen_data
import io


def ifit(v, n):
    return And(v >= -2 ** (8 * n - 1), v < 2 ** (8 * n - 1)) if n > 0 else False


def check_int(val, length=None):
    if length is not None and length < 0:
        return
    for name, f in (('encodeInt', encoding.encodeInt), ('IntegerElement.encodePayload', core.IntegerElement.encodePayload)):
        in64 = -2 ** 63 <= val < 2 ** 63
        w = next((n for n in range(1, 9) if ifit(val, n)), 99)
        try:
            b = f(val, length)
        except ValueError:
            if in64 and (length is None or length >= w):
                raise Broken('%s(%d, %r) raised ValueError' % (name, val, length))
            continue
        except (TypeError, OverflowError) as e:
            if in64:
                raise Broken('%s(%d, %r) raised %r' % (name, val, length, e))
            continue
        if not in64 or (length is not None and length < w):
            raise Broken('%s(%d, %r) = %r instead of an error' % (name, val, length, b))
        n = length if length is not None else w
        if b != val.to_bytes(n, 'big', signed=True):
            raise Broken('%s(%d, %r) = %r' % (name, val, length, b))
        if n <= 8:
            read_int(bytes(b), val)


def read_int(b, val):
    for name, f in (('readInt', decoding.readInt), ('IntegerElement.parse', core.IntegerElement(None, 0, 0, 0).parse)):
        s = io.BytesIO(b'\xee' + b + b'\xff\xff')
        s.seek(1)
        r = f(s, len(b))
        if r != val or type(r) is not int or s.tell() != 1 + len(b):
            raise Broken('%s(%r) = %r, consumed %d' % (name, b, r, s.tell() - 1))


def check_iread(data):
    read_int(data[:8], int.from_bytes(data[:8], 'big', signed=True))


def check_ibad(val):
    for f in (encoding.encodeInt, core.IntegerElement.encodePayload):
        try:
            r = f(val)
        except TypeError:
            continue
        raise Broken('encodeInt(%r) = %r instead of TypeError' % (val, r))


def dir_int():
    vs = {s * (2 ** (8 * n - k) + d) for n in range(1, 10) for k in (0, 1) for d in (-2, -1, 0, 1, 2) for s in (1, -1)} | {0, 10 ** 30, -10 ** 30}
    return [dict(val=v, length=n) for v in sorted(vs) for n in [None] + list(range(0, 12))]


def gen_int(rng):
    while True:
        v = rng.getrandbits(rng.randint(1, 66))
        if rng.random() < .3:
            v = v & ~0xff
        if rng.random() < .2:
            v = 2 ** rng.randint(0, 65)
        yield dict(val=-v if rng.random() < .5 else v, length=rng.choice([None, None] + list(range(0, 10))))


PROPERTY = Property('C04', [
    leaf('encodeInt', 'encoding.encodeInt', val_setup(-2 ** 63, 2 ** 63 - 1), kind='int'),
    leaf('encodeInt, each length 1 to 8', 'encoding.encodeInt',
         lambda c: dict(val=c.fresh('val', -2 ** 63, 2 ** 63 - 1), length=c.case('length', *range(1, 9))), kind='int'),
    leaf('encodeInt, outside 64 bits', 'encoding.encodeInt',
         lambda c: dict(val=c.case('side', lambda: c.fresh('val', 2 ** 63), lambda: c.fresh('val', None, -2 ** 63 - 1)),
                        length=c.case('length', None, lambda: c.fresh('length', 0))), kind='int',
         spec=lambda c, val, length=None: graise(Exception())),
    leaf('encodeInt, not a number', 'encoding.encodeInt', bad_setup),
    leaf('IntegerElement.encodePayload', 'core.IntegerElement.encodePayload', val_setup(), ['encodeInt'], kind='int',
         spec=spec_encodeInt),
    leaf('readInt', 'decoding.readInt', lambda c: dict(size=c.fresh('size', 0, 8)), reader=True, kind='read',
         conv=lambda i: dict(data=i['data'][:i['size']])),
    leaf('IntegerElement.parse', 'core.IntegerElement.parse', lambda c: dict(size=c.fresh('size', 0, 8)), ['readInt'], reader=True,
         spec=spec_readInt, kind='read', conv=lambda i: dict(data=i['data'][:i['size']])),
    Proof('round trip (lemma over the contracts)', roundtrip(lambda: encoding.encodeInt, lambda: decoding.readInt, -2 ** 63, 2 ** 63 - 1,
                                                             'encodeInt', 'readInt', ifit), kind='int',
          covers=['refused', 'read back']),
], [
    Kind('int', check_int, gen_int, dir_int, n=3000),
    Kind('read', check_iread, gen_data, [dict(data=bytes([a]) + bytes([b] * n)) for a in (0, 1, 127, 128, 255) for b in (0, 127, 128, 255) for n in range(8)] + [dict(data=b'')], n=2000),
    Kind('bad', check_ibad, None, [dict(val=v) for v in (None, 'x', '12', b'1', [1], (1,), {}, 1j)]),
], assumptions=['payload widths 0 to 8 when reading (what EBML allows)'])

from .base import *
from .leafspec import *
from .c03 import gen_data
from fractions import Fraction
import io
import math
import struct


def any_float(c, name='val'):
    return SFloat(c.fresh(name, 0, 2 ** 64 - 1))


def enc_setup(c):
    v = c.case('type', lambda: any_float(c), lambda: c.fresh('val', -2 ** 53, 2 ** 53), True, 0)
    ln = c.case('length', None, lambda: c.fresh('length'))
    return dict(val=v, length=ln)


def none_setup(c):
    return dict(val=None, length=None)


def bad_setup(c):
    v = c.case('type', None, 'text', b'\x01', lambda: opaque_text('txt'), lambda: opaque_bytes('byt'), (1,), other)
    return dict(val=v, length=c.case('length', 4, 8))


def roundtrip(c):
    """Lemma over the contracts of encodeFloat and readFloat."""
    ip = Interp(c)
    use(c, 'encodeFloat', 'readFloat')
    v = any_float(c)
    ln = c.case('length', None, 8, 4)
    c.inputs.update(val=v, length=ln)
    got = outcome(lambda: ip.call(encoding.encodeFloat, [v, ln]))
    if got[0] == 'exc':
        c.prove(ln == 4 and isinstance(got[1], OverflowError), 'only what a single cannot hold is refused')
        return
    r = rope(got[1])
    n = r.size() if r.size() is not None else c.concretize(r.n, 9)
    c.prove(n == ln if ln is not None else n in (0, 8), 'length')
    pre = opaque_bytes('before')
    s = SStream(SRope('bytes', pre.segs + r.segs + opaque_bytes('after').segs), mki(ze(pre.n)))
    back = outcome(lambda: ip.call(decoding.readFloat, [s, n]))
    c.prove(back[0] == 'ok', 'readable')
    if back[0] != 'ok':
        return
    c.prove(mkb(ze(s.pos) == ze(pre.n) + n), 'consumes exactly the payload')
    w = back[1]
    if ln == 8:
        same_value(c, 'bit for bit', w, v)
    elif ln == 4:
        # reads back as exactly the single that was written
        t = SFloat.F32(ze(v.bits))
        same_value(c, 'the nearest single', w, SFloat(mki(SFloat.F64(t))))
    else:
        if isinstance(w, float):
            c.prove(And(v.is_zero(), w == 0), 'equal number')
        else:
            c.prove(mkb(ze(w.bits) == ze(v.bits)), 'equal number')
    c.cover('read back')


# ------------------------------------------------------------------ concrete

def nearest_single(x):
    """Nearest single of a finite double, ties to even; None if beyond the range."""
    if x == 0 or x != x or math.isinf(x):
        return x
    f = Fraction(x)
    a = abs(f)
    e = max(math.frexp(abs(x))[1] - 24, -149)
    q = a / Fraction(2) ** e
    k = q.numerator // q.denominator
    r = q - k
    if r > Fraction(1, 2) or r == Fraction(1, 2) and k % 2:
        k += 1
    y = k * Fraction(2) ** e
    if y >= Fraction(2) ** 128:
        return None
    return math.copysign(float(y), x)


def bits(x):
    return struct.unpack('>Q', struct.pack('>d', x))[0]


def double_bytes(x):
    """IEEE-754 big-endian, computed from the value."""
    s = 1 if math.copysign(1, x) < 0 else 0
    a = abs(x)
    if a == 0:
        e, m = 0, 0
    elif math.isinf(a):
        e, m = 2047, 0
    else:
        fm, fe = math.frexp(a)
        e = fe + 1022
        if e <= 0:
            m, e = int(a * 2.0 ** 537 * 2.0 ** 537), 0
        else:
            m = int(fm * 2 ** 53) - 2 ** 52
    return (s << 63 | e << 52 | m).to_bytes(8, 'big')


def fread(b):
    out = []
    for f in (decoding.readFloat, core.FloatElement(None, 0, 0, 0).parse):
        s = io.BytesIO(b'\xee' + b + b'\xff\xff')
        s.seek(1)
        r = f(s, len(b))
        if type(r) is not float or s.tell() != 1 + len(b):
            raise Broken('readFloat(%r) = %r, consumed %d' % (b, r, s.tell() - 1))
        out.append(r)
    if bits(out[0]) != bits(out[1]):
        raise Broken('readFloat(%r) differs from FloatElement.parse' % b)
    return out[0]


def check_float(val, length=None):
    x = float(val)
    if isinstance(val, int) and int(x) != val:
        return
    for name, f in (('encodeFloat', encoding.encodeFloat), ('FloatElement.encodePayload', core.FloatElement.encodePayload)):
        try:
            b = f(val, length)
        except ValueError:
            if length in (None, 0, 4, 8):
                raise Broken('%s(%r, %r) raised ValueError' % (name, val, length))
            continue
        except OverflowError:
            if length == 4 and nearest_single(x) is None:
                continue
            raise Broken('%s(%r, %r) raised OverflowError' % (name, val, length))
        if length not in (None, 0, 4, 8):
            raise Broken('%s(%r, %r) = %r instead of ValueError' % (name, val, length, b))
        if length is not None and len(b) != length:
            raise Broken('%s(%r, %r) = %r' % (name, val, length, b))
        if length == 0:
            continue
        r = fread(b)
        if x != x:
            if r == r:
                raise Broken('%s(%r, %r) reads back as %r' % (name, val, length, r))
            continue
        if length == 4:
            w = nearest_single(x)
            if w is None or bits(r) != bits(w):
                raise Broken('%s(%r, 4) reads back as %r, nearest single %r' % (name, val, r, w))
        elif length == 8:
            if b != double_bytes(x) or bits(r) != bits(x):
                raise Broken('%s(%r, 8) = %r' % (name, val, b))
        elif r != x:
            raise Broken('%s(%r) reads back as %r' % (name, val, r))


def check_fread(data):
    if len(data) == 8:
        v = fread(data)
        n = int.from_bytes(data, 'big')
        if (n >> 52 & 0x7ff) == 0x7ff and n & (2 ** 52 - 1):
            if v == v:
                raise Broken('readFloat(%r) = %r' % (data, v))
        elif double_bytes(v) != data:
            raise Broken('readFloat(%r) = %r' % (data, v))
    elif len(data) == 4:
        v = fread(data)
        n = int.from_bytes(data, 'big')
        s, e, m = n >> 31, n >> 23 & 0xff, n & (2 ** 23 - 1)
        if e == 255 and m:
            if v == v:
                raise Broken('readFloat(%r) = %r' % (data, v))
            return
        w = math.inf if e == 255 else m * 2.0 ** -149 if e == 0 else (2 ** 23 + m) * 2.0 ** (e - 150)
        if bits(v) != bits(-w if s else w):
            raise Broken('readFloat(%r) = %r' % (data, v))
    elif not data:
        if fread(data) != 0.0:
            raise Broken('empty float')
    else:
        for f in (decoding.readFloat, core.FloatElement(None, 0, 0, 0).parse):
            try:
                r = f(io.BytesIO(data + b'\0' * 20), len(data))
            except IOError:
                continue
            raise Broken('readFloat of %d bytes = %r instead of IOError' % (len(data), r))


def vals():
    out = [0.0, -0.0, 1.0, -1.5, math.pi, math.inf, -math.inf, math.nan, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308,
           3.4028234663852886e38, 3.4028235677973366e38, 3.4028235677973362e38, 1e39, 1.401298464324817e-45, 7e-46, 7.006492321624086e-46,
           1.1754943508222875e-38, 1.1754942e-38, 0.1, 1 / 3, 16777217.0, 16777219.0, 1 + 2.0 ** -24, 1 + 3 * 2.0 ** -24, 0, 1, -7, 2 ** 53, True,
           2 ** 70]
    return out


def dir_float():
    return [dict(val=v, length=n) for v in vals() for n in (None, 0, 4, 8)] + [dict(val=1.5, length=n) for n in range(-3, 18)]


def gen_float(rng):
    while True:
        k = rng.random()
        if k < .5:
            v = struct.unpack('>d', rng.getrandbits(64).to_bytes(8, 'big'))[0]
        elif k < .9:
            v = struct.unpack('>f', rng.getrandbits(32).to_bytes(4, 'big'))[0] * rng.choice((1, 1, 1 + 2.0 ** -24, 1 + 2.0 ** -25))
        else:
            v = float(rng.randint(-1000, 1000))
        yield dict(val=v, length=rng.choice((None, 4, 8, 4, 8, 0, rng.randint(-2, 20))))


def gen_fread(rng):
    while True:
        yield dict(data=rng.randbytes(rng.choice((8, 8, 4, 4, rng.randint(0, 12)))))


PROPERTY = Property('C05', [
    leaf('encodeFloat', 'encoding.encodeFloat', enc_setup, kind='float'),
    leaf('encodeFloat, None', 'encoding.encodeFloat', none_setup),
    leaf('encodeFloat, not a number', 'encoding.encodeFloat', bad_setup),
    leaf('FloatElement.encodePayload', 'core.FloatElement.encodePayload', enc_setup, ['encodeFloat'], kind='float', spec=spec_encodeFloat),
    leaf('readFloat', 'decoding.readFloat', lambda c: dict(size=c.fresh('size', 0)), reader=True, kind='read',
         conv=lambda i: dict(data=(i['data'] + bytes(40))[:min(i['size'], 40)])),
    leaf('FloatElement.parse', 'core.FloatElement.parse', lambda c: dict(size=c.fresh('size', 0)), ['readFloat'], reader=True,
         spec=spec_readFloat, kind='read', conv=lambda i: dict(data=(i['data'] + bytes(40))[:min(i['size'], 40)])),
    Proof('round trip (lemma over the contracts)', roundtrip, kind='float', covers=['read back']),
], [
    Kind('float', check_float, gen_float, dir_float, n=6000),
    Kind('read', check_fread, gen_fread, [dict(data=bytes([a, b] + [c] * 20)[:n]) for a in (0, 0x80, 0x7f, 0xff, 0x3f) for b in (0, 0x7f, 0x80, 0xf0, 1)
                                          for c in (0, 255, 1) for n in (4, 8)] + [dict(data=b'\1' * n) for n in range(0, 20)], n=4000),
], assumptions=['a float is its 64 IEEE-754 bits', 'the platform is 64-bit (DEFAULT_FLOAT_SIZE 8)',
                'integers given as floats are exactly representable'],
    trusted=["struct's conversion between doubles and singles (uninterpreted in the proofs; compared with an independent rounding of exact "
             "fractions in the bounded cross-check)"])

from .base import *
from .leafspec import *
import io


def val_setup(lo=None, hi=None):
    def f(c):
        v = c.fresh('val', lo, hi)
        ln = c.case('length', None, lambda: c.fresh('length', 0, None))
        return dict(val=v, length=ln)
    return f


def bad_setup(c):
    v = c.case('type', None, 'text', b'\x01', lambda: opaque_text('txt'), lambda: opaque_bytes('byt'), (1,), other,
               lambda: SDatetime.arbitrary('date'))
    return dict(val=v, length=c.case('length', None, lambda: c.fresh('length', 1, 8)))


def roundtrip(enc, dec, lo, hi, encname, decname, fit):
    def run(c):
        ip = Interp(c)
        use(c, encname, decname)
        v = c.fresh('val', lo, hi)
        ln = c.case('length', None, lambda: c.fresh('length', 1, 8))
        c.inputs.update(val=v, length=ln)
        got = outcome(lambda: ip.call(enc(), [v, ln]))
        if got[0] == 'exc':
            c.prove(isinstance(got[1], ValueError), 'only ValueError')
            if ln is None:
                c.prove(False, 'never refused without a length')
            else:
                c.prove(Not(fit(v, c.concretize(ln, 9))), 'refused only if it does not fit')
            c.cover('refused')
            return
        r = rope(got[1])
        n = c.concretize(r.n, 9) if r.size() is None else r.size()
        if ln is not None:
            c.prove(mkb(ze(ln) == n), 'exactly the requested length')
        else:
            c.prove(n >= 1, 'at least one byte')
            c.prove(And(fit(v, n), n == 1 or Not(fit(v, n - 1))), 'fewest bytes')
        p = c.fresh('pos', 0)
        pre = opaque_bytes('before')
        c.assume(ze(pre.n) == p.e)
        s = SStream(SRope('bytes', pre.segs + r.segs + opaque_bytes('after').segs), p)
        back = outcome(lambda: ip.call(dec(), [s, n]))
        same(c, 'reads back the same value', back, ('ok', v))
        c.prove(mkb(ze(s.pos) == p.e + n), 'consumes exactly the payload')
        c.cover('read back')
    return run


def ufit(v, n):
    return And(v >= 0, v < 256 ** n)


# ------------------------------------------------------------------ concrete

def elem(kind):
    return getattr(core, kind)


def check_uint(val, length=None):
    if length is not None and length < 0:
        return
    for name, f in (('encodeUInt', encoding.encodeUInt), ('UIntegerElement.encodePayload', core.UIntegerElement.encodePayload)):
        fits = 0 <= val < 2 ** 64 and (length is None or val < 256 ** length and length >= 1)
        try:
            b = f(val, length)
        except ValueError:
            if fits:
                raise Broken('%s(%d, %r) raised ValueError' % (name, val, length))
            continue
        if not fits:
            raise Broken('%s(%d, %r) = %r instead of ValueError' % (name, val, length, b))
        n = length if length is not None else max(1, (val.bit_length() + 7) // 8)
        if b != val.to_bytes(n, 'big'):
            raise Broken('%s(%d, %r) = %r' % (name, val, length, b))
        if n <= 8:
            read_uint(bytes(b), val)


def read_uint(b, val):
    for name, f in (('readUInt', decoding.readUInt), ('UIntegerElement.parse', core.UIntegerElement(None, 0, 0, 0).parse)):
        s = io.BytesIO(b'\xee' + b + b'\xff\xff')
        s.seek(1)
        r = f(s, len(b))
        if r != val or type(r) is not int or s.tell() != 1 + len(b):
            raise Broken('%s(%r) = %r, consumed %d' % (name, b, r, s.tell() - 1))


def check_uread(data):
    read_uint(data[:8], int.from_bytes(data[:8], 'big'))


def check_ubad(val):
    for f in (encoding.encodeUInt, core.UIntegerElement.encodePayload):
        try:
            r = f(val)
        except TypeError:
            continue
        raise Broken('encodeUInt(%r) = %r instead of TypeError' % (val, r))


def dir_uint():
    vs = {max(0, 256 ** n + d) for n in range(0, 10) for d in (-2, -1, 0, 1)} | {2 ** 63, 2 ** 63 - 1, 0x80, 0x7f, 0x8000, 0x100, 10 ** 30}
    return [dict(val=v, length=n) for v in sorted(vs) for n in [None] + list(range(0, 12))] + [dict(val=-v, length=n) for v in (1, 2, 255, 2 ** 64) for n in (None, 1, 8)]


def gen_uint(rng):
    while True:
        v = rng.getrandbits(rng.randint(1, 66))
        if rng.random() < .3:
            v = v & ~0xff
        yield dict(val=-v if rng.random() < .05 else v, length=rng.choice([None, None] + list(range(0, 10))))


def gen_data(rng):
    while True:
        yield dict(data=bytes(rng.choice((0, 255, 128, 127, rng.randint(0, 255))) for _ in range(rng.randint(0, 8))))


PROPERTY = Property('C03', [
    leaf('encodeUInt', 'encoding.encodeUInt', val_setup(), kind='uint'),
    leaf('encodeUInt, not a number', 'encoding.encodeUInt', bad_setup),
    leaf('UIntegerElement.encodePayload', 'core.UIntegerElement.encodePayload', val_setup(), ['encodeUInt'], kind='uint',
         spec=spec_encodeUInt),
    leaf('readUInt', 'decoding.readUInt', lambda c: dict(size=c.fresh('size', 0, 8)), reader=True, kind='read',
         conv=lambda i: dict(data=i['data'][:i['size']])),
    leaf('UIntegerElement.parse', 'core.UIntegerElement.parse', lambda c: dict(size=c.fresh('size', 0, 8)), ['readUInt'], reader=True,
         spec=spec_readUInt, kind='read', conv=lambda i: dict(data=i['data'][:i['size']])),
    Proof('round trip (lemma over the contracts)', roundtrip(lambda: encoding.encodeUInt, lambda: decoding.readUInt, 0, 2 ** 64 - 1,
                                                             'encodeUInt', 'readUInt', ufit), kind='uint',
          covers=['refused', 'read back']),
], [
    Kind('uint', check_uint, gen_uint, dir_uint, n=3000),
    Kind('read', check_uread, gen_data, [dict(data=bytes([b] * n)) for b in (0, 1, 127, 128, 255) for n in range(9)], n=2000),
    Kind('bad', check_ubad, None, [dict(val=v) for v in (None, 'x', '12', b'1', [1], (1,), {}, object, 1j)]),
], assumptions=['payload widths 0 to 8 when reading (what EBML allows)'])

from .base import *
from .leafspec import *
import io


def size_setup(c):
    v = c.fresh('val', 0, MAXSIZE)
    ln = c.case('length', lambda: None, lambda: c.fresh('length', 1, 8))
    return dict(val=v, length=ln)


def enc_spec(c, val, length=None):
    return spec_encodeSize(c, val, length)


def roundtrip(c):
    """Lemma over the two contracts: reading what was written."""
    ip = Interp(c)
    use(c, 'encodeSize', 'readElementSize')
    a = size_setup(c)
    c.inputs.update(a)
    got = outcome(lambda: ip.call(encoding.encodeSize, [a['val'], a['length']]))
    if got[0] == 'exc':
        c.prove(isinstance(got[1], ValueError), 'only ValueError')
        c.prove(mkb(ze(a['val']) > 2 ** (7 * c.concretize(a['length'], 9)) - 2), 'refused only if it does not fit')
        c.cover('refused')
        return
    r = rope(got[1])
    n = r.size()
    if a['length'] is not None:
        c.prove(mkb(ze(n) == ze(a['length'])), 'exactly the requested length')
    else:
        c.prove(And(a['val'] <= 2 ** (7 * n) - 2, n == 1 or a['val'] > 2 ** (7 * (n - 1)) - 2), 'shortest')
    p = c.fresh('pos', 0)
    pre = opaque_bytes('before')
    c.assume(ze(pre.n) == p.e)
    s = SStream(SRope('bytes', pre.segs + r.segs + opaque_bytes('after').segs), p)
    back = outcome(lambda: ip.call(decoding.readElementSize, [s]))
    c.prove(back[0] == 'ok', 'readable')
    if back[0] == 'ok':
        same_value(c, 'same size', back[1], (a['val'], n))
    c.prove(mkb(ze(s.pos) == p.e + n), 'consumed entirely')
    c.cover('read back')


# ---------------------------------------------------------------- concrete

def ref_len(v):
    for n in range(1, 9):
        if v <= 2 ** (7 * n) - 2:
            return n


def check_size(val, length=None):
    if length is not None and not 1 <= length <= 8:
        return
    if not 0 <= val <= MAXSIZE:
        return
    try:
        b = encoding.encodeSize(val, length) if length is not None else encoding.encodeSize(val)
    except ValueError:
        if length is not None and val > 2 ** (7 * length) - 2:
            return
        raise Broken('encodeSize(%d, %r) raised ValueError though it fits' % (val, length))
    n = ref_len(val) if length is None else length
    if val > 2 ** (7 * n) - 2:
        raise Broken('encodeSize(%d, %r) = %r instead of ValueError' % (val, length, b))
    want = (val + 2 ** (7 * n)).to_bytes(n, 'big')
    if b != want:
        raise Broken('encodeSize(%d, %r) = %r, expected %r' % (val, length, b, want))
    s = io.BytesIO(b'??' + b + b'rest')
    s.seek(2)
    r = decoding.readElementSize(s)
    if r != (val, n) or s.tell() != 2 + n:
        raise Broken('readElementSize of %r: %r at %d' % (b, r, s.tell() - 2))
    if length is None:
        if encoding.getLength(val) != n:
            raise Broken('getLength(%d) = %r' % (val, encoding.getLength(val)))
        if encoding.encodeSize(val, -1) != want:
            raise Broken('encodeSize(%d, -1)' % val)


def check_read(data):
    if not data or data[0] == 0:
        return
    n = 9 - data[0].bit_length()
    if len(data) < n:
        return
    v = int.from_bytes(data[:n], 'big') - 2 ** (7 * n)
    want = (None if v == 2 ** (7 * n) - 1 else v, n)
    s = io.BytesIO(data)
    r = decoding.readElementSize(s)
    if r != want or s.tell() != n:
        raise Broken('readElementSize(%r) = %r, expected %r (consumed %d)' % (data, r, want, s.tell()))
    if decoding.decodeIntLength(data[0]) != (n, data[0] - 2 ** (8 - n)):
        raise Broken('decodeIntLength(%d)' % data[0])


EDGES = sorted({max(0, min(MAXSIZE, b + d)) for n in range(0, 9) for b in (2 ** (7 * n), 2 ** (8 * n), 2 ** (7 * n - 1) if n else 0)
                for d in range(-3, 4)})


def dir_size():
    return [dict(val=v, length=n) for v in EDGES for n in [None] + list(range(1, 9))]


def gen_size(rng):
    while True:
        yield dict(val=rng.getrandbits(rng.randint(1, 56)) % (MAXSIZE + 1), length=rng.choice([None] + list(range(1, 9))))


def dir_read():
    out = [dict(data=bytes([b]) + f * 9) for b in range(1, 256) for f in (b'\xff', b'\0', b'\x80', b'\x7f')]
    for n in range(1, 9):
        for k in range(1, n):
            d = bytearray((2 ** (7 * n + 1) - 1).to_bytes(n, 'big'))
            d[k] ^= 1 << (k % 8)
            out.append(dict(data=bytes(d) + b'xyz'))
    return out


def gen_read(rng):
    while True:
        yield dict(data=bytes([rng.randint(1, 255)]) + bytes(rng.choice((0, 255, rng.randint(0, 255))) for _ in range(9)))


def conv_read(inp):
    return dict(data=inp['data'])


PROPERTY = Property('C01', [
    leaf('getLength', 'encoding.getLength', lambda c: dict(val=c.fresh('val', 0, MAXSIZE)), kind='size'),
    leaf('encodeSize', 'encoding.encodeSize', size_setup, ['getLength', 'encodeUInt'], kind='size'),
    leaf('encodeSize, length -1', 'encoding.encodeSize',
         lambda c: dict(val=c.fresh('val', 0, MAXSIZE), length=-1), ['getLength', 'encodeUInt'], kind='size',
         conv=lambda i: dict(val=i['val'])),
    leaf('encodeSize, unknown size, shortest form', 'encoding.encodeSize', lambda c: dict(val=None, length=c.case('length', None, -1, 1)),
         ['getLength', 'encodeUInt'], spec=lambda c, val, length=None: b'\xff'),
    leaf('decodeIntLength', 'decoding.decodeIntLength', lambda c: dict(byte=c.fresh('byte', 1, 255)), kind='read',
         conv=lambda i: dict(data=bytes([i['byte']]) + b'\0' * 8)),
    leaf('readElementSize', 'decoding.readElementSize', lambda c: {}, ['decodeIntLength'], reader=True, kind='read', conv=conv_read,
         covers=['end']),
    Proof('round trip (lemma over the contracts of encodeSize and readElementSize)', roundtrip, kind='size',
          covers=['refused', 'read back']),
], [
    Kind('size', check_size, gen_size, dir_size, n=3000),
    Kind('read', check_read, gen_read, dir_read, n=3000),
], assumptions=['sizes 0 to 2**56-2 and descriptor lengths 1 to 8 (what EBML can express); a stream returns all the bytes asked for that it has'])

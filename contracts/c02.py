from .base import *
from .leafspec import *
import io


def arbitrary_id(c):
    """Any valid ID; returns (id, its length)."""
    n = 1 + c.choose(4, 'id length')
    return c.fresh('eid', 2 ** (7 * n), 2 ** (7 * n + 1) - 1), n


def roundtrip(c):
    ip = Interp(c)
    use(c, 'encodeId', 'readElementID')
    eid, n = arbitrary_id(c)
    c.inputs['eid'] = eid
    r = rope(ip.call(encoding.encodeId, [eid]))
    c.prove_rope(r, be_bytes(c, eid, n), 'its own big-endian bytes')
    p = c.fresh('pos', 0)
    pre = opaque_bytes('before')
    c.assume(ze(pre.n) == p.e)
    s = SStream(SRope('bytes', pre.segs + r.segs + opaque_bytes('after').segs), p)
    back = outcome(lambda: ip.call(decoding.readElementID, [s]))
    same(c, 'same ID and length', back, ('ok', (eid, n)))
    c.prove(mkb(ze(s.pos) == p.e + n), 'consumed exactly')
    c.cover('end')


def malformed(c):
    """First byte below 0x10: IOError, whatever follows."""
    ip = Interp(c)
    use(c, 'decodeIDLength')
    s, _ = stream_pair(c)
    c.assume(ze(s.content.n) > ze(s.pos))
    c.assume(s.content.at(s.pos) < 16)
    got = outcome(lambda: ip.call(decoding.readElementID, [s]))
    same(c, 'rejected', got, ('exc', IOError()))
    c.cover('end')


def badlength(c):
    ip = Interp(c)
    eid, n = arbitrary_id(c)
    ln = c.fresh('length')
    c.assume(z3.Or(ln.e < 1, ln.e > 4, ln.e < n))
    c.inputs.update(eid=eid, length=ln)
    use(c, 'encodeUInt')
    same(c, 'rejected', outcome(lambda: ip.call(encoding.encodeId, [eid, ln])), ('exc', ValueError()))
    c.cover('end')


def check_id(eid, length=None):
    n = 1
    while n < 5 and not 2 ** (7 * n) <= eid < 2 ** (7 * n + 1):
        n += 1
    if n == 5:
        return
    try:
        b = encoding.encodeId(eid) if length is None else encoding.encodeId(eid, length)
    except ValueError:
        if length is not None and (length < n or length > 4):
            return
        raise Broken('encodeId(0x%x, %r) raised ValueError' % (eid, length))
    if length is not None and (length < n or length > 4):
        raise Broken('encodeId(0x%x, %r) = %r instead of ValueError' % (eid, length, b))
    if b != eid.to_bytes(n if length is None else length, 'big'):
        raise Broken('encodeId(0x%x, %r) = %r' % (eid, length, b))
    if length in (None, n):
        s = io.BytesIO(b + b'rest')
        r = decoding.readElementID(s)
        if r != (eid, n) or s.tell() != n:
            raise Broken('readElementID(%r) = %r, consumed %d' % (b, r, s.tell()))


def check_bytes(data):
    if not data:
        return
    n = 9 - data[0].bit_length() if data[0] else 9
    if n > 4:
        try:
            r = decoding.readElementID(io.BytesIO(data))
        except IOError:
            return
        raise Broken('readElementID(%r) = %r instead of IOError' % (data, r))
    if len(data) < n:
        return
    check_id(int.from_bytes(data[:n], 'big'))


def dir_id():
    out = []
    for n in range(1, 5):
        lo, hi = 2 ** (7 * n), 2 ** (7 * n + 1) - 1
        for e in {lo, lo + 1, hi, hi - 1, (lo + hi) // 2, lo | 0x7f if n > 1 else lo + 9}:
            for ln in (None, -1, 0, 1, 2, 3, 4, 5, 8):
                out.append(dict(eid=e, length=ln))
    return out


def gen_id(rng):
    while True:
        n = rng.randint(1, 4)
        yield dict(eid=rng.randrange(2 ** (7 * n), 2 ** (7 * n + 1)), length=rng.choice([None, None, -3, 0, 1, 2, 3, 4, 5, 6]))


def gen_bytes(rng):
    while True:
        yield dict(data=bytes(rng.choice((0, 255, rng.randint(0, 255))) for _ in range(6)))


PROPERTY = Property('C02', [
    leaf('encodeId', 'encoding.encodeId',
         lambda c: dict(eid=arbitrary_id(c)[0], length=c.case('length', None, lambda: c.fresh('length'))), ['encodeUInt'], kind='id'),
    leaf('decodeIDLength', 'decoding.decodeIDLength', lambda c: dict(byte=c.fresh('byte', 0, 255)), ['decodeIntLength'],
         kind='bytes', conv=lambda i: dict(data=bytes([i['byte'], 1, 2, 3, 4]))),
    leaf('readElementID', 'decoding.readElementID', lambda c: {}, ['decodeIDLength'], reader=True, kind='bytes',
         conv=lambda i: dict(data=i['data'])),
    Proof('round trip (lemma over the contracts of encodeId and readElementID)', roundtrip, kind='id', covers=['end']),
    Proof('IDs longer than 4 bytes are rejected', malformed, kind='bytes', conv=lambda i: dict(data=i['data']), covers=['end']),
    Proof('bad explicit lengths are rejected', badlength, kind='id', covers=['end']),
], [
    Kind('id', check_id, gen_id, dir_id, n=2000),
    Kind('bytes', check_bytes, gen_bytes, [dict(data=bytes([b, 1, 2, 3, 4, 5])) for b in range(256)], n=2000),
], assumptions=['a stream returns all the bytes asked for that it has'])

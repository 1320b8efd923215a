from .base import *
from .leafspec import *
import datetime
import io

D = datetime.datetime
EPOCH = D(2001, 1, 1)
US = datetime.timedelta(microseconds=1)
NSLO, NSHI = -2 ** 63, 2 ** 63 - 1


def enc_setup(c):
    return dict(val=SDatetime.arbitrary('val'), length=c.case('length', None, 8, lambda: c.fresh('length')))


def bad_setup(c):
    v = c.case('type', 'text', b'\x01', lambda: opaque_text('txt'), lambda: opaque_bytes('byt'), (1,), other, 3, 1.5, lambda: c.fresh('val'))
    return dict(val=v, length=c.case('length', None, 8))


def roundtrip(c):
    ip = Interp(c)
    use(c, 'encodeDate', 'readDate')
    v = SDatetime.arbitrary('val')
    ln = c.case('length', None, 8)
    c.inputs.update(val=v, length=ln)
    got = outcome(lambda: ip.call(encoding.encodeDate, [v, ln]))
    if got[0] == 'exc':
        ns = v.us * 1000
        c.prove(Not(And(ns >= NSLO, ns <= NSHI)), 'refused only if 64 bits of nanoseconds cannot hold it')
        c.cover('refused')
        return
    r = rope(got[1])
    c.prove(mkb(ze(r.n) == 8), 'exactly 8 bytes')
    pre = opaque_bytes('before')
    s = SStream(SRope('bytes', pre.segs + r.segs + opaque_bytes('after').segs), mki(ze(pre.n)))
    back = outcome(lambda: ip.call(decoding.readDate, [s, 8]))
    same(c, 'reads back the identical date', back, ('ok', v))
    c.prove(mkb(ze(s.pos) == ze(pre.n) + 8), 'consumes exactly the payload')
    c.cover('read back')


# ------------------------------------------------------------------ concrete

def dread(b):
    out = []
    for f in (decoding.readDate, core.DateElement(None, 0, 0, 0).parse):
        s = io.BytesIO(b'\xee' + b + b'\xff\xff')
        s.seek(1)
        r = f(s, len(b))
        if not isinstance(r, D) or s.tell() != 1 + len(b):
            raise Broken('readDate(%r) = %r, consumed %d' % (b, r, s.tell() - 1))
        out.append(r)
    if out[0] != out[1]:
        raise Broken('readDate(%r) differs from DateElement.parse' % b)
    return out[0]


def check_date(val, length=None):
    for name, f in (('encodeDate', encoding.encodeDate), ('DateElement.encodePayload', core.DateElement.encodePayload)):
        ns = (val - EPOCH) // US * 1000
        fits = NSLO <= ns <= NSHI
        try:
            b = f(val, length)
        except ValueError as e:
            if length in (None, 8) and fits:
                raise Broken('%s(%r, %r) raised %r' % (name, val, length, e))
            continue
        except Exception as e:
            if fits or length not in (None, 8):
                raise Broken('%s(%r, %r) raised %r' % (name, val, length, e))
            continue
        if length not in (None, 8) or not fits:
            raise Broken('%s(%r, %r) = %r instead of an error' % (name, val, length, b))
        if b != ns.to_bytes(8, 'big', signed=True):
            raise Broken('%s(%r, %r) = %r' % (name, val, length, b))
        r = dread(bytes(b))
        if r != val:
            raise Broken('%s(%r) reads back as %r' % (name, val, r))


def check_dread(data):
    if len(data) != 8:
        for f in (decoding.readDate, core.DateElement(None, 0, 0, 0).parse):
            try:
                r = f(io.BytesIO(data + bytes(20)), len(data))
            except IOError:
                continue
            raise Broken('readDate of %d bytes = %r instead of IOError' % (len(data), r))
        return
    ns = int.from_bytes(data, 'big', signed=True)
    us, days = ns // 1000, 0
    days, us = us // (86400 * 10 ** 6), us % (86400 * 10 ** 6)
    want = EPOCH + datetime.timedelta(days=days) + datetime.timedelta(seconds=us // 10 ** 6) + datetime.timedelta(microseconds=us % 10 ** 6)
    r = dread(data)
    if r != want or r.tzinfo is not None:
        raise Broken('readDate(%r) = %r, expected %r' % (data, r, want))


def check_dbad(val):
    for f in (encoding.encodeDate, core.DateElement.encodePayload):
        try:
            r = f(val)
        except TypeError:
            continue
        raise Broken('encodeDate(%r) = %r instead of TypeError' % (val, r))


def dates():
    out = [EPOCH, EPOCH + US, EPOCH - US, EPOCH - datetime.timedelta(1), EPOCH - datetime.timedelta(days=1, microseconds=1), D.min, D.max,
           D(1970, 1, 1), D(2000, 12, 31, 23, 59, 59, 999999), D(2024, 2, 29, 12, 34, 56, 789012), D(1900, 1, 1, 0, 0, 0, 1),
           D(2001, 1, 1, 0, 0, 1), D(2000, 12, 31, 23, 59, 59), EPOCH + datetime.timedelta(microseconds=NSHI // 1000),
           EPOCH + datetime.timedelta(microseconds=NSHI // 1000 + 1), EPOCH + datetime.timedelta(microseconds=-(-NSLO // 1000)),
           EPOCH + datetime.timedelta(microseconds=-(-NSLO // 1000) - 1), D(1709, 1, 1), D(2292, 1, 1), D(2300, 1, 1), D(1600, 5, 5)]
    return out


def gen_date(rng):
    while True:
        k = rng.random()
        us = rng.randint(-9223372036854775, 9223372036854775) if k < .6 else rng.randint(-10 ** 9, 10 ** 9) if k < .9 else \
            rng.randint((D.min - EPOCH) // US, (D.max - EPOCH) // US)
        yield dict(val=EPOCH + datetime.timedelta(microseconds=us), length=rng.choice((None, 8, None, 8, rng.randint(-1, 12))))


def gen_dread(rng):
    while True:
        n = rng.choice((8, 8, 8, 8, 8, rng.randint(0, 14)))
        v = rng.getrandbits(64) >> rng.randint(0, 60)
        if rng.random() < .5:
            v = -v % 2 ** 64
        yield dict(data=v.to_bytes(8, 'big') if n == 8 else bytes(n))


PROPERTY = Property('C06', [
    leaf('encodeDate', 'encoding.encodeDate', enc_setup, ['encodeInt'], kind='date'),
    leaf('encodeDate, wrong type', 'encoding.encodeDate', bad_setup, ['encodeInt']),
    leaf('DateElement.encodePayload', 'core.DateElement.encodePayload', enc_setup, ['encodeDate'], kind='date', spec=spec_encodeDate),
    leaf('readDate', 'decoding.readDate', lambda c: dict(size=c.fresh('size', 0)), reader=True, kind='read',
         conv=lambda i: dict(data=(i['data'] + bytes(40))[:min(i['size'], 40)])),
    leaf('DateElement.parse', 'core.DateElement.parse', lambda c: dict(size=c.fresh('size', 0)), ['readDate'], reader=True,
         spec=spec_readDate, kind='read', conv=lambda i: dict(data=(i['data'] + bytes(40))[:min(i['size'], 40)])),
    Proof('round trip (lemma over the contracts)', roundtrip, kind='date', covers=['refused', 'read back']),
], [
    Kind('date', check_date, gen_date, [dict(val=d, length=n) for d in dates() for n in (None, 8, 0, 4, 7, 9, 16)], n=5000),
    Kind('read', check_dread, gen_dread, [dict(data=v.to_bytes(8, 'big', signed=True)) for v in (0, 1, -1, 999, 1000, 1001, -999, -1000, -1001, NSLO, NSHI,
                                                                                               86400 * 10 ** 9, -86400 * 10 ** 9 - 1)] +
         [dict(data=bytes(n)) for n in range(0, 18)], n=4000),
    Kind('bad', check_dbad, None, [dict(val=v) for v in ('x', b'1', 1, 1.5, [1], (1,), {}, datetime.date(2020, 1, 1), 0, '', False)]),
], assumptions=['naive datetimes (an aware one raises TypeError from datetime itself)'],
    trusted=["datetime and timedelta arithmetic, as microsecond counts (pyvc.values.SDatetime)"])

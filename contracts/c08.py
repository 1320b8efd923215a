from .base import *
from .leafspec import *
from .c07 import rand_text, fitted
import io


def any_len(c):
    return c.case('length', None, lambda: c.fresh('length', 0))


def bin_setup(c):
    return dict(val=c.case('type', None, lambda: V.opaque_utf8('val'), lambda: opaque_bytes('val'), lambda: SByteArray(opaque_bytes('val'))),
                length=any_len(c))


def bad_setup(c):
    v = c.case('type', (1,), other, 3, 1.5, lambda: c.fresh('val'), lambda: SDatetime.arbitrary('date'),
               lambda: SFloat(c.fresh('bits', 0, 2 ** 64 - 1)))
    return dict(val=v, length=any_len(c))


def payload_setup(c):
    a = bin_setup(c)
    return dict(data=a['val'], length=a['length'])


def payload_spec(c, data, length=None):
    return spec_encodeBinary(c, data, length)


def void_setup(c):
    return dict(data=c.case('type', None, b'abc', 'text', 5, lambda: opaque_bytes('val'), other), length=any_len(c))


def void_spec(c, data, length=0):
    return zeros(0 if length is None else length, 0xff)


def bin_parse_spec(c, stream, size):
    return stream.m_read(size)


def fresh_object(c, got, args):
    """The parsed value is a new object."""
    if got[0] == 'ok':
        c.prove(isinstance(got[1], (SByteArray, bytearray)), 'a bytearray')


def roundtrip(c):
    ip = Interp(c)
    use(c, 'encodeBinary')
    d = opaque_bytes('val')
    ln = any_len(c)
    c.inputs.update(val=d, length=ln)
    got = outcome(lambda: ip.call(encoding.encodeBinary, [d, ln]))
    if got[0] == 'exc':
        c.prove(isinstance(got[1], ValueError), 'only ValueError')
        c.prove(False if ln is None else mkb(ze(d.n) > ze(ln)), 'refused only if too long')
        c.cover('refused')
        return
    r = rope(got[1])
    pre = opaque_bytes('before')
    s = SStream(SRope('bytes', pre.segs + r.segs + opaque_bytes('after').segs), mki(ze(pre.n)))
    el = SObj(core.BinaryElement, {}, 'element')
    back = ip.call(ip.getattr(el, 'parse'), [s, r.n])
    c.prove_rope(back, cat(d, zeros(mki(ze(r.n) - ze(d.n)))), 'reads back the data and its padding')
    c.prove(mkb(ze(s.pos) == ze(pre.n) + ze(r.n)), 'consumes exactly the payload')
    c.cover('read back')


# ------------------------------------------------------------------ concrete

def check_bin(val, length=None):
    if length is not None and length < 0:
        return
    raw = b'' if val is None else val.encode('utf8') if isinstance(val, str) else bytes(val)
    for name, f in (('encodeBinary', encoding.encodeBinary), ('BinaryElement.encodePayload', core.BinaryElement.encodePayload),
                    ('Element.encodePayload', core.Element.encodePayload)):
        try:
            b = f(val, length)
        except ValueError as e:
            if length is None or length >= len(raw):
                raise Broken('%s(%r, %r) raised %r' % (name, val, length, e))
            continue
        if length is not None and length < len(raw):
            raise Broken('%s(%r, %r) = %r instead of ValueError' % (name, val, length, b))
        if bytes(b) != fitted(raw, length):
            raise Broken('%s(%r, %r) = %r' % (name, val, length, b))
        read_bin(bytes(b))


def read_bin(b):
    for cls in (core.BinaryElement, core.Element, core.UnknownElement):
        s = io.BytesIO(b'\xee' + b + b'AB')
        s.seek(1)
        r = cls(None, 0, 0, 0).parse(s, len(b))
        if bytes(r) != b or s.tell() != 1 + len(b):
            raise Broken('%s.parse(%r) = %r' % (cls.__name__, b, r))
        s2 = io.BytesIO(b'xy' + b + b'AB')
        e = cls(s2, 0, len(b), 2)
        if bytes(e.value) != b or bytes(e.value) != b:
            raise Broken('%s.value of %r = %r' % (cls.__name__, b, e.value))


def check_void(val, length=None):
    if length is not None and length < 0:
        return
    b = core.VoidElement.encodePayload(val, length)
    if bytes(b) != b'\xff' * (length or 0):
        raise Broken('VoidElement.encodePayload(%r, %r) = %r' % (val, length, b))
    b = core.VoidElement.encodePayload(val)
    if bytes(b) != b'':
        raise Broken('VoidElement.encodePayload(%r) = %r' % (val, b))


def check_bbad(val):
    for f in (encoding.encodeBinary, core.BinaryElement.encodePayload):
        try:
            r = f(val)
        except TypeError:
            continue
        raise Broken('encodeBinary(%r) = %r instead of TypeError' % (val, r))


def dir_bin():
    vals = [None, b'', b'\0', b'a', b'abc', b'\0\0', b'trail\0', bytes(range(256)), 'text', 'caf\xe9', '', '\u20ac\0', bytearray(b'xyz'), b'z' * 300,
            b'\x80' * 127, b'q' * 128]
    return [dict(val=v, length=n) for v in vals for n in (None, 0, 1, 2, 3, 4, 5, 6, 127, 128, 256, 300)]


def gen_bin(rng):
    while True:
        v = rng.choice((lambda: rng.randbytes(rng.randint(0, 20)), lambda: bytearray(rng.randbytes(rng.randint(0, 20))), lambda: rand_text(rng)))()
        n = len(v.encode('utf8')) if isinstance(v, str) else len(v)
        yield dict(val=v, length=rng.choice((None, n, n + 1, max(0, n - 1), rng.randint(0, 30))))


def gen_void(rng):
    while True:
        yield dict(val=rng.choice((None, b'abc', 'text', 5)), length=rng.choice((None, rng.randint(0, 300))))


sizes = lambda c: dict(size=c.fresh('size', 0))     # noqa: E731
read_conv = lambda i: dict(val=(i['data'] + bytes(64))[:min(i['size'], 64)])     # noqa: E731

PROPERTY = Property('C08', [
    leaf('encodeBinary', 'encoding.encodeBinary', bin_setup, kind='bin'),
    leaf('encodeBinary, wrong type', 'encoding.encodeBinary', bad_setup),
    leaf('BinaryElement.encodePayload', 'core.BinaryElement.encodePayload', payload_setup, ['encodeBinary'], kind='bin', spec=payload_spec,
         conv=lambda i: dict(val=i['data'], length=i['length'])),
    leaf('UnknownElement.encodePayload', 'core.UnknownElement.encodePayload', payload_setup, ['encodeBinary'], kind='bin', spec=payload_spec,
         conv=lambda i: dict(val=i['data'], length=i['length'])),
    leaf('VoidElement.encodePayload', 'core.VoidElement.encodePayload', void_setup, kind='void', spec=void_spec,
         conv=lambda i: dict(val=i['data'], length=i['length'])),
    leaf('BinaryElement.parse', 'core.BinaryElement.parse', sizes, reader=True, spec=bin_parse_spec, extra=fresh_object, kind='bin', conv=read_conv),
    leaf('UnknownElement.parse', 'core.UnknownElement.parse', sizes, reader=True, spec=bin_parse_spec, extra=fresh_object, kind='bin', conv=read_conv),
    Proof('round trip (lemma over the contracts)', roundtrip, kind='bin', covers=['refused', 'read back']),
], [
    Kind('bin', check_bin, gen_bin, dir_bin, n=3000),
    Kind('void', check_void, gen_void, [dict(val=v, length=n) for v in (None, b'abc', 5) for n in (None, 0, 1, 2, 127, 128, 1000)], n=500),
    Kind('bad', check_bbad, None, [dict(val=v) for v in (1, 1.5, [1], (1,), {}, [], True, [b'x'])]),
])

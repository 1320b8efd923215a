from .base import *
from .leafspec import *
import io


def any_len(c):
    return c.case('length', None, lambda: c.fresh('length', 0))


def str_setup(c):
    return dict(val=c.case('type', lambda: opaque_text('val'), lambda: opaque_bytes('val'), lambda: SByteArray(opaque_bytes('val'))),
                length=any_len(c))


def uni_setup(c):
    return dict(val=c.case('type', lambda: V.opaque_utf8('val'), lambda: opaque_bytes('val'), lambda: SByteArray(opaque_bytes('val'))),
                length=any_len(c))


def bad_setup(c):
    v = c.case('type', None, (1,), other, 3, 1.5, lambda: c.fresh('val'), lambda: SDatetime.arbitrary('date'),
               lambda: SFloat(c.fresh('bits', 0, 2 ** 64 - 1)))
    return dict(val=v, length=c.case('length', None, lambda: c.fresh('length', 0)))


def printable(e):
    return z3.And(e >= 32, e < 127)


def roundtrip_ascii(c):
    """Encoding, padding and reading back a text."""
    ip = Interp(c)
    use(c, 'encodeString', 'readString')
    t = opaque_text('val')
    c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < ze(t.n)), z3.And(t.at(i) > 0, t.at(i) < 0x110000)))
    ln = any_len(c)
    c.inputs.update(val=t, length=ln)
    if ln is not None:
        c.assume(ze(ln) >= ze(t.n))          # not cut
    c.skolem(t.n)
    r = rope(ip.call(encoding.encodeString, [t, ln]))
    c.prove(mkb(ze(r.n) == ze(t.n if ln is None else ln)), 'length of the payload')
    pre = opaque_bytes('before')
    s = SStream(SRope('bytes', pre.segs + r.segs + opaque_bytes('after').segs), mki(ze(pre.n)))
    back = ip.call(decoding.readString, [s, r.n])
    c.prove_rope(back, t.map(lambda e: z3.If(printable(e), e, z3.IntVal(63)), 'str'), 'reads back the text, "?" for what is not printable ASCII')
    c.prove(mkb(ze(s.pos) == ze(pre.n) + ze(r.n)), 'consumes exactly the payload')
    c.cover('read back')


def roundtrip_utf8(c):
    ip = Interp(c)
    use(c, 'encodeUnicode', 'readUnicode')
    t = V.opaque_utf8('val', nonul=True)
    ln = any_len(c)
    c.inputs.update(val=t, length=ln)
    if ln is not None:
        c.assume(ze(ln) >= ze(t.utf8.n))
    c.skolem(t.utf8.n)
    r = rope(ip.call(encoding.encodeUnicode, [t, ln]))
    c.prove(mkb(ze(r.n) == ze(t.utf8.n if ln is None else ln)), 'length of the payload')
    pre = opaque_bytes('before')
    s = SStream(SRope('bytes', pre.segs + r.segs + opaque_bytes('after').segs), mki(ze(pre.n)))
    back = outcome(lambda: ip.call(decoding.readUnicode, [s, r.n]))
    if back[0] != 'ok':
        c.prove(False, 'readable')
        return
    b = back[1]
    if isinstance(b, str):
        b = SText8(rope(b.encode('utf8')))
    elif isinstance(b, SRope):
        b = SText8(SRope('bytes', b.segs))
    c.prove_rope(b.utf8, t.utf8, 'reads back the same text')
    c.prove(mkb(ze(s.pos) == ze(pre.n) + ze(r.n)), 'consumes exactly the payload')
    c.cover('read back')


# ------------------------------------------------------------------ concrete

def want_ascii(val):
    if isinstance(val, str):
        return bytes(ord(ch) if 32 <= ord(ch) < 127 else 63 for ch in val)
    return bytes(b if 32 <= b < 127 else 63 for b in val)


def fitted(d, length):
    return d if length is None else d[:length] + bytes(max(0, length - len(d)))


def check_str(val, length=None):
    if length is not None and length < 0:
        return
    for name, f in (('encodeString', encoding.encodeString), ('StringElement.encodePayload', core.StringElement.encodePayload)):
        b = f(val, length)
        want = fitted(want_ascii(val), length)
        if bytes(b) != want:
            raise Broken('%s(%r, %r) = %r, expected %r' % (name, val, length, b, want))
    read_str(want, want.split(b'\0')[0].decode('ascii'))


def read_str(b, want):
    for name, f in (('readString', decoding.readString), ('StringElement.parse', core.StringElement(None, 0, 0, 0).parse)):
        s = io.BytesIO(b'\xee' + b + b'AB')
        s.seek(1)
        r = f(s, len(b))
        if r != want or s.tell() != 1 + len(b):
            raise Broken('%s(%r) = %r, consumed %d' % (name, b, r, s.tell() - 1))


def check_uni(val, length=None):
    if length is not None and length < 0:
        return
    raw = val.encode('utf-8') if isinstance(val, str) else bytes(val)
    want = fitted(raw, length)
    for name, f in (('encodeUnicode', encoding.encodeUnicode), ('UnicodeElement.encodePayload', core.UnicodeElement.encodePayload)):
        b = f(val, length)
        if bytes(b) != want:
            raise Broken('%s(%r, %r) = %r, expected %r' % (name, val, length, b, want))
    if length is None or length >= len(raw):
        try:
            t = raw.split(b'\0')[0].decode('utf8')
        except UnicodeDecodeError:
            return
        read_uni(want, t)


def read_uni(b, want):
    for name, f in (('readUnicode', decoding.readUnicode), ('UnicodeElement.parse', core.UnicodeElement(None, 0, 0, 0).parse)):
        s = io.BytesIO(b'\xee' + b + b'AB')
        s.seek(1)
        r = f(s, len(b))
        if r != want or s.tell() != 1 + len(b):
            raise Broken('%s(%r) = %r, consumed %d' % (name, b, r, s.tell() - 1))


def check_sread(data):
    read_str(data, ''.join(chr(b) if b < 128 else '\ufffd' for b in data.split(b'\0')[0]))
    try:
        t = data.split(b'\0')[0].decode('utf8')
    except UnicodeDecodeError:
        return
    read_uni(data, t)


def check_tbad(val):
    for f in (encoding.encodeString, encoding.encodeUnicode, core.StringElement.encodePayload, core.UnicodeElement.encodePayload):
        try:
            r = f(val)
        except TypeError:
            continue
        raise Broken('%s(%r) = %r instead of TypeError' % (f.__qualname__, val, r))


TEXTS = ['', 'a', ' ', '~', '\x7f', '\x1f', 'abc', 'a\0b', '\0', '\0\0x', 'hello, world', 'caf\xe9', '\u20ac', '\U0001f600', '\x80', '\xff', 'a\tb\nc',
         '?', 'x' * 127, 'x' * 300, '\u0100\u0200', 'tail ', ' lead', 'e\u0301', '\ufeffbom', '\ud7ff\ue000', '\U0010ffff', '\u0800', '\u07ff']


def dir_text():
    out = []
    for t in TEXTS:
        for v in (t, t.encode('utf8'), bytearray(t.encode('utf8'))):
            out += [dict(val=v, length=n) for n in (None, 0, 1, 2, 3, 4, 5, 8, len(t), len(t) + 1, 400)]
    out.append(dict(val=bytes(range(256)), length=None))
    out.append(dict(val=''.join(map(chr, range(300))), length=None))
    return out


def rand_text(rng):
    n = rng.randint(0, 12)
    return ''.join(chr(rng.choice((rng.randint(32, 126), rng.randint(0, 255), rng.randint(0, 0xd7ff), rng.randint(0x10000, 0x10ffff), 0x7f)))
                   for _ in range(n))


def gen_text(rng):
    while True:
        t = rand_text(rng)
        v = rng.choice((t, t, t.encode('utf8'), bytearray(rng.randbytes(rng.randint(0, 9)))))
        yield dict(val=v, length=rng.choice((None, rng.randint(0, 20), len(v))))


def gen_sread(rng):
    while True:
        k = rng.random()
        d = rand_text(rng).encode('utf8') if k < .5 else bytes(rng.randint(0, 127 if k < .8 else 255) for _ in range(rng.randint(0, 9)))
        yield dict(data=d + bytes(rng.choice((0, 0, 1, 5))))


def conv_read(i):
    n = min(i['size'], 64)
    return dict(data=(i['data'] + bytes(64))[:n])


sizes = lambda c: dict(size=c.fresh('size', 0))     # noqa: E731

PROPERTY = Property('C07', [
    leaf('encodeString', 'encoding.encodeString', str_setup, ['encodeBinary'], kind='str'),
    leaf('encodeString, wrong type', 'encoding.encodeString', bad_setup, ['encodeBinary']),
    leaf('StringElement.encodePayload', 'core.StringElement.encodePayload', str_setup, ['encodeString'], kind='str', spec=spec_encodeString),
    leaf('encodeUnicode', 'encoding.encodeUnicode', uni_setup, ['encodeBinary'], kind='uni'),
    leaf('encodeUnicode, wrong type', 'encoding.encodeUnicode', bad_setup, ['encodeBinary']),
    leaf('UnicodeElement.encodePayload', 'core.UnicodeElement.encodePayload', uni_setup, ['encodeUnicode'], kind='uni', spec=spec_encodeUnicode),
    leaf('readString', 'decoding.readString', sizes, reader=True, kind='read', conv=conv_read),
    leaf('StringElement.parse', 'core.StringElement.parse', sizes, ['readString'], reader=True, spec=spec_readString, kind='read', conv=conv_read),
    leaf('readUnicode', 'decoding.readUnicode', sizes, reader=True, kind='read', conv=conv_read),
    leaf('UnicodeElement.parse', 'core.UnicodeElement.parse', sizes, ['readUnicode'], reader=True, spec=spec_readUnicode, kind='read',
         conv=conv_read),
    Proof('ASCII round trip (lemma over the contracts)', roundtrip_ascii, kind='str', covers=['read back']),
    Proof('UTF-8 round trip (lemma over the contracts)', roundtrip_utf8, kind='uni', covers=['read back']),
], [
    Kind('str', check_str, gen_text, dir_text, n=3000),
    Kind('uni', check_uni, gen_text, dir_text, n=3000),
    Kind('read', check_sread, gen_sread, [dict(data=t.encode('utf8') + bytes(n)) for t in TEXTS for n in (0, 1, 3)] +
         [dict(data=bytes(range(1, 128))), dict(data=bytes(range(1, 256))), dict(data=b'\xff'), dict(data=b'a\xc3\xa4b\0\xff')], n=3000),
    Kind('bad', check_tbad, None, [dict(val=v) for v in (None, 1, 1.5, [1], (1,), {}, [], True)]),
], assumptions=['payloads that were not cut, when reading back'],
    trusted=["CPython's UTF-8 codec: encoding and decoding are inverse on valid text"])

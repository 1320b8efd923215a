"""Reference schemas, trees, encoder and parser, written from the EBML format.

Used by the executable contracts only (bounded cross-checks, replays)."""
import datetime
import functools
import io
import math
import struct
import sys

from pyvc.prop import Broken
import ebmlite.core as core

TAG = dict(i='IntegerElement', u='UIntegerElement', f='FloatElement', s='StringElement', t='UnicodeElement',
           d='DateElement', b='BinaryElement', m='MasterElement')
EPOCH = datetime.datetime(2001, 1, 1)


class Spec:
    def __init__(self, kind, id, name, attrs):
        self.kind, self.id, self.name, self.attrs = kind, id, name, attrs
        self.multiple = bool(attrs.get('multiple'))
        self.length = attrs.get('length')
        self.glob = bool(attrs.get('global'))
        self.precache = attrs.get('precache', kind in 'iufd')
        self.children = []          # ids
        if name == 'Void':
            self.kind = 'v'

    def __repr__(self):
        return '<%s %s 0x%X>' % (self.kind, self.name, self.id)


class World:
    """A schema given as nested tuples (kind, id, name, attrs, children)."""
    def __init__(self, desc):
        self.desc = desc
        self.byid, self.byname, self.roots, self.globals = {}, {}, [], set()
        self.infos = {}

        def xml(items, parent, ind):
            out = []
            for kind, id, name, attrs, ch in items:
                if id not in self.byid:
                    sp = Spec(kind, id, name, attrs)
                    self.byid[id] = self.byname[name] = sp
                    if sp.glob:
                        self.globals.add(id)
                sp = self.byid[id]
                (parent.children if parent is not None else self.roots).append(id)
                at = ''.join(' %s="%s"' % (k, esc(str(v))) for k, v in attrs.items())
                out.append('%s<%s name="%s" id="0x%X"%s>\n%s%s</%s>\n' % (
                    ind, TAG[kind], name, id, at, xml(ch, sp, ind + ' '), ind, TAG[kind]))
            return ''.join(out)
        self.xml = '<?xml version="1.0"?>\n<Schema>\n' + xml(desc, None, ' ') + '</Schema>\n'
        self.schema = core.Schema(io.StringIO(self.xml), name='world')

    def cls(self, name):
        return self.schema.elementsByName[name]

    def masters(self):
        return [s for s in self.byid.values() if s.kind == 'm']

    def leaves(self):
        return [s for s in self.byid.values() if s.kind not in 'mv']


def esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('"', '&quot;')


@functools.lru_cache(300)
def _world(key):
    return World(eval(key))      # repr of our own tuples


def world(desc):
    return _world(repr(desc))


HEADER = ('m', 0x1A45DFA3, 'EBML', {}, (
    ('u', 0x4286, 'EBMLVersion', {'default': 1}, ()), ('u', 0x42F7, 'EBMLReadVersion', {'default': 1}, ()),
    ('u', 0x42F2, 'EBMLMaxIDLength', {'default': 4}, ()), ('u', 0x42F3, 'EBMLMaxSizeLength', {'default': 8}, ()),
    ('s', 0x4282, 'DocType', {'default': 'world'}, ()), ('u', 0x4287, 'DocTypeVersion', {'default': 3}, ()),
    ('u', 0x4285, 'DocTypeReadVersion', {'default': 2}, ())))
VOID = ('b', 0xEC, 'Void', {'global': 1, 'multiple': 1}, ())
CRC = ('b', 0xBF, 'CRC-32', {'global': 1, 'multiple': 1}, ())

LEAVES = (('i', 0x81, 'Int', {'multiple': 1}, ()), ('u', 0x4082, 'UInt', {'multiple': 1}, ()), ('f', 0x83, 'Flt', {'multiple': 1}, ()),
          ('s', 0x84, 'Str', {'multiple': 1}, ()), ('t', 0x204085, 'Uni', {'multiple': 1}, ()), ('d', 0x86, 'Date', {'multiple': 1}, ()),
          ('b', 0x87, 'Bin', {'multiple': 1}, ()), ('b', 0x10000088, 'Bin8', {'length': 8, 'multiple': 1}, ()),
          ('u', 0x89, 'U4', {'length': 4}, ()), ('i', 0x8A, 'I1', {'length': 1}, ()), ('t', 0x8B, 'Lazy', {'precache': 1}, ()),
          ('u', 0x8C, 'ULazy', {'precache': 0}, ()))
BASIC = (HEADER, VOID, CRC,
         ('m', 0x18538067, 'Root', {'multiple': 1}, LEAVES + (
             ('m', 0x90, 'Sub', {'multiple': 1}, LEAVES[:7] + (('m', 0x4091, 'Deep', {'multiple': 1}, LEAVES[:6]),)),
             ('m', 0x92, 'Pre', {'precache': 1, 'multiple': 1}, LEAVES[:5]),
             ('m', 0x93, 'Bare', {'multiple': 1}, ()), ('m', 0x94, 'Single', {}, LEAVES[:3]))),
         ('m', 0x95, 'Root2', {'multiple': 1}, LEAVES[3:8] + (('m', 0x96, 'Inner', {'multiple': 1}, LEAVES[:2]),)),
         ('u', 0x97, 'Top', {}, ()), ('t', 0x98, 'TopText', {'multiple': 1}, ()))


NOHEAD = BASIC[3:4]
# Padding that is valid in one place only, and no other element is valid everywhere
LOCAL = (HEADER, BASIC[3][:4] + (BASIC[3][4] + (VOID[:3] + ({'multiple': 1}, ()),),)) + BASIC[4:]
LOCAL2 = BASIC[3:] + (VOID[:3] + ({'multiple': 1}, ()),)
TINY = (VOID, ('m', 0x81, 'M', {'multiple': 1}, (('u', 0x82, 'U', {'multiple': 1}, ()), ('m', 0x83, 'N', {'multiple': 1}, (('u', 0x82, 'U', {'multiple': 1}, ()), ('b', 0x84, 'B', {'multiple': 1}, ()))))),
        ('b', 0x84, 'B', {'multiple': 1}, ()))


def rand_desc(rng):
    """A random schema."""
    used, names = set(), [0]

    def newid():
        while True:
            n = rng.choice((1, 1, 2, 2, 3, 4))
            lo, hi = {1: (0x81, 0xFE), 2: (0x407F, 0x7FFE), 3: (0x203FFF, 0x3FFFFE), 4: (0x101FFFFF, 0x1FFFFFFE)}[n]
            x = rng.randint(lo, hi)
            if x not in used and x not in (0xEC, 0xBF, 0x1A45DFA3) and not 0x4280 <= x <= 0x42FF:
                used.add(x)
                return x

    pool = []

    def item(depth):
        if pool and rng.random() < .15:
            k, i, n, a, c = rng.choice(pool)
            return (k, i, n, a, ()) if k == 'm' else (k, i, n, a, c)
        k = 'm' if depth > 0 and rng.random() < .4 else rng.choice('iufstdb')
        names[0] += 1
        me = names[0]
        a = {}
        if rng.random() < .8:
            a['multiple'] = 1
        if rng.random() < .15:
            a['global'] = 1
        if rng.random() < .15:
            a['precache'] = rng.randint(0, 1)
        if k in 'ib' and rng.random() < .1:
            a['length'] = 8
        if k in 'ub' and rng.random() < .1:
            a['length'] = 9 if k == 'b' else 8
        ch = tuple(item(depth - 1) for _ in range(rng.randint(0, 4))) if k == 'm' else ()
        r = (k, newid(), 'E%d%s' % (me, k), a, ch)
        pool.append(r)
        return r
    out = [('m', newid(), 'Top', {'multiple': 1}, tuple(item(2) for _ in range(rng.randint(1, 6))))]
    out += [item(2) for _ in range(rng.randint(0, 4))]
    if rng.random() < .7:
        r = rng.random()
        if r < .7:
            out.insert(0, VOID)
        else:               # padding that is not valid everywhere
            v = VOID[:1] + ((0xEC if r < .9 else newid()), 'Void', {'multiple': 1}, ())
            if r < .8:
                out.append(v)
            else:
                out[0] = out[0][:4] + (out[0][4] + (v,),)
    if rng.random() < .5:
        out.insert(0, HEADER)
    return tuple(out)


# --- encoding ---------------------------------------------------------------

class Refused(Exception):
    pass


def enc_id(i):
    return i.to_bytes(max(1, (i.bit_length() + 7) // 8), 'big')


def enc_size(n, width=None):
    """The descriptor of a size; None: unknown."""
    if n is None:
        w = width or 1
        return ((1 << (7 * w)) | ((1 << (7 * w)) - 1)).to_bytes(w, 'big')
    for w in ([width] if width else range(1, 9)):
        if n < (1 << (7 * w)) - 1:
            return ((1 << (7 * w)) | n).to_bytes(w, 'big')
    raise Refused('size %d in %r bytes' % (n, width))


def enc_leaf(kind, v, length=None):
    if kind == 'v':
        return b'\xff' * (length or 0)
    if kind == 'u':
        if not 0 <= v < 2 ** 64:
            raise Refused
        b = v.to_bytes(max(1, (v.bit_length() + 7) // 8), 'big')
        pad = b'\0'
    elif kind == 'i':
        if not -2 ** 63 <= v < 2 ** 63:
            raise Refused
        n = 1
        while not -(1 << (8 * n - 1)) <= v < (1 << (8 * n - 1)):
            n += 1
        b = v.to_bytes(n, 'big', signed=True)
        pad = b'\xff' if v < 0 else b'\0'
    elif kind == 'f':
        if length not in (None, 0, 4, 8):
            raise Refused
        if length == 0 or length is None and v == 0:
            return b''
        try:
            return struct.pack('>f' if length == 4 else '>d', v)
        except OverflowError:
            raise Refused
    elif kind == 'd':
        if length not in (None, 8):
            raise Refused
        us = (v - EPOCH) // datetime.timedelta(microseconds=1)
        if not -2 ** 63 <= us * 1000 < 2 ** 63:
            raise Refused
        return (us * 1000).to_bytes(8, 'big', signed=True)
    elif kind in 'st':
        b = v.encode('utf8') if kind == 't' else bytes(ord(c) if 32 <= ord(c) < 127 else 63 for c in v)
        return b if length is None else b[:length] + b'\0' * (length - len(b))
    elif kind == 'b':
        b = b'' if v is None else v.encode('utf8') if isinstance(v, str) else bytes(v)
        if length is not None and len(b) > length:
            raise Refused
        return b if length is None else b + b'\0' * (length - len(b))
    else:
        raise AssertionError(kind)
    if length is not None:
        if len(b) > length:
            raise Refused
        b = pad * (length - len(b)) + b
    return b


def enc_node(w, node, opts=None):
    """node = (name, value[, opts]); a master's value is a list of nodes."""
    name, v = node[0], node[1]
    o = node[2] if len(node) > 2 else {}
    sp = w.byname[name] if isinstance(name, str) else None
    if sp is None:          # an unknown element: (id, bytes)
        return enc_id(name) + enc_size(len(v), o.get('sl')) + v
    if sp.kind == 'm':
        p = b''.join(enc_node(w, n) for n in (v or ()))
        if sp.length is not None and len(p) != sp.length:
            raise Refused
        return enc_id(sp.id) + enc_size(None if o.get('inf') else len(p), o.get('sl')) + p
    p = v if o.get('raw') else enc_leaf(sp.kind, v, o.get('len', sp.length))
    return enc_id(sp.id) + enc_size(len(p), o.get('sl')) + p


def enc_tree(w, nodes):
    return b''.join(enc_node(w, n) for n in nodes)


# --- parsing ----------------------------------------------------------------

class Node:
    def __init__(self, id, spec, offset, payload, size, declared):
        self.id, self.spec, self.offset, self.payload, self.size, self.declared = id, spec, offset, payload, size, declared

    @property
    def end(self):
        return self.payload + self.size


class Stop(Exception):
    """Nothing is specified from here on: malformed data."""


class End(Exception):
    """End of the data."""


def header(data, pos):
    if pos >= len(data):
        raise End
    b = data[pos]
    if b < 0x10:
        raise Stop('bad id')
    n = 9 - b.bit_length()
    if pos + n >= len(data):
        if pos + n == len(data):
            raise End
        raise Stop('truncated id')
    eid = int.from_bytes(data[pos:pos + n], 'big')
    s = data[pos + n]
    if s == 0:
        raise Stop('bad size')
    m = 9 - s.bit_length()
    if pos + n + m > len(data):
        raise Stop('truncated size')
    v = int.from_bytes(data[pos + n:pos + n + m], 'big') - (1 << (7 * m))
    return eid, n, (None if v == (1 << (7 * m)) - 1 else v), m


def ref_node(w, data, pos):
    eid, n, size, m = header(data, pos)
    sp = w.byid.get(eid)
    po = pos + n + m
    declared = size
    if size is None:
        if sp is None or sp.kind != 'm':
            raise Stop('unknown size of a non-master')
        size = ref_scan(w, data, sp, po)[0] - po
    return Node(eid, sp, pos, po, size, declared)


def ref_scan(w, data, sp, po):
    """(end, children) of an unknown-size master."""
    p, kids = po, []
    while True:
        try:
            n = ref_node(w, data, p)
        except End:
            return p, kids
        if n.id in sp.children or n.id in w.globals:
            kids.append(n)
            p = n.end
        else:
            return p, kids


def ref_children(w, data, node):
    """Children of a master, to the end of its payload; Stop on malformed data."""
    p, out = node.payload, []
    while p < node.end:
        try:
            n = ref_node(w, data, p)
        except End:
            break
        out.append(n)
        p = n.end
    return out


def ref_roots(w, data, start=0):
    p, out = start, []
    while True:
        try:
            n = ref_node(w, data, p)
        except End:
            return out
        out.append(n)
        p = n.end


def ref_value(kind, raw):
    """What a payload denotes (None: not specified)."""
    n = len(raw)
    if kind == 'u':
        return int.from_bytes(raw, 'big') if n <= 8 else None
    if kind == 'i':
        return int.from_bytes(raw, 'big', signed=True) if n <= 8 else None
    if kind == 'f':
        return 0.0 if n == 0 else struct.unpack('>f' if n == 4 else '>d', raw)[0] if n in (4, 8) else None
    if kind == 'd':
        return EPOCH + datetime.timedelta(microseconds=int.from_bytes(raw, 'big', signed=True) // 1000) if n == 8 else None
    if kind == 's':
        raw = raw.split(b'\0')[0]
        return ''.join(chr(b) if b < 128 else '\ufffd' for b in raw)
    if kind == 't':
        raw = raw.split(b'\0')[0]
        try:
            return raw.decode('utf8')
        except UnicodeDecodeError:
            return None
    if kind == 'v':
        return None
    return bytes(raw)


def eqv(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b
    if isinstance(a, (bytes, bytearray)):
        return isinstance(b, (bytes, bytearray)) and bytes(a) == bytes(b)
    return type(a) is type(b) and a == b


def readable(w, data, node):
    """Is the payload complete and meaningful (at every level of a master)?"""
    if node.end > len(data):
        return False
    if node.spec is None or node.spec.kind in 'bv':
        return True
    if node.spec.kind == 'm':
        try:
            kids = ref_children(w, data, node)
        except Stop:
            return False
        return all(readable(w, data, k) for k in kids)
    return ref_value(node.spec.kind, data[node.payload:node.end]) is not None


# --- generators ---------------------------------------------------------------

def rand_int(rng, lo, hi):
    r = rng.random()
    if r < .3:
        n = rng.randint(0, 64)
        x = (1 << n) + rng.randint(-2, 2)
        x = rng.choice((x, -x))
    elif r < .6:
        x = rng.randint(-300, 300)
    else:
        x = rng.getrandbits(rng.randint(1, 64)) * rng.choice((1, -1))
    return min(max(x, lo), hi)


def rand_text(rng, kind, n=None):
    n = rng.choice((0, 1, 3, rng.randint(0, 40), rng.randint(100, 150))) if n is None else n
    if kind == 's':
        return ''.join(chr(rng.randint(32, 126)) for _ in range(n))
    return ''.join(rng.choice(('a', 'b', ' ', '\xe9', '\u20ac', '\U0001f600', 'Z', '<', '&', '"', "'", chr(rng.randint(33, 0x2ff)))) for _ in range(n))


# Values that a careless transformation would change: one of them is used in
# every kind of concrete check.
HARD = dict(
    u=sorted({0, 1, 9, 10, 126, 127, 128, 0x5a, 0x7fff, 0x1A45DFA3, 0xEC80, 0xEC81FF, 2 ** 53 + 1, 2 ** 63 + 1025, 10 ** 19} | {x for k in range(8, 65, 8) for x in (2 ** (k - 1) - 1, 2 ** (k - 1), 2 ** k - 1, 2 ** k, 2 ** k + 1, 2 ** k - 256) if 0 <= x < 2 ** 64}),
    i=sorted({0, 1, -1, 2, -2, 127, 128, -127, -128, -129, -130, 0x5a, -32897, -33024, -8421505, 2 ** 53 + 1, -2 ** 53 - 1} | {x for k in range(8, 65, 8) for x in (2 ** (k - 1) - 1, 2 ** (k - 1), -2 ** (k - 1), -2 ** (k - 1) - 1, -2 ** (k - 1) + 1, 2 ** k, -2 ** k) if -2 ** 63 <= x < 2 ** 63}),
    f=[0.0, -0.0, 1.0, -1.0, 0.1, 0.1 + 0.2, 1 / 3, 1e22 / 3, 5e-324, -5e-324, 1e-310, 2.2250738585072014e-308, 2.225073858507201e-308, 1.7976931348623157e308, -1.7976931348623157e308, float('inf'), float('-inf'), float('nan'),
       2.0 ** 53 + 2, 2.0 ** 53 - 1, 16777216.0, 16777217.0, 3.4028234663852886e38, 3.5e38, 1e39, 1.1754943508222875e-38, 1e-45, 1e16, 1e15, 123456789.12345679, 65504.0, 1e-7, 2147483648.0, -9223372036854775808.0, 1e100, 5.0, 255.0],
    d=[EPOCH + datetime.timedelta(microseconds=x) for x in (0, 1, -1, 999, 1000, 999999, -999999, 10 ** 6, -10 ** 6, 86400 * 10 ** 6 - 1, -86400 * 10 ** 6 - 1, 2 ** 53 + 1, 9223372036854775, -9223372036854775, 9223372036854774, 4611686018427387, -4611686018427387)]
    + [datetime.datetime(1970, 1, 1), datetime.datetime(1969, 12, 31, 23, 59, 59, 999999), datetime.datetime(2000, 2, 29, 12), datetime.datetime(2038, 1, 19, 3, 14, 8), datetime.datetime(2100, 2, 28, 23, 59, 59, 5),
       datetime.datetime(1999, 12, 31), datetime.datetime(2016, 7, 31, 2, 30), datetime.datetime(1800, 3, 1, 1, 1, 1, 100000), datetime.datetime(2200, 1, 1, 0, 0, 0, 10)],
    s=['', ' ', '  ', 'a', ' lead', 'tail ', '  both  ', 'a  b', '0', '0x10', '-1', '1e5', 'None', 'True', 'nan', '[]', '()', '<&>"\'', '&amp;', ']]>', '%s %d', '{0}', '\\n', '\\', "'", '"', '`', '~', '?', 'a?b', 'MiXeD CaSe', 'UPPER', 'a,b', 'a;b', '/x/y', '#', '$HOME', '=', '==', 'x' * 126, 'x' * 127,
       'y' * 128] + [''.join(map(chr, range(32, 127)))],
    t=['', ' ', ' lead', 'tail ', 'a  b', '\t', '\n', 'a\nb', 'a\r\nb', 'a\rb', '\ttab\t', '0', '0x10', 'None', '<&>"\'', '&amp;', ']]>', 'caf\xe9', 'cafe\u0301', '\u212b', '\ufb01', 'q\u0307\u0323', '\u1100\u1161', '\uac00', '\u0130', '\xdf', '\u1e9e', '\u01c5', 'MiXeD', '\xa0', '\xad',
       '\u200b', '\u200e', '\u2028', '\x85', '\ufeffbom', 'x\ufeff', '\ufffd', '\ue000', '\U0001f600', '\U0001f468\u200d\U0001f469', '\U0010ffff', '\U00010000', '\uffef', '\u3000', '\uff21', '\u2126', '\u0661', '\xbd', '?', '\x7f', '\x80', '\x9f', '\xff', '\u07ff', '\u0800', '\ud7ff', 'x' * 127, '\xe9' * 63, '\xe9' * 64,
       '\u20ac' * 42, '\u20ac' * 43, 'a' * 125 + '\xe9'],
    b=[b'', b'\0', b'\0\0', b' ', b'\n', b'\r\n', b'\0abc', b'abc\0', b'\xff', b'\xff\xff', b' abc ', b'abc', b'AAEC', b'0x10', b'\x1aE\xdf\xa3\x80', b'\x81\x81\x05', b'\xec\x81\xff', b'caf\xc3\xa9', b'\xef\xbb\xbfx', bytes(range(256)), bytes(126), bytes(127), b'\xff' * 128, b'[', b'[000000] 00', b'==', b'\x80', b'\x7f'],
    v=[None])
CONTROL = ['\x01', 'a\x1fb', '\x08', '\x0c', '\ufffe', '\uffff', '\U0001ffff', '\x0b\x1c']


def hard_values(kind, control=False):
    return HARD[kind] + (CONTROL if control and kind == 't' else [])


def hard_leaves(control=False):
    """(element of BASIC, value) for every hard value."""
    for name, kind in (('Int', 'i'), ('UInt', 'u'), ('Flt', 'f'), ('Date', 'd'), ('Str', 's'), ('Uni', 't'), ('Bin', 'b')):
        for v in hard_values(kind, control):
            yield name, v


def rand_value(rng, kind, length=None):
    if length is None and rng.random() < .4:
        return rng.choice(HARD[kind])
    if kind == 'u':
        return rand_int(rng, 0, 2 ** (8 * min(length or 8, 8)) - 1)
    if kind == 'i':
        h = 2 ** (8 * min(length or 8, 8) - 1)
        return rand_int(rng, -h, h - 1)
    if kind == 'f':
        return rng.choice((0.0, 1.5, -2.25, 1e300, -1e-300, float('inf'), float('-inf'), float('nan'), rng.random(), rng.uniform(-1e9, 1e9), 5e-324, 0.1))
    if kind == 'd':
        us = rng.choice((rng.randint(-9223372036854775, 9223372036854775), rng.randint(-10 ** 6, 10 ** 6), 0, 10 ** 15))
        return EPOCH + datetime.timedelta(microseconds=us)
    if kind in 'st':
        return rand_text(rng, kind)
    if kind == 'b':
        n = rng.choice((0, 1, rng.randint(0, 20), rng.randint(120, 140)))
        return rng.randbytes(min(n, length) if length is not None else n)
    if kind == 'v':
        return None
    raise AssertionError(kind)


def rand_node(rng, w, sp, depth, opts=False):
    o = {}
    if opts and rng.random() < .3:
        o['sl'] = rng.randint(3, 8)
    if sp.kind == 'm':
        ids = list(sp.children)
        n = rng.choice((0, 1, 2, rng.randint(0, 5))) if depth > 0 and ids else 0
        kids = []
        for _ in range(n):
            c = w.byid[rng.choice(ids)]
            if not c.multiple and any(k[0] == c.name for k in kids):
                continue
            kids.append(rand_node(rng, w, c, depth - 1, opts))
        return (sp.name, kids, o)
    if sp.kind == 'v' and opts:
        o['len'] = rng.choice((0, 1, 5, 126, 127))
    if opts and sp.kind in 'uib' and sp.length is None and rng.random() < .3:
        if sp.kind == 'b':
            o['raw'] = 1
        else:
            o['len'] = 8
    return (sp.name, rand_value(rng, sp.kind, sp.length), o)


def rand_tree(rng, w, width=4, depth=3, opts=False, roots=None):
    out = []
    roots = roots if roots is not None else w.roots
    for _ in range(rng.randint(0, width)):
        sp = w.byid[rng.choice(roots)]
        if sp.name == 'EBML':
            continue
        if not sp.multiple and any(k[0] == sp.name for k in out):
            continue
        out.append(rand_node(rng, w, sp, depth, opts))
    return out


def as_data(rng, nodes, top=True):
    """A tree as the encoder takes it: a dict or a list of pairs at random.

    (An empty list as the value of a master is no element at all.)"""
    def val(n):
        return as_data(rng, n[1], False) if isinstance(n[1], list) else n[1]
    names = [n[0] for n in nodes]
    r = rng.random()
    if not nodes:
        return rng.choice(({}, [], None) if top else ({}, None))
    if len(set(names)) == len(names) and r < .5:
        return {n[0]: val(n) for n in nodes}
    # group runs of the same name into one list of values
    out, i = [], 0
    while i < len(nodes):
        j = i
        while j < len(nodes) and nodes[j][0] == nodes[i][0]:
            j += 1
        run = [val(n) for n in nodes[i:j]]
        if len(run) > 1 and rng.random() < .6 and all(isinstance(x, dict) or not isinstance(x, (list, tuple)) for x in run):
            out.append((nodes[i][0], run))
        else:
            out.extend((nodes[i][0], x) for x in run)
        i = j
    if len({n for n, _ in out}) == len(out) and rng.random() < .5:
        return dict(out)
    return out


def opaque_nodes(nodes):
    return nodes


DESCS = [BASIC, NOHEAD, TINY]


def gen_desc(rng, p=.5):
    return rand_desc(rng) if rng.random() < p else rng.choice(DESCS)


def mutate(rng, data):
    """A damaged copy: cut, changed bytes, inserted bytes."""
    b = bytearray(data)
    for _ in range(rng.randint(1, 3)):
        r = rng.random()
        if r < .35 and b:
            del b[rng.randrange(len(b)):]
        elif r < .7 and b:
            b[rng.randrange(len(b))] = rng.choice((0xff, 0x80, 0x81, 0x40, 1, 0, rng.getrandbits(8)))
        else:
            i = rng.randint(0, len(b))
            b[i:i] = rng.randbytes(rng.randint(1, 4))
    return bytes(b)

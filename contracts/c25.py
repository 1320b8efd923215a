"""Equality of elements and of schemata."""
import random

from .base import *
from .tree import *
from . import k_parse as K
from .world import *

VALUED = ('Integer', 'UInteger', 'Float', 'String', 'Unicode', 'Date')
ORDER = [k for k in KINDS_]


class Part(Sym):
    """Something that is equal to another by a relation we know nothing of but
    that it is symmetric and (unless it is a number that may be NaN) reflexive."""
    pytype = None

    def __init__(self, rel, key, reflexive=True):
        self.rel, self.key, self.reflexive = rel, key, reflexive

    def is_none(self):
        return False

    def equals(self, o):
        if self.key == o.key:
            return self.reflexive or V.SBool(self.rel(Z(self.key), Z(o.key)))
        a, b = sorted((self.key, o.key))
        return V.SBool(self.rel(Z(a), Z(b)))

    def guest_eq(self, o):
        if isinstance(o, Part) and o.rel is self.rel:
            return self.equals(o)
        if o is None or isinstance(o, (str, int, dict, list, tuple, bytes)):
            return False
        raise Unsupported('comparison of %r' % (o,))

    def ident_eq(self, o):
        if o is self:
            return True
        if o is None:
            return False
        raise Unsupported('identity of values')

    def __bool__(self):
        raise Unsupported('truth of a value')

    __hash__ = Sym.__hash__


def verdict(ip, got, ident=False):
    """What the operator makes of the method's result."""
    if got is NotImplemented:
        return ident
    return ip.truthy(got)


def elements(c):
    """Two elements of any kinds with any attributes."""
    ip = Interp(c)
    VEQ, SEQ = fun(c, 'VALUES_EQUAL', 'i', 'i', 'b'), fun(c, 'SCHEMATA_EQUAL', 'i', 'i', 'b')
    BAD = fun(c, 'UNREADABLE', 'i', 'b')
    schemata = [known(None, SObj(core.Schema, {}, 'schema%d' % i)) for i in range(2)]
    els, kinds = {}, {}

    def schema_eq(ip_, args, kwargs):
        a, b = [next((i for i, s in enumerate(schemata) if s is x), None) for x in args]
        if a is None or b is None:
            return False
        return True if a == b else V.SBool(SEQ(Z(0), Z(1)))
    c.summaries[core.Schema.__eq__] = schema_eq

    def value(ip_, args, kwargs):
        e = args[0]
        i = next((i for i, x in els.items() if x is e), None)
        if i is None:
            raise Unsupported('value of another element')
        if kinds[i] in VALUED and c.decide(BAD(Z(i))):
            graise(DecodeError())
        return Part(VEQ, i, kinds[i] != 'Float')
    for p in (core.Element.__dict__['value'], core.MasterElement.__dict__['value']):
        c.summaries[p.fget] = value
    sizes = {}

    def size(ip_, args, kwargs):
        for i, x in els.items():
            if x is args[0]:
                return sizes[i]
        raise Unsupported('size of another element')
    c.summaries[core.MasterElement.__dict__['size'].fget] = size

    def make(i, kind, same_schema):
        kinds[i] = kind
        sizes[i] = c.fresh('size%d' % i, 0)
        attrs = dict(stream=SOpaque(object, 'stream%d' % i), offset=c.fresh('offset%d' % i, 0),
                     payloadOffset=c.fresh('payload%d' % i, 0), sizeLength=c.fresh('sizeLength%d' % i, 1, 8))
        schema = schemata[0 if same_schema else i]
        eid = c.fresh('id%d' % i, 0)
        if kind == 'Master':
            attrs['_value'] = None
        else:
            attrs['size'] = sizes[i]
            attrs['_value'] = None
        if kind == 'Unknown':
            cls = core.UnknownElement
            attrs.update(id=eid, schema=schema)
        else:
            cls = SClass(BASES[kind], dict(id=eid, schema=schema, name=SOpaque(str, 'name%d' % i)), kind + 'Sub')
        els[i] = known(None, SObj(cls, attrs, 'element%d' % i))
        return els[i], eid, schema
    what = c.case('pair', 'one kind', 'two kinds', 'itself', 'foreign')
    k0 = c.case('kind', *(ORDER + ['Unknown']))
    a, ida, sa = make(0, k0, True)
    if what == 'foreign':
        o = c.case('other', 'None', 'int', 'text', 'list', 'object', 'schema')
        x = {'None': None, 'int': 3, 'text': 'x', 'list': [1], 'object': object(), 'schema': SObj(core.Schema, {}, 'foreign')}[o]
        same(c, 'another object', outcome(lambda: verdict(ip, ip.call(ip.getattr(a, '__eq__'), [x]))), ('ok', False))
        c.cover('foreign')
        return
    if what == 'itself':
        got = outcome(lambda: verdict(ip, ip.call(ip.getattr(a, '__eq__'), [a]), True))
        if got[0] == 'exc':
            c.prove(mkb(BAD(Z(0))) if k0 in VALUED else False, 'raises only if the payload cannot be read')
            return
        want = mkb(VEQ(Z(0), Z(0))) if k0 == 'Float' else True
        same_value(c, 'equals itself (a number: unless it is not one)', got[1], want)
        c.cover('itself')
        return
    if what == 'one kind':
        k1 = k0
    else:
        if k0 == 'Unknown':
            raise PathAbort()
        k1 = c.case('other kind', *ORDER)
        if k1 == k0:
            raise PathAbort()
    b, idb, sb = make(1, k1, c.case('schema', 'same', 'another') == 'same')
    got = outcome(lambda: verdict(ip, ip.call(ip.getattr(a, '__eq__'), [b])))
    eqs = True if sa is sb else mkb(SEQ(Z(0), Z(1)))
    eqid = mkb(ida.e == idb.e)
    eqv = mkb(VEQ(Z(0), Z(1)))
    if k0 == 'Unknown':
        base = eqid
        want = And(eqid, eqv)
        valued = True
    else:
        base = And(eqid, mkb(a.attrs['offset'].e == b.attrs['offset'].e), mkb(sizes[0].e == sizes[1].e), eqs,
                   BASES[k0].dtype == BASES[k1].dtype)
        valued = k0 in VALUED
        want = And(base, eqv) if valued else base
    if got[0] == 'exc':
        c.prove(isinstance(got[1], DecodeError), 'raises only what reading a value raises')
        c.prove(k0 in VALUED, 'no value is needed')
        c.prove(mkb(z3.Or(BAD(Z(0)), BAD(Z(1)))), 'raises only if a payload cannot be read')
        c.cover('raises')
        return
    if what == 'one kind':
        same_value(c, 'equal exactly if ID, place, size, schema and value are (unknown elements: ID and value)', got[1], want)
        c.cover('one kind ' + k0)
    else:
        # e.g. a signed and an unsigned integer with one ID: whether the classes differ is not said
        c.prove(Implies(got[1], want), 'elements that differ in type, ID, place, size, schema or value are not equal')
        c.cover('two kinds')


def schemata(c):
    ip = Interp(c)
    REL = fun(c, 'SAME_DEFINITIONS', 'i', 'i', 'b')
    a = known(None, SObj(core.Schema, dict(elementInfo=Part(REL, 0)), 'schema'))
    what = c.case('other', 'itself', 'schema', 'None', 'int', 'text', 'list', 'object', 'element')
    if what == 'schema':
        b = known(None, SObj(core.Schema, dict(elementInfo=Part(REL, 1)), 'other'))
        want = mkb(REL(Z(0), Z(1)))
    elif what == 'element':
        b = SObj(SClass(core.BinaryElement, dict(id=c.fresh('id', 0), schema=a, name=SOpaque(str, 'name')), 'BinSub'), {}, 'el')
        want = False
    else:
        b = {'itself': a, 'None': None, 'int': 3, 'text': 'x', 'list': [1], 'object': object()}[what]
        want = what == 'itself'
    got = outcome(lambda: verdict(ip, ip.call(ip.getattr(a, '__eq__'), [b]), b is a))
    same(c, 'equal exactly if the definitions are', got, ('ok', want))
    c.cover(what)


# --- real inputs --------------------------------------------------------------

def flat(w, data, doc):
    """(element, node), every level, as far as specified."""
    out = []

    def level(e, nodes):
        it = iter(e)
        for n in nodes:
            try:
                x = next(it)
            except StopIteration:
                return
            out.append((x, n))
            if n.spec is not None and n.spec.kind == 'm':
                level(x, K.levels(w, data, n, 0)[0])
    level(doc, K.levels(w, data, None, 0)[0])
    return out


SKIP = object()


def value_of(data, n):
    if n.spec is None:
        return data[n.payload:n.end]
    v = ref_value(n.spec.kind, data[n.payload:n.end])
    return SKIP if v is None else v


def check_equal(desc, data, data2, seed=0, other=0):
    """All pairs of the elements of two documents, values read before or not."""
    w = world(desc)
    rng = random.Random(seed)
    w2 = w
    if other:
        w2 = World(desc if other != 3 else retyped(desc))
        if other == 2:
            i = next(iter(w2.byid))
            w2.schema.elementInfo[i] = dict(w2.schema.elementInfo[i], extra='1')
    A = flat(w, data, K.document(w, data))[:14]
    B = flat(w2, data2, K.document(w2, data2))[:14]
    same_schema = other != 2
    for x, n in A + B:
        if rng.random() < .4:
            try:
                x.value
            except Exception:
                pass
        elif rng.random() < .2:
            x.stream.seek(rng.randrange(20))
    pairs = [(p, q, same_schema, data2) for p in A for q in B]
    pairs += [(p, q, True, data) for p in A[:6] for q in A[:6]]
    rng.shuffle(pairs)
    for (x, n), (y, m), schemas, d2 in pairs:
        vx, vy = value_of(data, n), value_of(d2, m)
        if (n.spec is None) != (m.spec is None):
            continue
        kx, ky = n.spec and n.spec.kind, m.spec and m.spec.kind
        if n.spec is None:
            want = n.id == m.id and vx == vy
        else:
            want = (n.id, n.offset, n.size, DTYPE[kx]) == (m.id, m.offset, m.size, DTYPE[ky]) and schemas
            if want and kx in 'iufstd':
                if vx is SKIP or vy is SKIP:
                    continue
                want = vx == vy
        if rng.random() < .2:
            try:
                x.gc()
            except Exception:
                pass
        try:
            got, ne = x == y, x != y
        except Exception as ex:
            if n.spec is not None and kx in 'iufstd' and (vx is SKIP or vy is SKIP) and want:
                continue
            raise Broken('%s == %s raised %r' % (K.describe(x), K.describe(y), ex))
        if bool(got) != want or bool(ne) == want:
            raise Broken('%s (of %s) == %s (of %s) is %r, != is %r; expected %r, values %r and %r, schemata %s' % (
                K.describe(x), data.hex(), K.describe(y), d2.hex(), got, ne, want, vx, vy, 'equal' if schemas else 'different'))
    for x, n in A[:8]:
        for o in (None, 3, 'x', b'', [], object(), w.schema):
            try:
                if x == o or not x != o:
                    raise Broken('%s == %r' % (K.describe(x), o))
            except Broken:
                raise
            except Exception as ex:
                raise Broken('%s == %r raised %r' % (K.describe(x), o, ex))


def check_schemata(desc, desc2, equal):
    a, b = World(desc).schema, World(desc2).schema
    if (a == b) != equal or (a != b) == equal or (b == a) != equal:
        raise Broken('schemata of %r and %r: == %r, expected %r' % (desc, desc2, a == b, equal))
    for o in (None, 3, 'x', [], {}, object(), a.elements):
        try:
            if a == o or not a != o:
                raise Broken('a schema == %r' % (o,))
        except Broken:
            raise
        except Exception as ex:
            raise Broken('comparing a schema with %r raised %r' % (o, ex))
    if not a == a:
        raise Broken('a schema is not equal to itself')


def retyped(desc):
    """The same definitions (by their attributes) with other types."""
    new = {'b': 'f', 'f': 'b', 's': 'b', 't': 'b', 'i': 's', 'u': 't', 'd': 'b', 'm': 'm'}
    return tuple((k if n == 'Void' else new[k], i, n, a, retyped(ch)) for k, i, n, a, ch in desc)


DTYPE = dict(i=int, u=int, d='date', f=float, s=str, t=str, b=bytes, v=bytes, m=list)


def change(rng, w, nodes):
    """Another document, often of the same shape."""
    nodes = list(nodes)
    r = rng.random()
    if not nodes or r < .15:
        return nodes
    i = rng.randrange(len(nodes))
    n = nodes[i]
    if isinstance(n[0], str) and n[0] in w.byname:
        sp = w.byname[n[0]]
        if sp.kind == 'm':
            nodes[i] = (n[0], change(rng, w, n[1])) + tuple(n[2:])
        elif sp.kind != 'v':
            nodes[i] = (n[0], rand_value(rng, sp.kind, sp.length)) + tuple(n[2:])
    return nodes


def gen_equal(rng):
    while True:
        d, w, nodes = K.rand_doc(rng, header=rng.random() < .2)
        data = enc_tree(w, nodes)
        try:
            data2 = enc_tree(w, change(rng, w, nodes))
        except Exception:
            continue
        if len(data2) == len(data) and rng.random() < .3 and len(data) > 2:
            b = bytearray(data2)
            b[rng.randrange(len(b) // 2, len(b))] ^= rng.choice((1, 128, 255))
            data2 = bytes(b)
        yield dict(desc=d, data=data, data2=data2, seed=rng.randrange(1000), other=rng.choice((0, 0, 1, 2)))


def vary(rng, items):
    """(items, equal?)"""
    items = [tuple(x) for x in items]
    if not items:
        return tuple(items), True
    i = rng.randrange(len(items))
    kind, id, name, attrs, ch = items[i]
    r = rng.random()
    if r < .3:
        return tuple(items), True
    if r < .55 and ch:
        sub, e = vary(rng, ch)
        items[i] = (kind, id, name, attrs, sub)
        return tuple(items), e
    if r < .75:
        items[i] = (kind, id, name, dict(attrs, mark=rng.randrange(9)), ch)
        return tuple(items), False
    if r < .85 and attrs:
        k = rng.choice(sorted(attrs))
        if k not in ('length', 'precache', 'global', 'multiple'):
            items[i] = (kind, id, name, {a: v for a, v in attrs.items() if a != k}, ch)
            return tuple(items), False
    return tuple(items) + (('u', 0x4FF7, 'Added', {}, ()),), False


def twice(desc):
    seen = set()

    def w(items):
        for k, i, n, a, ch in items:
            if i in seen:
                return True
            seen.add(i)
            if w(ch):
                return True
        return False
    return w(desc)


def gen_schemata(rng):
    while True:
        d = gen_desc(rng, .3) if rng.random() < .7 else TINY[:2]
        e, eq = vary(rng, d)
        try:
            World(e)
        except Exception:
            continue
        yield dict(desc=d, desc2=e, equal=eq)


def dir_equal():
    one = (('m', 0x81, 'M', {'multiple': 1}, (('u', 0x82, 'U', {'multiple': 1}, ()), ('i', 0x85, 'I', {'multiple': 1}, ()),
            ('f', 0x86, 'F', {'multiple': 1}, ()), ('s', 0x87, 'S', {'multiple': 1}, ()), ('t', 0x88, 'T', {'multiple': 1}, ()),
            ('b', 0x89, 'B', {'multiple': 1}, ()), ('d', 0x8A, 'D', {'multiple': 1}, ()), ('v', 0xEC, 'Void', {'multiple': 1}, ()))),)
    one = (one[0][:4] + (one[0][4][:-1] + (('s', 0x8B, 'S2', {'multiple': 1}, ()), ('b', 0xEC, 'Void', {'multiple': 1}, ()),),),)
    out = []
    for eid, a, b in ((0x82, b'\x01', b'\x02'), (0x85, b'\xff', b'\x7f'), (0x86, bytes(4), b'\x3f\x80\0\0'), (0x86, b'\x7f\xc0\0\0', b'\x7f\xc0\0\0'),
                      (0x87, b'ab', b'ac'), (0x88, b'\xc3\xa4', b'zz'), (0x88, b'\xff', b'\xff'), (0x89, b'ab', b'cd'), (0x8A, bytes(8), bytes(7) + b'\xff'),
                      (0xEC, b'\0', b'\1'), (0x8B, b'ab', b'ac'), (0x87, b'ab', b'ab'), (0xA0, b'ab', b'cd'), (0xA0, b'ab', b'ab')):
        def m(p, pre=b''):
            e = pre + bytes([eid, 0x80 | len(p)]) + p
            return bytes([0x81, 0x80 | len(e)]) + e
        for x, y in ((a, b), (a, a), (a, a + b'\0')):
            for other in (0, 1, 2, 3):
                out.append(dict(desc=one, data=m(x), data2=m(y), seed=len(out), other=other))
        out.append(dict(desc=one, data=m(a), data2=m(a).replace(b'\x87', b'\x8b'), seed=len(out), other=0))
        out.append(dict(desc=one, data=m(a) + m(a), data2=m(b) + m(a), seed=1, other=0))
        out.append(dict(desc=one, data=m(a, b'\xec\x80'), data2=m(a, b'\xec\x81\0'), seed=1, other=1))
        out.append(dict(desc=one, data=b'\x81\xff' + bytes([eid, 0x80 | len(a)]) + a, data2=m(a), seed=1, other=0))
    return out


KINDS = [
    Kind('elements', check_equal, gen_equal, dir_equal, n=500),
    Kind('schemata', check_schemata, gen_schemata, [], n=250),
]

PROPERTY = Property('C25', [
    Proof('elements', elements, ['core.Element.__eq__', 'core.IntegerElement.__eq__', 'core.FloatElement.__eq__',
                                 'core.StringElement.__eq__', 'core.UnknownElement.__eq__'],
          covers=['foreign', 'itself', 'raises', 'two kinds'] + ['one kind ' + k for k in ORDER + ['Unknown']]),
    Proof('schemata', schemata, ['core.Schema.__eq__'], covers=['itself', 'schema', 'None', 'element']),
], KINDS, assumptions=['The value of an element is a function of its payload (C14); comparison of two such values is a symmetric relation, '
                       'reflexive except for NaN', 'comparison of the dictionaries of definitions (elementInfo) is that of Python'])

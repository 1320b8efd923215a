"""Abstract EBML trees: a stream with headers anywhere, a schema of any size.

The header functions ID, IDL, SZV, ... give what the header readers return at a
position (their contracts are C02's); everything above them is proved here."""
from .base import *
from pyvc.coll import SPred
from pyvc.interp import SList, UNBOUND

Z = z3.IntVal
KINDS_ = ['Integer', 'UInteger', 'Float', 'String', 'Unicode', 'Date', 'Binary', 'Void', 'Master']
BASES = {k: getattr(core, k + 'Element') for k in KINDS_}


class DecodeError(Exception):
    """Stands for whatever a payload decoder raises."""


class SizeError(TypeError):
    """Stands for an unknown size on an element that is not a master."""
    def __init__(self):
        super().__init__("unsupported operand type(s) for +: 'int' and 'NoneType'")


class HeaderError(OSError):
    """Stands for what the header readers raise on a bad header."""


def fun(c, name, *sorts):
    m = {'i': V.INT, 'b': z3.BoolSort()}
    return z3.Function(c.uname(name), *[m[x] for x in sorts])


def known(o, obj):
    """Attributes an object of the repository may lack: those it declares."""
    def lazy(name):
        for k in real_base(obj.cls).__mro__:
            if name in k.__dict__ or name in getattr(k, '__slots__', ()):
                return UNBOUND
        if name in ('_length', '_size', '__length_hint__', '__iter__', '__len__', '__contains__', '__getattr__'):
            return UNBOUND
        raise Unsupported('attribute %s of %s' % (name, obj.cls))
    obj.lazy = lazy
    return obj


def real_base(cls):
    return cls.base if isinstance(cls, SClass) else cls


class Headers:
    """What the header readers find at each position of one stream."""
    def __init__(self, c, stream):
        self.c, self.stream = c, stream
        self.N = ze(stream.content.n)
        self.IDV, self.IDL = fun(c, 'IDV', 'i', 'i'), fun(c, 'IDL', 'i', 'i')
        self.SZV, self.SZL = fun(c, 'SZV', 'i', 'i'), fun(c, 'SZL', 'i', 'i')
        self.BADID, self.SZU = fun(c, 'BADID', 'i', 'b'), fun(c, 'SZU', 'i', 'b')

    def id_facts(self, p):
        return z3.And(self.IDL(p) >= 1, self.IDL(p) <= 4, self.IDV(p) >= 0)

    def size_facts(self, q):
        return z3.And(self.SZL(q) >= 1, self.SZL(q) <= 8, self.SZV(q) >= 0)

    def own(self, s):
        if s is not self.stream:
            raise Unsupported('header of another stream')

    def read_id(self, ip, args, kwargs):
        c = self.c
        s = bindargs(decoding.readElementID, args, kwargs)['stream']
        self.own(s)
        p = ze(s.pos)
        if c.decide(p >= self.N):
            graise(TypeError('ord() expected a character, but string of length 0 found'))
        if c.decide(self.BADID(p)):
            s._set('pos', mki(p + 1))
            graise(HeaderError('Invalid length for ID'))
        c.assume(self.id_facts(p))
        e = p + self.IDL(p)
        s._set('pos', mki(z3.If(e <= self.N, e, self.N)))
        return mki(self.IDV(p)), mki(self.IDL(p))

    def read_size(self, ip, args, kwargs):
        c = self.c
        s = bindargs(decoding.readElementSize, args, kwargs)['stream']
        self.own(s)
        p = ze(s.pos)
        if c.decide(p >= self.N):
            graise(TypeError('ord() expected a character, but string of length 0 found'))
        c.assume(self.size_facts(p))
        e = p + self.SZL(p)
        s._set('pos', mki(z3.If(e <= self.N, e, self.N)))
        return None if c.decide(self.SZU(p)) else mki(self.SZV(p)), mki(self.SZL(p))

    def install(self):
        self.c.summaries[decoding.readElementID] = self.read_id
        self.c.summaries[decoding.readElementSize] = self.read_size


def lemma_headers(c):
    """The contracts of the header readers (C02) have the facts used here."""
    from .leafspec import spec_readElementID, spec_readElementSize
    Interp(c)
    s = SStream(opaque_bytes('content'), c.fresh('pos', 0), 'stream')
    p, N = ze(s.pos), ze(s.content.n)
    which = c.case('reader', 'id', 'size')
    r = outcome(lambda: (spec_readElementID if which == 'id' else spec_readElementSize)(c, s))
    if r[0] == 'exc':
        if isinstance(r[1], TypeError):
            c.prove('ord()' in str(r[1]), 'the end of the data is recognisable')
            c.prove(mkb(p >= N), 'only there')
            c.cover('end of data')
        else:
            c.prove(which == 'id' and isinstance(r[1], IOError), 'a bad ID raises IOError')
            c.prove(mkb(p < N), 'not at the end of the data')
            c.cover('bad')
        return
    v, n = r[1]
    c.prove(mkb(p < N), 'data were left')
    c.prove(And(n >= 1, n <= (4 if which == 'id' else 8)), 'length')
    c.prove(True if v is None else v >= 0, 'value')
    c.prove(mkb(ze(s.pos) == z3.If(p + ze(n) <= N, p + ze(n), N)), 'bytes consumed')
    c.cover('read')


class Names(Sym):
    """elementsByName, of which only names that are not integers matter."""
    pytype = dict

    def guest_contains(self, ip, k):
        if isint(k):
            return False
        raise Unsupported('element names')

    def guest_getitem(self, ip, k):
        if isint(k):
            graise(KeyError(k))
        raise Unsupported('element names')

    def m_get(self, k, d=None):
        if isint(k):
            return d
        raise Unsupported('element names')

    def __bool__(self):
        raise Unsupported('truth of the table')


class Elements(Sym):
    """The schema's table of classes by ID: any set of IDs, any kinds."""
    pytype = dict

    def __init__(self, w):
        self.w = w
        self.memo = []

    def find(self, x):
        c = self.w.c
        for e, cls in self.memo:
            if c.decide(e == ze(x)):
                return cls
        if c.decide(self.w.IN(ze(x))):
            cls = self.w.new_class(x)
            self.memo.append((ze(x), cls))
            return cls
        return None

    def guest_contains(self, ip, x):
        return mkb(self.w.IN(ze(x))) if isint(x) else False

    def guest_getitem(self, ip, x):
        cls = self.find(x) if isint(x) else None
        if cls is None:
            graise(KeyError(x))
        return cls

    def m_get(self, x, d=None):
        cls = self.find(x) if isint(x) else None
        return d if cls is None else cls

    def __bool__(self):
        raise Unsupported('truth of the table')


class SchemaWorld:
    """A schema of arbitrary content."""
    def __init__(self, c, kinds=KINDS_):
        self.c, self.kinds = c, kinds
        self.IN = fun(c, 'IN', 'i', 'b')
        self.GLOBAL = fun(c, 'GLOBAL', 'i', 'b')
        self.elements = Elements(self)
        self.schema = SObj(core.Schema, dict(elements=self.elements, elementsByName=Names(),
                                             globals=SPred(lambda x: self.GLOBAL(x), 'globals')), 'schema')
        known(self, self.schema)

    def new_class(self, eid):
        c = self.c
        kind = c.case('kind', *self.kinds)
        attrs = dict(id=eid, schema=self.schema, name=SOpaque(str, 'name'), multiple=c.fresh_bool('multiple'),
                     mandatory=c.fresh_bool('mandatory'))
        if kind != 'Void':
            CH = fun(c, 'CHILD', 'i', 'b')
            attrs.update(precache=c.fresh_bool('precache'), length=None, children=SPred(lambda x: CH(x), 'children'))
        cls = SClass(BASES[kind], attrs, kind + 'Sub')
        cls.kind = kind
        return cls


class PVal(Sym):
    """The decoding of a payload: a function of the kind, where and how much."""
    def __init__(self, kind, pos, size):
        self.kind, self.pos, self.size = kind, pos, size

    pytype = None
    def is_none(self):
        return False

    def same_as(self, ip, o):
        return isinstance(o, PVal) and o.kind == self.kind and \
            ip.c.valid(mkb(z3.And(ze(o.pos) == ze(self.pos), ze(o.size) == ze(self.size))))

    def ident_eq(self, o):
        return o is self

    def __eq__(self, o):
        if o is None:
            return False
        raise Unsupported('comparison of decoded values')

    def __ne__(self, o):
        if o is None:
            return True
        raise Unsupported('comparison of decoded values')

    def __bool__(self):
        return V.CTX.decide(z3.Function('TRUTH_' + self.kind, V.INT, V.INT, z3.BoolSort())(ze(self.pos), ze(self.size)))

    __hash__ = Sym.__hash__


class Parsers:
    """parse() of the leaf types: by contract (C03 to C07) a function of the
    bytes at the stream's position, never None; an error is never a TypeError
    mentioning ord()."""
    def __init__(self, c, stream):
        self.c, self.stream = c, stream
        self.N = ze(stream.content.n)
        self.BAD = fun(c, 'BADVAL', 'i', 'i', 'i', 'b')

    def norm(self, p):
        """Reading at or after the end gives the same nothing."""
        return mki(z3.If(ze(p) < self.N, ze(p), self.N))

    def value(self, kind, pos, size):
        return PVal(kind, self.norm(pos), size)

    def bad(self, kind, pos, size):
        return self.BAD(Z(KINDS_.index(kind)), ze(self.norm(pos)), ze(size))

    def summary(self, kind):
        fn = BASES[kind].__dict__.get('parse')

        def parse(ip, args, kwargs):
            a = bindargs(fn, args, kwargs)
            s, n = a['stream'], a['size']
            if s is not self.stream:
                raise Unsupported('payload of another stream')
            if n is None:               # no decoder accepts that
                wander(self.c, s)
                graise(DecodeError('size'))
            v = self.value(kind, s.pos, n)
            bad = self.bad(kind, s.pos, n)
            if self.c.decide(ze(n) != 0):
                s._set('pos', self.c.fresh('after', 0))
            if self.c.decide(bad):
                graise(DecodeError('value'))
            return v
        return fn, parse

    def install(self, kinds=('Integer', 'UInteger', 'Float', 'String', 'Unicode', 'Date')):
        for k in kinds:
            fn, s = self.summary(k)
            if fn is None:
                raise Unsupported('%sElement.parse' % k)
            self.c.summaries[fn] = s


def wander(c, stream):
    """The stream may have been left anywhere."""
    stream._set('pos', c.fresh('left', 0))


SIZE = core.MasterElement.__dict__['size'].fget
MVALUE = core.MasterElement.__dict__['value'].fget


def size_contract(c, measured, error=True):
    """MasterElement.size: a declared size as is, else measured (C13)."""
    def s(ip, args, kwargs):
        o = args[0]
        v = o.attrs.get('_size', UNBOUND)
        if v is not UNBOUND:
            return v
        wander(c, o.attrs['stream'])
        m = measured(o)
        if m is None:
            graise(HeaderError('a child'))
        ip.setattr(o, '_size', m)
        ip.setattr(o, '_length', c.fresh('length', 0))
        return m
    c.summaries[SIZE] = s


# ------------------------------------------------- levels of a tree of elements

class AEl(Sym):
    """The element that parsing at position p gives."""
    def is_none(self):
        return False

    def __init__(self, t, p):
        self.t, self.p = t, p
        self.cls = self

    def seqkey(self):
        return self.p

    @property
    def pytype(self):
        raise Unsupported('class of an abstract element')

    def guest_getattr(self, ip, name):
        t, p = self.t, ze(self.p)
        if name == 'offset':
            return self.p
        if name == 'payloadOffset':
            return mki(t.PO(p))
        if name == 'size':
            return mki(t.SZ(p))
        if name == 'id':
            return mki(t.ID(p))
        if name == 'stream':
            return t.stream
        if name == 'schema':
            return t.schema
        if name in t.attrs:
            return t.attrs[name](self)
        raise Unsupported('attribute %s of an abstract element' % name)

    def guest_isinstance(self, ip, u):
        if self.t.isinstance is not None:
            return self.t.isinstance(self, u)
        raise Unsupported('class of an abstract element')

    def same_as(self, ip, o):
        return isinstance(o, AEl) and o.t is self.t and ip.c.valid(mkb(ze(o.p) == ze(self.p)))

    def ident_eq(self, o):
        return o is self

    def __eq__(self, o):
        if o is self:
            return True
        if o is None:
            return False
        raise Unsupported('comparison of elements')

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        raise Unsupported('truth of an element')

    __hash__ = Sym.__hash__


class Tree:
    """parseElement by contract (C11): what parsing at each position gives."""
    def __init__(self, c, stream, schema=None):
        self.c, self.stream, self.schema = c, stream, schema
        self.N = ze(stream.content.n)
        self.ID, self.PO, self.SZ = (fun(c, n, 'i', 'i') for n in ('ID', 'PO', 'SZ'))
        self.END, self.BADH, self.BADV, self.BADS = (fun(c, n, 'i', 'b') for n in ('END', 'BADH', 'BADV', 'BADS'))
        self.attrs, self.isinstance = {}, None

    def facts(self, p):
        p = ze(p)
        ok = z3.And(z3.Not(self.END(p)), z3.Not(self.BADH(p)))
        return z3.And(z3.Implies(p >= self.N, self.END(p)),
                      z3.Implies(z3.And(p >= 0, ok), z3.And(self.PO(p) >= p + 2, self.SZ(p) >= 0, self.ID(p) >= 0)))

    def bad(self, p, nocache):
        return self.BADH(ze(p)) if nocache else z3.Or(self.BADH(ze(p)), self.BADV(ze(p)))

    def next(self, p):
        return self.PO(ze(p)) + self.SZ(ze(p))

    def at(self, p):
        self.c.assume(self.facts(p))
        return AEl(self, p)

    def parse(self, ip, args, kwargs):
        c = self.c
        a = bindargs(core.MasterElement.parseElement, args, kwargs)
        s = a['stream']
        if s is not self.stream:
            raise Unsupported('another stream')
        p = s.pos
        c.assume(self.facts(p))
        wander(c, s)
        if c.decide(self.END(ze(p))):
            graise(TypeError('ord() expected a character, but string of length 0 found'))
        if c.decide(self.bad(p, ip.truth(a['nocache']))):
            if not c.decide(self.BADH(ze(p))):
                graise(DecodeError('bad value'))
            graise(SizeError() if c.decide(self.BADS(ze(p))) else HeaderError('bad header'))
        return AEl(self, p), mki(self.next(p))

    def install(self):
        self.c.summaries[core.MasterElement.parseElement] = self.parse


ERRORS = (HeaderError, DecodeError, SizeError)


class Level:
    """CUR(0) = start, CUR(j+1) = the position after the element at CUR(j);
    M: the first j at which reading stops (lemma_level: there is one)."""
    def __init__(self, c, t, start, end=None, nocache=False, foreign=None, CUR=None):
        self.c, self.t, self.end, self.nocache, self.foreign = c, t, end, nocache, foreign
        self.start = start
        self.CUR = CUR if CUR is not None else fun(c, 'CUR', 'i', 'i')
        self.M = c.fresh('M', 0)
        c.assume(self.CUR(Z(0)) == ze(start))
        c.forall(lambda j: z3.Implies(z3.And(0 <= j, j < ze(self.M)), self.live(j)))
        self.step(self.M)
        self.step(Z(0))
        c.skolem(Z(0))
        c.skolem(self.M)
        c.skolem(ze(self.M) - 1)
        c.assume(z3.Not(self.live(ze(self.M))))
        c.assume(self.CUR(ze(self.M)) >= ze(start) + 2 * ze(self.M))      # lemma_level

    def stop(self, j):
        """Reading ends properly before element j."""
        p = self.CUR(ze(j))
        x = [self.t.END(p)]
        if self.end is not None:
            x.append(p >= ze(self.end))
        if self.foreign is not None:
            x.append(z3.And(z3.Not(self.t.bad(p, self.nocache)), self.foreign(self.t.ID(p))))
        return z3.Or(*x)

    def live(self, j):
        p = self.CUR(ze(j))
        return z3.Not(z3.Or(self.stop(j), self.t.bad(p, self.nocache)))

    def step(self, k):
        k = ze(k)
        c = self.c
        for j in (k - 1, k):
            p = self.CUR(j)
            c.assume(self.t.facts(p))
            c.assume(z3.Implies(j >= 0, self.CUR(j + 1) == self.t.next(p)))

    def at(self, k):
        """CUR(k)."""
        self.step(k)
        self.c.skolem(ze(k))
        self.c.skolem(ze(k) - 1)
        return mki(self.CUR(ze(k)))

    def item(self, j):
        return AEl(self.t, self.at(j))

    def seq(self, n=None):
        return SSeq(self.M if n is None else n, self.item, 'level')

    def invariants(self):
        """Candidate invariants of a loop over the level."""
        c = self.c

        def ghosts(loc, sh, old, seq):
            if sh[0] == 'int':
                left = [] if self.end is None else [('the bytes from element k', lambda k: mki(ze(self.end) - ze(self.at(k))))]
                return [('the position of element k', lambda k: self.at(k)),
                        ('the position of element k-1', lambda k: self.at(k - 1)),
                        ('the bytes before element k', lambda k: mki(ze(self.at(k)) - ze(self.start)))] + left
            if sh[0] == 'list':
                return [('the elements so far', lambda k: SList(self.seq(k)))]
            return []
        c.ghosts.append(ghosts)
        c.history.append(('within the level', lambda k: k <= self.M))
        c.history.append(('two bytes a step', lambda k: mkb(ze(self.at(k)) >= ze(self.start) + 2 * ze(k))))


def lemma_level(c):
    """Reading a level ends: there is a first j at which it stops."""
    Interp(c)
    stream = SStream(opaque_bytes('content'), c.fresh('pos', 0), 'stream')
    t = Tree(c, stream)
    CUR = fun(c, 'CUR', 'i', 'i')
    j, start = c.fresh('j', 0), c.fresh('start', 0)
    p = CUR(j.e)
    c.assume(t.facts(p))
    c.assume(z3.Not(t.END(p)))
    c.assume(z3.Not(t.BADH(p)))
    c.assume(CUR(j.e + 1) == t.next(p))
    c.prove(mkb(z3.Implies(j.e == 0, z3.Implies(p == start.e, p >= start.e + 2 * j.e))), 'base: two bytes for every element so far')
    c.assume(p >= start.e + 2 * j.e)          # hypothesis
    c.prove(mkb(CUR(j.e + 1) >= start.e + 2 * (j.e + 1)), 'step: two bytes for every element so far')
    c.prove(mkb(2 * j.e < t.N), 'so an element that is read has a number below half of the length of the data')
    c.cover('end')

"""Encoding seen from above: values are opaque, payloads any byte strings."""
from .base import *
from .tree import fun, Z, known
from pyvc.interp import UNBOUND

BASES = dict(i=core.IntegerElement, u=core.UIntegerElement, f=core.FloatElement, s=core.StringElement, U=core.UnicodeElement,
             d=core.DateElement, b=core.BinaryElement, v=core.VoidElement, m=core.MasterElement)
MAXPAY = 2 ** 56 - 2


class Val(Sym):
    """A value to encode, of any type but those of `no`."""
    def __init__(self, name='value', yes=(), no=(list, tuple), **more):
        self.name, self.yes, self.no = name, yes, no
        for k, v in more.items():
            setattr(self, k, v)

    @property
    def pytype(self):
        raise Unsupported('type of an abstract value')

    def is_none(self):
        return False

    def guest_isinstance(self, ip, u):
        for x in u if isinstance(u, tuple) else (u,):
            if x in self.yes or x is object:
                return True
            if x not in self.no:
                raise Unsupported('type of an abstract value')
        return False

    def guest_type(self, ip):
        return SOpaque(object, 'type of ' + self.name)

    def __bool__(self):
        raise Unsupported('truth of an abstract value')

    def __eq__(self, o):
        if o is self:
            return True
        if o is None:
            return False
        raise Unsupported('comparison of abstract values')

    def ident_eq(self, o):
        if isinstance(o, Val):
            if o is self:
                return True
            raise Unsupported('identity of abstract values')
        return False

    def same_as(self, ip, o):
        return o is self

    __hash__ = Sym.__hash__


class Refused(ValueError):
    """What encoding a value that cannot be encoded raises."""


class Items:
    """Things that each encode to a byte string or are refused. Item k gives
    bytes CL(k) to CL(k + 1) of ALL."""
    def __init__(self, c, n, label='items', can_fail=True):
        self.c, self.n = c, n
        self.CL, self.BAD, self.FINE = fun(c, 'END', 'i', 'i'), fun(c, 'BAD', 'i', 'b'), fun(c, 'FINE', 'i', 'b')
        self.all = opaque_bytes('ALL')
        self.at = self.all.segs[0].d
        self.can_fail = can_fail
        c.assume(self.CL(Z(0)) == 0)
        c.assume(self.FINE(Z(0)))
        c.forall(lambda j: z3.Implies(z3.And(self.FINE(ze(n)), 0 <= j, j < ze(n)), z3.Not(self.BAD(j))))

        def ghosts(loc, sh, old, seq):
            if sh[0] == 'rope':
                return [('encoded so far', lambda k: self.upto(k)),
                        ('encoded so far, after what was there', lambda k: rope(old) + self.upto(k) if isinstance(old, (bytes, SRope)) else self.upto(k))]
            return []
        c.ghosts.append(ghosts)
        c.history.append(('no item was refused so far', lambda k: mkb(self.fine(k))))

    def step(self, k):
        k = ze(k)
        for j in (k - 1, k):
            self.c.skolem(j)
            self.c.assume(z3.Implies(j >= 0, z3.And(self.CL(j + 1) >= self.CL(j), self.CL(j) >= 0,
                                                    self.FINE(j + 1) == z3.And(self.FINE(j), z3.Not(self.BAD(j))))))
        return k

    def fine(self, k):
        return self.FINE(self.step(k))

    def part(self, a, b):
        a, b = self.CL(self.step(a)), self.CL(self.step(b))
        at = self.at
        return SRope('bytes', [Seg.fun(mki(b - a), lambda i: at(i + a))])

    def upto(self, k):
        return self.part(0, k)

    def encode(self, k):
        """What encoding item k does."""
        self.step(k)
        if self.can_fail and self.c.decide(self.BAD(ze(k))):
            graise(Refused('item'))
        return self.part(k, k + 1)

    def finish(self, got, label, convert=lambda x: x, prefix=None):
        """All items, in order, or an error if one is refused."""
        c = self.c
        if got[0] == 'exc':
            c.prove(mkb(z3.Not(self.fine(self.n))), label + ': raises only if an item is refused')
            c.prove(isinstance(got[1], Refused), label + ': raises what the item raises')
            c.cover('an item is refused')
            return
        c.prove(mkb(self.fine(self.n)), label + ': an item that is refused is not skipped')
        r = convert(got[1])
        if not isinstance(r, (bytes, bytearray, SRope, SByteArray)):
            c.prove(False, label + ': a byte string')
            return
        c.prove_rope(r, self.upto(self.n) if prefix is None else cat(prefix, self.upto(self.n)), label + ': all items, in order')
        c.cover('all items')


def isnone(x):
    return x is None


def same_opt(a, b):
    """Two optional integers are the same (as a proposition)."""
    if a is None or b is None:
        return a is b
    if not isint(a) or not isint(b):
        return False
    return mkb(ze(a) == ze(b))


def options(c):
    """Options of encode."""
    length = c.case('length', None, lambda: c.fresh('length', 0))
    ls = c.case('lengthSize', None, -1, lambda: c.fresh('lengthSize', 1, 8))
    inf = c.case('infinite', False, True)
    c.inputs.update(length=length, lengthSize=ls, infinite=inf)
    return length, ls, inf


def element_class(c, kind, **more):
    length = c.case('length in the schema', None, lambda: c.fresh('fixed', 0))
    attrs = dict(id=c.fresh('id', 0, 2 ** 32 - 1), name=SOpaque(str, 'name'), length=length, multiple=c.fresh_bool('multiple'),
                 schema=SOpaque(object, 'schema'))
    attrs.update(mandatory=c.fresh_bool('mandatory'), precache=c.fresh_bool('precache'))
    attrs.update(more)
    cls = SClass(BASES[kind], attrs, 'Sub')

    def lazy(name):
        if any(name in k.__dict__ for k in BASES[kind].__mro__):
            return UNBOUND
        raise Unsupported('attribute %s of an element class' % name)
    cls.lazy = lazy
    return cls


PAYLOADS = {fn_of(k, 'encodePayload') for k in BASES.values()} | {fn_of(core.Element, 'encodePayload')}


def on_payload(c, f):
    """Calls of encodePayload: f(data, length)."""
    for fn in PAYLOADS:
        def s(ip, args, kwargs, fn=fn):
            a = bindargs(fn, args, kwargs)
            return f(a['data'], a.get('length'))
        c.summaries[fn] = s


class Descriptors:
    """encodeId and encodeSize: functions of their arguments that give byte
    strings or errors (C01, C02 say which)."""
    def __init__(self, c, eid, ls, inf):
        self.c, self.eid, self.ls, self.inf = c, eid, ls, inf
        self.ids, self.sizes = opaque_bytes('ID'), None
        self.size = None

        def on_id(ip, args, kwargs):
            a = bindargs(encoding.encodeId, args, kwargs)
            if a['length'] is not None:
                raise Unsupported('length of an ID')
            return self.encodeId(a['eid'])

        def on_size(ip, args, kwargs):
            a = bindargs(encoding.encodeSize, args, kwargs)
            return self.encodeSize(a['val'], a['length'])
        c.summaries[encoding.encodeId] = on_id
        c.summaries[encoding.encodeSize] = on_size

    def encodeId(self, eid):
        self.c.prove(same_opt(eid, self.eid), "the element's own ID is encoded")
        return self.ids

    def encodeSize(self, n, ls):
        c = self.c
        auto = lambda x: x is None or isint(x) and c.valid(mkb(ze(x) == -1))
        c.prove((n is None) == self.inf, 'the size is unknown only for an infinite element')
        c.prove(auto(ls) and auto(self.ls) or same_opt(ls, self.ls), 'the length of the size descriptor is the one asked for')
        if self.size is None:
            self.size = n, bool(c.fresh_bool('size refused')), opaque_bytes('SIZE', 1)
        elif n is not None and self.size[0] is not None:
            c.prove(same_opt(n, self.size[0]), 'the declared size is that of the payload')
        if self.size[1]:
            graise(Refused('the size'))
        return self.size[2]

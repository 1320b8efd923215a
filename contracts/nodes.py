"""Trees of elements seen from above: an element is known by its children
(what iterating it gives, C12), its class and what its value or dump gives."""
import ast
from .base import *
from .tree import fun, Z, DecodeError, HeaderError, known
from pyvc.models import Cell
from pyvc.interp import SList, UNBOUND


class Nodes:
    def __init__(self, c):
        self.c, self.ip = c, Interp(c)
        b = 'b'
        self.M, self.CH = fun(c, 'NCHILDREN', 'i', 'i'), fun(c, 'CHILD', 'i', 'i', 'i')
        self.MASTER, self.UNKNOWN, self.DOC, self.ERR, self.NOVALUE = (fun(c, n, 'i', b) for n in ('MASTER', 'UNKNOWN', 'DOCUMENT', 'CHILDERR', 'NOVALUE'))
        self.attrs = {}
        self.types = {}
        self.serial = 0

    def facts(self, x):
        return z3.And(self.M(x) >= 0, z3.Implies(self.UNKNOWN(x), z3.Not(self.MASTER(x))), z3.Implies(self.DOC(x), self.MASTER(x)))

    def node(self, x=None, **more):
        if x is None:
            x = self.c.fresh('element').e
        self.c.assume(self.facts(x))
        n = Node(self, x)
        for k, v in more.items():
            setattr(n, k, v)
        return n

    def child(self, n, k):
        return self.node(self.CH(n.x, ze(k)), k=k)

    def children(self, n):
        """Iterating it: its children, then maybe an error."""
        c = self.c
        seq = SSeq(mki(self.M(n.x)), lambda k: self.child(n, k), 'children')
        if c.decide(self.ERR(n.x)):
            def start(h):
                each(self.ip, seq, h)
                graise(HeaderError('a child'))
            return SGen(start)
        return seq


def each(ip, seq, h):
    """h(item) for every item, as a loop."""
    cell = Cell(None)
    fr = ip.c.frames[-1]
    node = ast.Pass(lineno=0, col_offset=0)

    def body():
        h(ip.nojunk(fr.env['.each']))
    ip.loop_over(seq, node, fr, lambda v: fr.env.__setitem__('.each', v), body, lambda: None)


class Node(Sym):
    def __init__(self, w, x):
        self.w, self.x = w, x
        self.cls = self

    def is_none(self):
        return False

    def seqkey(self):
        return mki(self.x)

    @property
    def pytype(self):
        raise Unsupported('class of an abstract element')

    def guest_iter(self, ip):
        if not self.w.c.decide(self.w.MASTER(self.x)):
            raise Unsupported('iteration over an element without children')
        return self.w.children(self)

    def guest_len(self, ip):
        raise Unsupported('number of children')

    def guest_getattr(self, ip, name):
        w = self.w
        if name in w.attrs:
            return w.attrs[name](self)
        if name == '__iter__':
            return Thunk(lambda *a, **k: self.guest_iter(ip))
        raise Unsupported('attribute %s of an abstract element' % name)

    def guest_hasattr(self, ip, name):
        if name in ('value', 'id', 'name', 'schema', 'multiple', 'dump'):
            return True
        raise Unsupported('hasattr %s' % name)

    def guest_isinstance(self, ip, u):
        w = self.w
        us = u if isinstance(u, tuple) else (u,)
        out = []
        for u in us:
            if u in w.types:
                out.append(w.types[u](self.x))
            elif u is core.MasterElement:
                out.append(w.MASTER(self.x))
            elif u is core.UnknownElement:
                out.append(w.UNKNOWN(self.x))
            elif u is core.Document:
                out.append(w.DOC(self.x))
            elif u is core.Element or u is object:
                return True
            else:
                raise Unsupported('class of an abstract element')
        return mkb(z3.Or(*out))

    def same_as(self, ip, o):
        return isinstance(o, Node) and o.w is self.w and ip.c.valid(self.x == o.x)

    def ident_eq(self, o):
        if o is self:
            return True
        raise Unsupported('identity of elements')

    def __eq__(self, o):
        if o is self:
            return True
        if o is None:
            return False
        raise Unsupported('comparison of elements')

    def __ne__(self, o):
        return not self == o

    def __bool__(self):
        raise Unsupported('truth of an element')

    __hash__ = Sym.__hash__


class Thunk(Sym):
    def __init__(self, f):
        self.f = f

    def guest_call(self, ip, args, kwargs):
        return self.f(*args, **kwargs)


def guess(c):
    """Obligations about a contract this module chose for an inner function: the
    function may be right without meeting it, so that nothing is refuted."""
    return lambda cond, label: c.prove(cond, 'inner function: ' + label, guess=True)

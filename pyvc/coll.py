"""Abstract collections given by predicates."""
import z3
from . import values as V
from .values import Sym, Unsupported, graise, ze, zb, mki, mkb, isint
from . import interp as I


class SPred(Sym):
    """A set of integers (of any size) given by its characteristic predicate."""
    pytype = set

    def __init__(self, pred, name='set'):
        self.pred, self.name = pred, name

    def guest_contains(self, ip, x):
        if not isint(x):
            return False
        return mkb(self.pred(ze(x)))

    def guest_iter(self, ip):
        s = I.SSeq(None, self._noitem, self.name)
        s.pred = self.pred
        return s

    def _noitem(self, k):
        raise Unsupported('an item of the abstract set %s' % self.name)

    def __bool__(self):
        raise Unsupported('truth of an abstract set')

    def _others(self, o):
        """Predicate of any iterable of integers."""
        ip = V.CTX.interp
        if isinstance(o, SPred):
            return o.pred
        it = ip.iterate(o)
        if isinstance(it, I.SSeq):
            if not hasattr(it, 'pred'):
                raise Unsupported('set of %r' % (it.name,))
            return it.pred
        if isinstance(it, list):
            items = [ze(x) for x in it if isint(x)]
            return lambda x: z3.Or(*[x == i for i in items]) if items else z3.BoolVal(False)
        raise Unsupported('set of a generator')

    def m_union(self, *os):
        r = self
        for o in os:
            a, b = r.pred, self._others(o)
            r = SPred((lambda a, b: lambda x: z3.Or(a(x), b(x)))(a, b), self.name)
        return r

    def m_difference(self, *os):
        r = self
        for o in os:
            a, b = r.pred, self._others(o)
            r = SPred((lambda a, b: lambda x: z3.And(a(x), z3.Not(b(x))))(a, b), self.name)
        return r

    def m_intersection(self, *os):
        r = self
        for o in os:
            a, b = r.pred, self._others(o)
            r = SPred((lambda a, b: lambda x: z3.And(a(x), b(x)))(a, b), self.name)
        return r

    def m_copy(self):
        return SPred(self.pred, self.name)

    m___or__ = m_union
    m___and__ = m_intersection
    m___sub__ = m_difference

    def __or__(self, o):
        return self.m_union(o)

    def __and__(self, o):
        return self.m_intersection(o)

    def __sub__(self, o):
        return self.m_difference(o)

    def __ror__(self, o):
        return self.m_union(o)

    def m_keys(self):
        return self

    def m_update(self, *os):
        self.pred = self.m_union(*os).pred

    def m_add(self, x):
        p, e = self.pred, ze(x)
        self.pred = lambda y: z3.Or(p(y), y == e)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('comparison of abstract sets')

    def __ne__(self, o):
        return not self == o

    __hash__ = Sym.__hash__


def install(c):
    def set_of_seq(ip, s):
        if hasattr(s, 'pred'):
            return SPred(s.pred, s.name)
        raise Unsupported('set of a symbolic sequence')
    c.models['set_of_seq'] = set_of_seq

"""Symbolic values (proxies) and the proof context.

A proxy stands for *every* Python value of its type that satisfies the current
path condition.  Guest exceptions travel as GuestExc so that an error inside
the engine can never be mistaken for an exception of the verified code.
"""
import time
import z3

INT = z3.IntSort()


class PathAbort(BaseException):
    """This path is infeasible or its work is done."""


class Unsupported(BaseException):
    """The code left the subset that the engine interprets."""


class GuestExc(BaseException):
    """An exception of the verified program."""
    def __init__(self, exc, info=None):
        self.exc = exc
        self.info = info


def graise(exc, info=None):
    raise GuestExc(exc, info)


CTX = None          # the active context


def ctx():
    return CTX


# --------------------------------------------------------------------------- terms

def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    """Base of all proxies."""
    pytype = object

    def __hash__(self):
        return id(self)


def ze(x):
    """z3 integer term of a number-like value."""
    if isinstance(x, bool):
        return z3.IntVal(1 if x else 0)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SInt):
        return x.e
    if isinstance(x, SBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported('not an integer: %r' % (x,))


def zb(x):
    """z3 Boolean term of a truth value."""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (SInt, int)):
        return ze(x) != 0
    raise Unsupported('not a Boolean: %r' % (x,))


def mki(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e)


def mkb(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def And(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    return mkb(z3.And(*[zb(x) for x in xs])) if xs else True


def Or(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    return mkb(z3.Or(*[zb(x) for x in xs])) if xs else False


def Not(x):
    return (not x) if isinstance(x, bool) else mkb(z3.Not(zb(x)))


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    """Integer if-then-else."""
    if isinstance(c, bool):
        return a if c else b
    return mki(z3.If(zb(c), ze(a), ze(b)))


def smin(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return Ite(mkb(ze(a) <= ze(b)), a, b)


def smax(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return Ite(mkb(ze(a) >= ze(b)), a, b)


def isint(x):
    return isinstance(x, (int, SInt, SBool))


class SBool(Sym):
    __slots__ = ('e',)
    pytype = bool

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return CTX.decide(self.e)

    def _i(self):
        return mki(ze(self))

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkb(zb(self) == zb(o))
        return self._i() == o

    def __ne__(self, o):
        return Not(self == o)

    def __and__(self, o):
        return And(self, o) if isinstance(o, (bool, SBool)) else self._i() & o

    def __or__(self, o):
        return Or(self, o) if isinstance(o, (bool, SBool)) else self._i() | o
    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, o):
        return Not(self == o)

    def __add__(self, o):
        return self._i() + o
    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    __hash__ = Sym.__hash__

    def __repr__(self):
        return 'SBool(%s)' % self.e


def _mask(x, m):
    """x & m for a constant m >= 0."""
    if m == 0:
        return 0
    out = None
    lo = 0
    while m >> lo:
        if not (m >> lo) & 1:
            lo += 1
            continue
        hi = lo
        while (m >> hi) & 1:
            hi += 1
        t = x if lo == 0 else x / z3.IntVal(1 << lo)
        t = t % z3.IntVal(1 << (hi - lo))
        if lo:
            t = t * (1 << lo)
        out = t if out is None else out + t
        lo = hi
    return mki(out)


class SInt(Sym):
    __slots__ = ('e',)
    pytype = int

    def __init__(self, e):
        self.e = e

    __hash__ = Sym.__hash__

    def __repr__(self):
        return 'SInt(%s)' % self.e

    def __bool__(self):
        return CTX.decide(self.e != 0)

    def __index__(self):
        raise Unsupported('symbolic integer used as a host index')

    __int__ = __index__

    def _num(self, o):
        return isinstance(o, (int, SInt, SBool))

    def __add__(self, o):
        return mki(self.e + ze(o)) if self._num(o) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        return mki(self.e - ze(o)) if self._num(o) else NotImplemented

    def __rsub__(self, o):
        return mki(ze(o) - self.e) if self._num(o) else NotImplemented

    def __mul__(self, o):
        if isinstance(o, SRope):
            return o * self
        return mki(self.e * ze(o)) if self._num(o) else NotImplemented

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return mki(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return Ite(self >= 0, self, -self)

    def __invert__(self):
        return mki(-self.e - 1)

    def _div(self, a, b):
        if isinstance(b, int):
            if b == 0:
                graise(ZeroDivisionError('integer division or modulo by zero'))
            if b > 0:
                return mki(ze(a) / z3.IntVal(b)), mki(ze(a) % z3.IntVal(b))
            q, r = self._div(-1 * a, -b)
            return q, -1 * r
        # symbolic divisor
        if CTX.decide(ze(b) == 0):
            graise(ZeroDivisionError('integer division or modulo by zero'))
        if not CTX.decide(ze(b) > 0):
            raise Unsupported('division by a negative symbolic number')
        return mki(ze(a) / ze(b)), mki(ze(a) % ze(b))

    def __floordiv__(self, o):
        return self._div(self, o)[0] if self._num(o) else NotImplemented

    def __rfloordiv__(self, o):
        return self._div(o, self)[0]

    def __mod__(self, o):
        return self._div(self, o)[1] if self._num(o) else NotImplemented

    def __rmod__(self, o):
        if isinstance(o, int):
            return self._div(o, self)[1]
        return NotImplemented

    def __divmod__(self, o):
        return self._div(self, o)

    def __lshift__(self, o):
        if isinstance(o, SInt):
            o = CTX.concretize(o)
        if o < 0:
            graise(ValueError('negative shift count'))
        return self * (1 << o)

    def __rshift__(self, o):
        if isinstance(o, SInt):
            o = CTX.concretize(o)
        if o < 0:
            graise(ValueError('negative shift count'))
        return self // (1 << o)

    def __rlshift__(self, o):
        return o << CTX.concretize(self)

    def __rrshift__(self, o):
        return o >> CTX.concretize(self)

    def __pow__(self, o, m=None):
        if isinstance(o, int) and 0 <= o <= 4 and m is None:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        raise Unsupported('symbolic power')

    def __rpow__(self, o):
        return o ** CTX.concretize(self)

    def __and__(self, o):
        if isinstance(o, SBool):
            o = o._i()
        if isinstance(o, SInt):
            o = CTX.concretize(o)
        if not isinstance(o, int):
            return NotImplemented
        if o >= 0:
            return _mask(self.e, o)
        return self - _mask(self.e, ~o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, SBool):
            o = o._i()
        if isinstance(o, SInt):
            o = CTX.concretize(o)
        if not isinstance(o, int):
            return NotImplemented
        return self + o - (self & o)
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, SInt):
            o = CTX.concretize(o)
        if not isinstance(o, int):
            return NotImplemented
        return self + o - 2 * (self & o)
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, float):
            return mkb(self.e == int(o)) if o.is_integer() else False
        return mkb(self.e == ze(o)) if self._num(o) else False

    def __ne__(self, o):
        return Not(self == o)

    def _cmp(self, o, f):
        if not self._num(o):
            return NotImplemented
        return mkb(f(self.e, ze(o)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    # methods of int
    def m_bit_length(self):
        lim = 72
        if not CTX.valid(z3.And(self.e < (1 << lim), self.e > -(1 << lim))):
            raise Unsupported('bit_length of an unbounded integer')
        a = z3.If(self.e >= 0, self.e, -self.e)
        return mki(z3.Sum([z3.If(a >= (1 << k), 1, 0) for k in range(lim)]))

    def m_to_bytes(self, length=1, byteorder='big', signed=False):
        length = CTX.concretize(length)
        lo, hi = (-(1 << (8 * length - 1)) if length else 0, (1 << (8 * length - 1)) if length else 1) \
            if signed else (0, 1 << (8 * length))
        if not CTX.decide(z3.And(self.e >= lo, self.e < hi)):
            graise(OverflowError("int too big to convert"))
        v = int_to_vec(self.e, length, signed)
        if byteorder == 'little':
            v = v[::-1]
        elif byteorder != 'big':
            raise Unsupported('byte order')
        return SRope('bytes', [Seg.vec(v)])

    def m_conjugate(self):
        return self

    def m___index__(self):
        return self

    m___int__ = m___index__

    def m_is_integer(self):
        return True

    @property
    def a_real(self):
        return self

    def conc(self, model):
        return model.eval(self.e, model_completion=True).as_long()


def int_to_vec(e, length, signed=False):
    """Big-endian bytes of e, which the caller has shown to fit."""
    bs = [CTX.fresh('byte', 0, 255).e for _ in range(length)]
    total = z3.Sum([b * (256 ** (length - 1 - i)) for i, b in enumerate(bs)]) if bs else z3.IntVal(0)
    if signed and length:
        val = z3.If(e < 0, e + 256 ** length, e)
    else:
        val = e
    CTX.assume(val == total)
    return bs


def vec_to_int(v, signed=False):
    n = len(v)
    if n == 0:
        return 0
    t = z3.Sum([b * (256 ** (n - 1 - i)) for i, b in enumerate(v)])
    if signed:
        t = z3.If(v[0] >= 128, t - 256 ** n, t)
    return mki(t)


# --------------------------------------------------------------------------- ropes

class Seg:
    """A run of bytes or code points: constant ('c'), listed ('v') or given by
    a function of the index ('f')."""
    __slots__ = ('k', 'd', 'n', 'tag')

    def __init__(self, k, d, n, tag=None):
        self.k, self.d, self.n, self.tag = k, d, n, tag

    @staticmethod
    def const(vals):
        vals = tuple(vals)
        return Seg('c', vals, len(vals))

    @staticmethod
    def vec(es):
        es = list(es)
        if all(z3.is_int_value(e) for e in es):
            return Seg.const(e.as_long() for e in es)
        return Seg('v', es, len(es))

    @staticmethod
    def fun(n, f, tag=None):
        if isinstance(n, SInt):
            n = n
        return Seg('f', f, n, tag)

    def at(self, i):
        """z3 term of element i (i: int or z3 term), 0 <= i < n assumed."""
        if self.k == 'f':
            return self.d(i if isinstance(i, z3.ExprRef) else z3.IntVal(i))
        if isinstance(i, int):
            x = self.d[i]
            return z3.IntVal(x) if self.k == 'c' else x
        if z3.is_int_value(i):
            j = i.as_long()
            if 0 <= j < self.n:
                return self.at(j)
            return z3.IntVal(0)
        if self.k == 'c' and len(set(self.d)) == 1:
            return z3.IntVal(self.d[0])
        r = self.at(self.n - 1)
        for j in range(self.n - 2, -1, -1):
            r = z3.If(i == j, self.at(j), r)
        return r


def _norm(segs):
    out = []
    for s in segs:
        if isinstance(s.n, int) and s.n <= 0:
            continue
        if out and out[-1].k == 'c' and s.k == 'c':
            out[-1] = Seg('c', out[-1].d + s.d, out[-1].n + s.n)
        elif out and out[-1].k in 'cv' and s.k in 'cv':
            a = out[-1]
            out[-1] = Seg('v', [a.at(i) for i in range(a.n)] + [s.at(i) for i in range(s.n)], a.n + s.n)
        else:
            out.append(s)
    return out


def rope(x):
    """Lift a host bytes/str to a rope."""
    if isinstance(x, SRope):
        return x
    if isinstance(x, SByteArray):
        return x.val
    if isinstance(x, (bytes, bytearray)):
        return SRope('bytes', [Seg.const(x)])
    if isinstance(x, str):
        return SRope('str', [Seg.const(ord(c) for c in x)])
    raise Unsupported('not a byte string or text: %r' % (x,))


class SRope(Sym):
    """Immutable sequence of bytes (kind 'bytes') or characters (kind 'str')."""
    __slots__ = ('kind', 'segs', 'src')

    def __init__(self, kind, segs, src=None):
        self.kind = kind
        self.segs = _norm(segs)
        self.src = src

    __hash__ = Sym.__hash__

    @property
    def pytype(self):
        return bytes if self.kind == 'bytes' else str

    def __repr__(self):
        return 'SRope(%s,%s)' % (self.kind, [(s.k, s.n, s.d if s.k != 'f' else s.tag) for s in self.segs])

    # length -----------------------------------------------------------
    @property
    def n(self):
        t = 0
        for s in self.segs:
            t = t + s.n
        return t

    def size(self):
        """Length as a host int if the path condition fixes it."""
        n = self.n
        if isinstance(n, int):
            return n
        return CTX.fixed(n)

    def __len__(self):
        n = self.size()
        if n is None:
            raise Unsupported('host len() of a symbolic sequence')
        return n

    def __bool__(self):
        n = self.n
        return n != 0 if isinstance(n, int) else CTX.decide(n.e != 0)

    def at(self, i):
        """z3 term of the element at index i (assumed in range)."""
        if isinstance(i, SInt):
            i = i.e
        if isinstance(i, int):
            off = 0
            for k, s in enumerate(self.segs):
                if not isinstance(s.n, int):
                    return self._at_sym(z3.IntVal(i) - off, k)
                if i < off + s.n:
                    return s.at(i - off)
                off += s.n
            return z3.IntVal(0)
        return self._at_sym(i, 0)

    def _at_sym(self, i, k):
        if k >= len(self.segs):
            return z3.IntVal(0)
        s = self.segs[k]
        if k == len(self.segs) - 1:
            return s.at(i)
        return z3.If(i < ze(s.n), s.at(i), self._at_sym(i - ze(s.n), k + 1))

    def vec(self, maxlen=64):
        """The elements as a list of z3 terms, once the length is fixed."""
        n = self.size()
        if n is None:
            n = CTX.concretize(self.n, maxlen)
        return [self.at(i) for i in range(n)]

    def get(self, i):
        n = self.n
        if not isint(i):
            raise Unsupported('index %r' % (i,))
        if isinstance(i, SInt) or not isinstance(n, int):
            if CTX.decide(z3.And(ze(i) >= -ze(n), ze(i) < ze(n))):
                if isinstance(i, int):
                    j = i if i >= 0 else n + i
                else:
                    j = Ite(i >= 0, i, n + i)
                return self.wrap1(self.at(j))
            graise(IndexError('index out of range'))
        if not -n <= i < n:
            graise(IndexError('index out of range'))
        return self.wrap1(self.at(i if i >= 0 else n + i))

    def wrap1(self, e):
        if self.kind == 'bytes':
            return mki(e)
        return SRope('str', [Seg.vec([e])]).lower()

    def lower(self):
        """Host value if entirely constant."""
        if all(s.k == 'c' for s in self.segs):
            d = [x for s in self.segs for x in s.d]
            return bytes(d) if self.kind == 'bytes' else ''.join(map(chr, d))
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.slice(i.start, i.stop, i.step)
        return self.get(i)

    def slice(self, a, b, step=None):
        n = self.n
        if step not in (None, 1):
            if step == -1 and a is None and b is None:
                k = self.size()
                if k is not None:
                    return SRope(self.kind, [Seg.vec(self.vec()[::-1])]).lower()
            raise Unsupported('slice step')
        a, b = norm_slice(a, b, n)
        if isinstance(a, int) and isinstance(b, int) and isinstance(n, int):
            out, off = [], 0
            for s in self.segs:
                lo, hi = max(a - off, 0), min(b - off, s.n)
                if lo < hi:
                    if s.k == 'c':
                        out.append(Seg('c', s.d[lo:hi], hi - lo))
                    elif s.k == 'v':
                        out.append(Seg('v', s.d[lo:hi], hi - lo))
                    else:
                        out.append(Seg.fun(hi - lo, (lambda f, lo: lambda i: f(i + lo))(s.d, lo), s.tag))
                off += s.n
            return SRope(self.kind, out).lower()
        m = smax(b - a, 0)
        if isinstance(a, int) and a == 0 and isinstance(b, SInt) and isinstance(n, SInt) and z3.eq(z3.simplify(b.e), z3.simplify(n.e)):
            return self
        fm = m if isinstance(m, int) else CTX.fixed(m)
        if fm is not None and fm <= 16:
            return SRope(self.kind, [Seg.vec([self.at(a + j) for j in range(fm)])]).lower()
        at = self.at
        za = ze(a)
        return SRope(self.kind, [Seg.fun(m, lambda i: at(i + za))])

    # operators ----------------------------------------------------------
    def __add__(self, o):
        if isinstance(o, SByteArray):
            o = o.val
        if isinstance(o, SRope) or isinstance(o, (bytes, bytearray, str)):
            o = rope(o)
            if o.kind != self.kind:
                graise(TypeError("can't concat %s to %s" % (o.kind, self.kind)))
            return SRope(self.kind, self.segs + o.segs).lower()
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, (bytes, bytearray, str)):
            return rope(o) + self
        return NotImplemented

    def __mul__(self, k):
        if isinstance(k, SBool):
            k = k._i()
        if isinstance(k, int):
            return SRope(self.kind, self.segs * max(k, 0)).lower()
        if isinstance(k, SInt):
            n = self.size()
            if n == 1:
                e = self.at(0)
                return SRope(self.kind, [Seg.fun(smax(k, 0), lambda i: e)])
            raise Unsupported('repetition of a longer sequence')
        return NotImplemented
    __rmul__ = __mul__

    def eq(self, o):
        """Equality as a Boolean; needs one side of fixed length."""
        o = rope(o)
        if o.kind != self.kind:
            return False
        a, b = self.n, o.n
        k = a if isinstance(a, int) else b if isinstance(b, int) else None
        if k is None:
            if self is o:
                return True
            k = self.size()
            if k is None:
                k = o.size()
        if k is None:
            raise Unsupported('equality of two unbounded sequences')
        if isinstance(a, int) and isinstance(b, int) and a != b:
            return False
        cs = [z3.simplify(self.at(i) == o.at(i)) for i in range(k)]
        if not isinstance(a, int) or not isinstance(b, int):
            cs.append(ze(a) == ze(b))
        return mkb(z3.And(*cs)) if cs else True

    def __eq__(self, o):
        if isinstance(o, (SRope, SByteArray, bytes, bytearray, str)):
            return self.eq(o)
        return False

    def __ne__(self, o):
        return Not(self == o)

    def has(self, x):
        """x in self, for a single element."""
        if isinstance(x, (str, bytes, SRope)):
            r = rope(x)
            k = r.size()
            if k == 0:
                return True
            if k != 1:
                raise Unsupported('substring search')
            x = r.at(0)
        else:
            x = ze(x)
        n = self.size()
        if n is not None and n <= 64:
            return Or(*[mkb(self.at(i) == x) for i in range(n)])
        return self.first(lambda c: c == x) < self.n

    def first(self, pred):
        """Index of the first element satisfying pred, or the length."""
        n = self.n
        k = CTX.fresh('first', 0)
        CTX.assume(k.e <= ze(n))
        CTX.assume(z3.Implies(k.e < ze(n), pred(self.at(k.e))))
        at = self.at
        CTX.forall(lambda i: z3.Implies(z3.And(i >= 0, i < k.e), z3.Not(pred(at(i)))))
        CTX.skolem(k.e)
        return k

    # methods -----------------------------------------------------------
    def _pad(self, p, default):
        p = rope(default if p is None else p)
        if p.size() != 1:
            graise(TypeError('The fill character must be exactly one character long'))
        return p.at(0)

    def m_rjust(self, w, fill=None):
        e = self._pad(fill, b' ' if self.kind == 'bytes' else ' ')
        m = smax(w - self.n, 0)
        return SRope(self.kind, [Seg.vec([e] * m) if isinstance(m, int) else Seg.fun(m, lambda i: e)] + self.segs).lower()

    def m_ljust(self, w, fill=None):
        e = self._pad(fill, b' ' if self.kind == 'bytes' else ' ')
        m = smax(w - self.n, 0)
        return SRope(self.kind, self.segs + [Seg.vec([e] * m) if isinstance(m, int) else Seg.fun(m, lambda i: e)]).lower()

    def m_zfill(self, w):
        return self.m_rjust(w, b'0' if self.kind == 'bytes' else '0')

    def _stripset(self, chars):
        if chars is None:
            cs = [9, 10, 11, 12, 13, 32]
            if self.kind == 'str':
                cs += [28, 29, 30, 31, 133, 160]
        else:
            cs = [c for s in rope(chars).segs for c in s.d] if not is_sym(chars) else None
            if cs is None:
                raise Unsupported('symbolic strip set')
        return lambda e: z3.Or(*[e == c for c in cs]) if cs else z3.BoolVal(False)

    def m_lstrip(self, chars=None):
        p = self._stripset(chars)
        n = self.size()
        if n is None or n > 64:
            k = self.first(lambda e: z3.Not(p(e)))
            return self.slice(k, None)
        v = self.vec()
        i = 0
        while i < n and CTX.decide(p(v[i])):
            i += 1
        return SRope(self.kind, [Seg.vec(v[i:])]).lower()

    def m_rstrip(self, chars=None):
        p = self._stripset(chars)
        n = self.size()
        if n is None or n > 64:
            m = self.n
            k = CTX.fresh('last', 0)
            CTX.assume(k.e <= ze(m))
            CTX.assume(z3.Implies(k.e > 0, z3.Not(p(self.at(k.e - 1)))))
            at = self.at
            CTX.forall(lambda i: z3.Implies(z3.And(i >= k.e, i < ze(m)), p(at(i))))
            CTX.skolem(k.e)
            return self.slice(0, k)
        v = self.vec()
        i = n
        while i > 0 and CTX.decide(p(v[i - 1])):
            i -= 1
        return SRope(self.kind, [Seg.vec(v[:i])]).lower()

    def m_strip(self, chars=None):
        r = self.m_lstrip(chars)
        return rope(r).m_rstrip(chars)

    def m_partition(self, sep):
        r = rope(sep)
        if r.size() != 1:
            raise Unsupported('partition by a longer separator')
        c = r.at(0)
        n = self.size()
        if n is not None and n <= 16:
            v = self.vec()
            for i in range(n):
                if CTX.decide(v[i] == c):
                    return (self.slice(0, i), sep, self.slice(i + 1, n))
            return (self.lower(), b'' if self.kind == 'bytes' else '', b'' if self.kind == 'bytes' else '')
        k = self.first(lambda e: e == c)
        found = CTX.decide(k.e < ze(self.n))
        if found:
            return (self.slice(0, k), sep, self.slice(k + 1, None))
        e = b'' if self.kind == 'bytes' else ''
        return (self, e, e)

    def m_split(self, sep=None, maxsplit=-1):
        if maxsplit == 1 and sep is not None:
            a, s, b = self.m_partition(sep)
            return [a, b] if rope(s).size() else [a]
        raise Unsupported('split')

    def m_find(self, sub, *r):
        if r:
            raise Unsupported('find with bounds')
        x = rope(sub) if not isint(sub) else None
        if x is not None and x.size() != 1:
            raise Unsupported('find of a longer string')
        c = ze(sub) if x is None else x.at(0)
        k = self.first(lambda e: e == c)
        return Ite(mkb(k.e < ze(self.n)), k, -1)

    def m_index(self, sub):
        k = self.m_find(sub)
        if k == -1:
            graise(ValueError('substring not found'))
        return k

    def m_startswith(self, p):
        if isinstance(p, tuple):
            return Or(*[self.m_startswith(x) for x in p])
        p = rope(p)
        k = p.size()
        if k is None:
            raise Unsupported('startswith')
        return And(mkb(ze(self.n) >= k), *[mkb(self.at(i) == p.at(i)) for i in range(k)])

    def m_endswith(self, p):
        if isinstance(p, tuple):
            return Or(*[self.m_endswith(x) for x in p])
        p = rope(p)
        k = p.size()
        if k is None:
            raise Unsupported('endswith')
        return And(mkb(ze(self.n) >= k), *[mkb(self.at(self.n - k + i) == p.at(i)) for i in range(k)])

    def m_translate(self, table):
        if is_sym(table) or not isinstance(table, (bytes, bytearray)):
            raise Unsupported('translate table')
        # group the table into runs of constant value or constant offset
        runs = []
        for i, t in enumerate(table):
            if runs and runs[-1][2] == 'c' and runs[-1][3] == t and runs[-1][1] == i - 1:
                runs[-1][1] = i
            elif runs and runs[-1][2] == 'd' and runs[-1][3] == t - i:
                runs[-1][1] = i
            elif i + 1 < len(table) and table[i + 1] == t:
                runs.append([i, i, 'c', t])
            else:
                runs.append([i, i, 'd', t - i])

        def tr(e):
            r = z3.IntVal(0)
            for lo, hi, k, v in reversed(runs):
                r = z3.If(e <= hi, z3.IntVal(v) if k == 'c' else e + v, r)
            return r
        return self.map(tr)

    def map(self, f, kind=None):
        segs = []
        for s in self.segs:
            if s.k == 'f':
                segs.append(Seg.fun(s.n, (lambda g: lambda i: f(g(i)))(s.d), s.tag))
            else:
                segs.append(Seg.vec([z3.simplify(f(s.at(i))) for i in range(s.n)]))
        return SRope(kind or self.kind, segs).lower()

    def m_encode(self, encoding='utf-8', errors='strict'):
        if self.kind != 'str':
            graise(AttributeError("'bytes' object has no attribute 'encode'"))
        enc = str(encoding).lower().replace('_', '-')
        lim = {'ascii': 128, 'us-ascii': 128, 'latin-1': 256, 'latin1': 256, 'iso-8859-1': 256}.get(enc)
        if enc in ('utf-8', 'utf8'):
            n = self.size()
            if n is not None and CTX.valid(z3.And(*[self.at(i) < 128 for i in range(n)])):
                return SRope('bytes', self.segs).lower()
            if self.src is not None:
                return self.src
            raise Unsupported('utf-8 of a symbolic text')
        if lim is None:
            raise Unsupported('encoding %s' % enc)
        if errors == 'replace':
            return self.map(lambda e: z3.If(e < lim, e, z3.IntVal(63)), 'bytes')
        if errors == 'strict':
            k = self.first(lambda e: e >= lim)
            if CTX.decide(k.e < ze(self.n)):
                graise(UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range'))
            return SRope('bytes', self.segs).lower()
        raise Unsupported('encoding errors=%s' % errors)

    def m_decode(self, encoding='utf-8', errors='strict'):
        enc = str(encoding).lower().replace('_', '-')
        if enc in ('utf-8', 'utf8'):
            return decode_utf8(self, errors)
        lim = {'ascii': 128, 'us-ascii': 128, 'latin-1': 256, 'latin1': 256, 'iso-8859-1': 256}.get(enc)
        if lim is None:
            raise Unsupported('encoding %s' % enc)
        if lim == 256:
            return SRope('str', self.segs).lower()
        if errors == 'strict':
            k = self.first(lambda e: e >= lim)
            if CTX.decide(k.e < ze(self.n)):
                graise(UnicodeDecodeError(enc, b'\xff', 0, 1, 'ordinal not in range(128)'))
            return SRope('str', self.segs).lower()
        if errors == 'replace':
            return self.map(lambda e: z3.If(e < 128, e, z3.IntVal(0xFFFD)), 'str')
        if errors == 'ignore':
            raise Unsupported('errors=ignore')
        raise Unsupported('decoding errors=%s' % errors)

    def m_isalpha(self):
        raise Unsupported('isalpha')

    def conc(self, model, limit=4096):
        n = self.n
        if not isinstance(n, int):
            n = model.eval(n.e, model_completion=True).as_long()
        if n > limit:
            raise ValueError('counterexample too long (%d)' % n)
        d = [model.eval(self.at(i), model_completion=True).as_long() for i in range(n)]
        if self.kind == 'bytes':
            return bytes(x % 256 for x in d)
        return ''.join(chr(x) if 0 <= x < 0xD800 or 0xE000 <= x < 0x110000 else '?' for x in d)


def norm_slice(a, b, n):
    def clamp(x):
        if isinstance(x, int) and isinstance(n, int):
            return min(max(x + n if x < 0 else x, 0), n)
        x = Ite(mkb(ze(x) < 0), x + n, x) if not (isinstance(x, int) and x >= 0) else x
        return smin(smax(x, 0), n)
    a = 0 if a is None else clamp(a)
    b = n if b is None else clamp(b)
    return a, b


def opaque_bytes(name, lo=0, n=None):
    """An arbitrary byte string (any length unless n is given)."""
    c = CTX
    name = c.uname(name)
    if isinstance(n, int) and n <= 16:
        return SRope('bytes', [Seg.vec([c.fresh(name + '_b', 0, 255).e for _ in range(n)])])
    f = z3.Function(name, INT, INT)
    if n is None:
        n = c.fresh(name + '_len', lo)
    return SRope('bytes', [Seg.fun(n, ranged(f, 0, 255), name)])


def opaque_text(name, lo=0):
    c = CTX
    name = c.uname(name)
    f = z3.Function(name, INT, INT)
    n = c.fresh(name + '_len', lo)
    return SRope('str', [Seg.fun(n, ranged(f, 0, 0x10FFFF), name)])


def ranged(f, lo, hi):
    def at(i):
        t = f(i)
        if CTX is not None:
            CTX.range_fact(t, lo, hi)
        return t
    return at


class SText8(Sym):
    """Text known only through its UTF-8 bytes (the inverse of encode('utf-8'))."""
    pytype = str

    def __init__(self, utf8):
        self.utf8 = utf8

    def m_encode(self, encoding='utf-8', errors='strict'):
        if str(encoding).lower().replace('_', '-') in ('utf-8', 'utf8') and errors == 'strict':
            return self.utf8
        raise Unsupported('encoding %s of an opaque text' % encoding)

    def __bool__(self):
        return bool(self.utf8)

    def __eq__(self, o):
        if isinstance(o, str):
            return self.utf8.eq(o.encode('utf8', 'surrogatepass'))
        if isinstance(o, SText8):
            if o is self:
                return True
            return self.utf8.eq(o.utf8)
        return False

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = Sym.__hash__

    def conc(self, model):
        return self.utf8.conc(model).decode('utf8', 'replace')


def decode_utf8(r, errors='strict'):
    if errors not in ('strict',):
        raise Unsupported('utf-8 errors=%s' % errors)
    if not is_sym(r.lower()):
        try:
            return r.lower().decode('utf8')
        except UnicodeDecodeError as e:
            graise(e)
    n = r.size()
    if n is not None and n <= 16 and CTX.valid(z3.And(*[r.at(i) < 128 for i in range(n)])):
        return SRope('str', r.segs)
    memo = CTX.notes.setdefault('utf8', [])
    for q, ok in memo:
        if same_content(r, q):
            break
    else:
        ok = CTX.choose(2, 'utf8-valid') == 0
        memo.append((r, ok))
    if ok:
        return SText8(r)
    graise(UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid'), ('utf8', r))


def opaque_utf8(name, nonul=False):
    """An arbitrary text, known through its UTF-8 bytes."""
    u = opaque_bytes(name)
    CTX.notes.setdefault('utf8', []).append((u, True))
    if nonul:
        CTX.forall(lambda i: z3.Implies(z3.And(i >= 0, i < ze(u.n)), u.at(i) != 0))
    return SText8(u)


def same_content(a, b):
    """Are the two byte strings provably equal?"""
    a, b = rope(a), rope(b)
    if a is b:
        return True
    if not CTX.valid(ze(a.n) == ze(b.n)):
        return False
    j = CTX.fresh('ix', 0)
    CTX.skolem(j.e)
    return CTX.valid(z3.Implies(j.e < ze(a.n), a.at(j.e) == b.at(j.e)))


class SByteArray(Sym):
    """Mutable byte string."""
    pytype = bytearray

    def __init__(self, val=b'', label=None):
        self.val = rope(val)
        CTX.register(self, label or 'bytearray')

    def _set(self, v):
        CTX.mutate(self)
        self.val = rope(v)

    def m_extend(self, x):
        if isinstance(x, (SRope, SByteArray, bytes, bytearray)):
            self._set(self.val + rope(x))
            return None
        raise Unsupported('bytearray.extend(%r)' % (x,))

    def m_append(self, x):
        if not And(x >= 0, x <= 255):
            graise(ValueError('byte must be in range(0, 256)'))
        self._set(self.val + SRope('bytes', [Seg.vec([ze(x)])]))

    def __iadd__(self, o):
        self.m_extend(o)
        return self

    def __add__(self, o):
        return SByteArray(self.val + rope(o))

    def __radd__(self, o):
        return rope(o) + self.val

    def __bool__(self):
        return bool(self.val)

    def __getitem__(self, i):
        return self.val[i]

    def __eq__(self, o):
        return self.val == o

    def __ne__(self, o):
        return Not(self == o)

    __hash__ = Sym.__hash__

    @property
    def n(self):
        return self.val.n

    def __getattr__(self, a):
        if a.startswith('m_'):
            return getattr(self.val, a)
        raise AttributeError(a)

    def conc(self, model):
        return bytearray(self.val.conc(model))


class FrozenByteArray(SByteArray):
    """What a variable holds that is given a new bytearray in each iteration.
    Other variables may hold the same one, so it must not be modified."""
    def _set(self, v):
        raise Unsupported('modification of a bytearray made in an earlier iteration')


class SFloat(Sym):
    """A Python float, as its 64 IEEE-754 bits."""
    pytype = float
    F32 = z3.Function('f64_to_f32', INT, INT)      # nearest single of a double (bits to bits)
    F64 = z3.Function('f32_to_f64', INT, INT)      # widening
    OVF = z3.Function('f32_overflow', INT, z3.BoolSort())

    def __init__(self, bits):
        self.bits = bits

    def is_zero(self):
        b = ze(self.bits)
        return mkb(z3.Or(b == 0, b == 2 ** 63))

    def is_nan(self):
        b = ze(self.bits)
        m = z3.If(b >= 2 ** 63, b - 2 ** 63, b)
        return mkb(m > 0x7FF0000000000000)

    def __eq__(self, o):
        import struct
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            try:
                f = float(o)
            except OverflowError:
                return False
            if f == 0:
                return self.is_zero()
            if f != f:
                return False
            return mkb(ze(self.bits) == struct.unpack('>Q', struct.pack('>d', f))[0])
        if isinstance(o, SFloat):
            return Or(And(self.is_zero(), o.is_zero()),
                      And(mkb(ze(self.bits) == ze(o.bits)), Not(self.is_nan())))
        if o is None or isinstance(o, (str, bytes)):
            return False
        raise Unsupported('float comparison')

    def __ne__(self, o):
        return Not(self == o)

    def __bool__(self):
        return bool(Not(self.is_zero()))

    __hash__ = Sym.__hash__

    def m_hex(self):
        return SOpaque('str', 'hex')

    def conc(self, model):
        import struct
        b = self.bits if isinstance(self.bits, int) else self.bits.conc(model)
        return struct.unpack('>d', struct.pack('>Q', b % 2 ** 64))[0]


US_DAY = 86400 * 10 ** 6


class SDelta(Sym):
    import datetime as _d
    pytype = _d.timedelta

    def __init__(self, us):
        self.us = us

    @property
    def a_days(self):
        return self.us // US_DAY

    @property
    def a_seconds(self):
        # same terms as a_days, so that recombinations cancel
        return self.us // 10 ** 6 - 86400 * self.a_days

    @property
    def a_microseconds(self):
        return self.us - 10 ** 6 * (self.us // 10 ** 6)

    def _us(self, o):
        if isinstance(o, SDelta):
            return o.us
        if isinstance(o, self._d.timedelta):
            return (o.days * 86400 + o.seconds) * 10 ** 6 + o.microseconds
        return None

    def __floordiv__(self, o):
        u = self._us(o)
        if u is not None:
            return self.us // u
        if isint(o):
            return SDelta(self.us // o)
        return NotImplemented

    def __mod__(self, o):
        u = self._us(o)
        if u is None:
            return NotImplemented
        return SDelta(self.us % u)

    def __mul__(self, o):
        return SDelta(self.us * o) if isint(o) else NotImplemented
    __rmul__ = __mul__

    def __add__(self, o):
        u = self._us(o)
        if u is not None:
            return SDelta(self.us + u)
        if isinstance(o, (SDatetime, self._d.datetime)):
            return SDatetime.lift(o) + self
        return NotImplemented

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        u = self._us(o)
        return SDelta(self.us - u) if u is not None else NotImplemented

    def __neg__(self):
        return SDelta(0 - self.us)

    def _c(self, o, f):
        u = self._us(o)
        return NotImplemented if u is None else f(self.us, u)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __eq__(self, o):
        u = self._us(o)
        return False if u is None else self.us == u

    __hash__ = Sym.__hash__

    def m_total_seconds(self):
        raise Unsupported('total_seconds (floating point)')


class SDatetime(Sym):
    """A naive datetime, as microseconds since 2001-01-01."""
    import datetime as _d
    pytype = _d.datetime
    EPOCH = _d.datetime(2001, 1, 1)
    LO = (_d.datetime.min - EPOCH) // _d.timedelta(microseconds=1)
    HI = (_d.datetime.max - EPOCH) // _d.timedelta(microseconds=1)

    def __init__(self, us):
        self.us = us

    @classmethod
    def lift(cls, x):
        if isinstance(x, SDatetime):
            return x
        if x.tzinfo is not None:
            raise Unsupported('aware datetime')
        return SDatetime((x - cls.EPOCH) // cls._d.timedelta(microseconds=1))

    @classmethod
    def arbitrary(cls, name):
        return SDatetime(CTX.fresh(name, cls.LO, cls.HI))

    def __sub__(self, o):
        if isinstance(o, (SDatetime, self._d.datetime)):
            return SDelta(self.us - self.lift(o).us)
        if isinstance(o, (SDelta, self._d.timedelta)):
            return self + (-(o if isinstance(o, SDelta) else SDelta(SDelta(0)._us(o))))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, self._d.datetime):
            return SDelta(self.lift(o).us - self.us)
        return NotImplemented

    def __add__(self, o):
        u = SDelta(0)._us(o)
        if u is None:
            return NotImplemented
        r = self.us + u
        if isinstance(r, int):
            ok = self.LO <= r <= self.HI
        else:
            ok = CTX.decide(z3.And(r.e >= self.LO, r.e <= self.HI))
        if not ok:
            graise(OverflowError('date value out of range'))
        return SDatetime(r)

    __radd__ = __add__

    def __eq__(self, o):
        if isinstance(o, (SDatetime, self._d.datetime)):
            return mkb(ze(self.us) == ze(self.lift(o).us))
        return False

    def __ne__(self, o):
        return Not(self == o)

    @property
    def a_tzinfo(self):
        return None

    @property
    def a_microsecond(self):
        return self.us % 10 ** 6

    def m_replace(self, **kw):
        if set(kw) == {'tzinfo'} and kw['tzinfo'] is None:
            return self
        if set(kw) == {'microsecond'} and kw['microsecond'] == 0:
            return SDatetime(self.us - self.us % 10 ** 6)
        raise Unsupported('datetime.replace')

    def __bool__(self):
        return True

    __hash__ = Sym.__hash__

    def conc(self, model):
        u = self.us if isinstance(self.us, int) else self.us.conc(model)
        return self.EPOCH + self._d.timedelta(microseconds=u)


class SOpaque(Sym):
    """A value of which only the type (and identity) is known."""
    def __init__(self, pytype, name='', **facts):
        self.pytype = {'str': str, 'bytes': bytes}.get(pytype, pytype)
        self.name = name
        self.facts = facts

    def __repr__(self):
        return 'SOpaque(%s,%s)' % (self.pytype, self.name)

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        if o is self:
            return True
        if o is None:
            return False
        raise Unsupported('comparison of %r' % (self,))

    def __ne__(self, o):
        return not (self == o)

    def __bool__(self):
        raise Unsupported('truth of %r' % (self,))

    def conc(self, model):
        return None

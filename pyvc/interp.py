"""Interpreter of the Python source of /repo over symbolic values.

It reads the functions' source from /repo on every run and executes every
statement on proxies; loops whose trip count the path condition does not fix
are cut at an inductive invariant (see cut_loop)."""
import ast
import builtins
import inspect
import os
import types

import z3
from . import values as V
from .values import (Sym, SInt, SBool, SRope, SByteArray, SOpaque, SFloat, SDatetime, SDelta, Seg,
                     PathAbort, Unsupported, GuestExc, graise, ze, zb, mki, mkb, is_sym, isint, rope)

REPO = os.environ.get('VERIF_REPO', '/repo')
UNROLL = 400
MAXDEPTH = 60


class _Break(BaseException):
    pass


class _Continue(BaseException):
    pass


class _Return(BaseException):
    def __init__(self, v):
        self.v = v


class _GenClose(BaseException):
    """Leaves a generator whose consumer stopped."""


class _ConsumerExc(BaseException):
    """Something raised by the consumer of a generator, passing through it."""
    def __init__(self, inner):
        self.inner = inner


class Junk:
    """Value of a loop-modified variable about which nothing is known."""
    def __init__(self, name):
        self.name = name


class Unbound:
    pass


UNBOUND = Unbound()

# --------------------------------------------------------------------------- source

_SRC = {}


def source_index(filename):
    if filename not in _SRC:
        with open(filename, encoding='utf8') as f:
            tree = ast.parse(f.read(), filename)
        idx = {}

        def walk(node):
            for ch in ast.iter_child_nodes(node):
                if isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                    line = ch.lineno
                    if isinstance(ch, ast.FunctionDef) and ch.decorator_list:
                        line = min(d.lineno for d in ch.decorator_list)
                    name = getattr(ch, 'name', '<lambda>')
                    idx.setdefault((name, line), ch)
                walk(ch)
        walk(tree)
        _SRC[filename] = idx
    return _SRC[filename]


def fn_node(fn):
    code = fn.__code__
    idx = source_index(code.co_filename)
    node = idx.get((code.co_name, code.co_firstlineno))
    if node is None:
        raise Unsupported('no source for %s' % fn.__qualname__)
    return node


def in_repo(fn):
    return isinstance(fn, types.FunctionType) and fn.__code__.co_filename.startswith(REPO + os.sep)


# --------------------------------------------------------------------------- run-time entities

class Frame:
    def __init__(self, fn_name, node, globs, parent=None, module=None):
        self.fn_name = fn_name
        self.node = node
        self.globs = globs
        self.parent = parent      # enclosing function frame (closures)
        self.env = {}
        self.locals = assigned(node)
        self.nonlocals = set()
        self.globalnames = set()
        self.cls = None           # class in which the function was found (super())
        self.first = None
        self.line = getattr(node, 'lineno', 0)
        self.yield_handler = None
        self.label = None


_ASSIGNED = {}


def assigned(node):
    if node in _ASSIGNED:
        return _ASSIGNED[node]
    names = set()
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        names.add(x.arg)
    if a.vararg:
        names.add(a.vararg.arg)
    if a.kwarg:
        names.add(a.kwarg.arg)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                names.add((al.asname or al.name).split('.')[0])
        for ch in ast.iter_child_nodes(n):
            walk(ch)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)

    def drop(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.Global, ast.Nonlocal)):
                names.difference_update(ch.names)
            if not isinstance(ch, (ast.FunctionDef, ast.Lambda)):
                drop(ch)
    drop(node)
    _ASSIGNED[node] = names
    return names


_ISGEN = {}


def is_generator(node):
    if node in _ISGEN:
        return _ISGEN[node]

    def has(n):
        for ch in ast.iter_child_nodes(n):
            if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                continue
            if isinstance(ch, (ast.Yield, ast.YieldFrom)):
                return True
            if has(ch):
                return True
        return False
    r = any(isinstance(s, (ast.Yield, ast.YieldFrom)) or has(s) for s in
            (node.body if isinstance(node.body, list) else [node.body]))
    _ISGEN[node] = r
    return r


class Closure(Sym):
    """A function defined inside an interpreted function."""
    pytype = types.FunctionType

    def __init__(self, node, frame, name, defaults, kwdefaults):
        self.node, self.frame, self.name = node, frame, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.decorated = None


class Bound(Sym):
    """A method bound to a symbolic or interpreted receiver."""
    pytype = types.MethodType

    def __init__(self, recv, fn, cls=None):
        self.recv, self.fn, self.cls = recv, fn, cls


class ModelMethod(Sym):
    """Method `name` of a proxy, or of a host value called with proxies."""
    pytype = types.BuiltinMethodType

    def __init__(self, recv, name):
        self.recv, self.name = recv, name


class SGen(Sym):
    """A generator that has not been started."""
    pytype = types.GeneratorType

    def __init__(self, start):
        self.start = start       # start(handler) runs the body


class StarArgs:
    """*seq among the arguments of a call, seq being symbolic."""
    def __init__(self, seq):
        self.seq = seq


class SSeq(Sym):
    """A sequence of symbolic length; item(k) gives the value at index k."""
    pytype = list

    def __init__(self, n, item, name='seq', pytype=list):
        self.n, self.item, self.name, self.pytype = n, item, name, pytype

    def __bool__(self):
        n = self.n
        return n > 0 if isinstance(n, int) else V.CTX.decide(ze(n) > 0)

    def get(self, i):
        n = self.n
        if V.And(mkb(ze(i) >= -ze(n)), mkb(ze(i) < ze(n))):
            j = i if isinstance(i, int) and i >= 0 else V.Ite(mkb(ze(i) >= 0), i, n + i)
            return self.item(j)
        graise(IndexError('list index out of range'))

    def m___getitem__(self, i):
        if isinstance(i, slice):
            return seq_slice(self, i)
        return self.get(i)

    def m___len__(self):
        return self.n

    def __eq__(self, o):
        if o is self:
            return True
        if not isinstance(o, (SSeq, GList, list, tuple)):
            return False
        raise Unsupported('comparison of sequences')

    __hash__ = Sym.__hash__


def seq_slice(s, k):
    """s[a:b] of an abstract sequence, for bounds that are not negative."""
    if not isinstance(s, SSeq) or k.step not in (None, 1):
        raise Unsupported('list slice')
    a, b = k.start if k.start is not None else 0, k.stop
    for x in (a, b):
        if x is not None and (not isint(x) or not V.CTX.valid(mkb(ze(x) >= 0))):
            raise Unsupported('list slice')
    n = ze(s.n)
    hi = n if b is None else z3.If(ze(b) < n, ze(b), n)
    m = z3.If(hi > ze(a), hi - ze(a), z3.IntVal(0))
    return SSeq(mki(m), lambda j: s.item(mki(ze(a) + ze(j))), 'slice', s.pytype)


class GList(Sym):
    """A list created by the verified code: optional abstract prefix + items."""
    pytype = list

    def __init__(self, items=(), prefix=None, label='list'):
        self.items = list(items)
        self.prefix = prefix
        V.CTX.register(self, label)

    @property
    def n(self):
        return len(self.items) if self.prefix is None else self.prefix.n + len(self.items)

    def __bool__(self):
        if self.items:
            return True
        return bool(self.prefix) if self.prefix is not None else False

    def seq(self):
        """As host list or SSeq."""
        if self.prefix is None:
            return self.items
        if not self.items:
            return self.prefix
        p, it = self.prefix, list(self.items)

        def item(k):
            if mkb(ze(k) < ze(p.n)):
                return p.item(k)
            for j, x in enumerate(it):
                if mkb(ze(k) == ze(p.n) + j):
                    return x
            raise PathAbort()
        s = SSeq(self.n, item, 'list')
        s.parts = seq_parts(p) + [(1, (lambda x: lambda k: x)(x)) for x in it]
        return s

    def get(self, i):
        if self.prefix is None and isinstance(i, int):
            try:
                return self.items[i]
            except IndexError as e:
                graise(e)
        if self.prefix is None:
            n = len(self.items)
            for j in range(n):
                if mkb(z3.Or(ze(i) == j, ze(i) == j - n)):
                    return self.items[j]
            graise(IndexError('list index out of range'))
        s = self.seq()
        if isinstance(i, int) and -len(self.items) <= i < 0:
            return self.items[i]
        return s.get(i)

    # loop machinery: the whole value as host list or SSeq
    def heap_get(self, part):
        s = self.seq()
        return SList(s if isinstance(s, SSeq) else list(s))

    def heap_set(self, part, v):
        if isinstance(v, SList):
            v = v.s
        if isinstance(v, SSeq):
            self.items, self.prefix = [], v
        elif isinstance(v, list):
            self.items, self.prefix = list(v), None
        else:
            n = V.CTX.fresh('len', 0)
            self.items, self.prefix = [], SSeq(n, lambda k: Junk('item'), 'havocked list')

    def m_append(self, x):
        V.CTX.mutate(self)
        self.items.append(x)

    def m_extend(self, xs):
        it = V.CTX.interp.iterate(xs)
        if isinstance(it, list):
            V.CTX.mutate(self)
            self.items.extend(it)
        elif self.prefix is None and not self.items and isinstance(it, SSeq):
            V.CTX.mutate(self)
            self.prefix = it
        elif isinstance(it, SGen):
            V.CTX.interp.run_gen(it, lambda v: self.m_append(v))
        elif isinstance(it, SSeq):
            V.CTX.mutate(self)
            s = self.seq()
            self.items, self.prefix = [], seq_concat(s, it)
        else:
            raise Unsupported('list.extend')

    def m_copy(self):
        return GList(self.items, self.prefix)

    def m_insert(self, i, x):
        if self.prefix is None and isinstance(i, int):
            V.CTX.mutate(self)
            self.items.insert(i, x)
            return
        raise Unsupported('list.insert')

    def m_pop(self, i=-1):
        if self.items and isinstance(i, int) and (self.prefix is None or i == -1):
            V.CTX.mutate(self)
            try:
                return self.items.pop(i)
            except IndexError as e:
                graise(e)
        if self.prefix is None and not self.items:
            graise(IndexError('pop from empty list'))
        raise Unsupported('list.pop')

    def m___getitem__(self, i):
        return V.CTX.interp.subscript(self, i)

    def m___len__(self):
        return self.n

    def m_index(self, x):
        raise Unsupported('list.index')

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, (list, GList)) and self.prefix is None:
            oi = o.items if isinstance(o, GList) else o
            if isinstance(o, GList) and o.prefix is not None:
                raise Unsupported('list comparison')
            if len(oi) != len(self.items):
                return False
            return V.And(*[V.CTX.interp.eq(a, b) for a, b in zip(self.items, oi)])
        if not isinstance(o, (list, GList, SSeq)):
            return False
        raise Unsupported('list comparison')

    __hash__ = Sym.__hash__


class SList(Sym):
    """Value of a list at one moment (for loop invariants)."""
    def __init__(self, s):
        self.s = s

    @property
    def n(self):
        return len(self.s) if isinstance(self.s, list) else self.s.n

    def at(self, k):
        if isinstance(self.s, list):
            for j, x in enumerate(self.s):
                if mkb(ze(k) == j):
                    return x
            raise PathAbort()
        return self.s.item(k)

    def heap_shape(self):
        return ('list',)

    def same_as(self, ip, o):
        c = ip.c
        if not isinstance(o, SList):
            return False
        if isinstance(self.s, list) and isinstance(o.s, list):
            return len(self.s) == len(o.s) and all(ip.same(a, b) for a, b in zip(self.s, o.s))
        if not c.valid(mkb(ze(self.n) == ze(o.n))):
            return False
        # every index: the appended tail exactly, the rest symbolically
        a, b = (self, o) if isinstance(self.s, SSeq) else (o, self)
        k = c.fresh('lx', 0)
        c.skolem(k.e)
        if isinstance(b.s, list):
            return all(c.valid(mkb(ze(len(b.s)) <= j)) or ip.same(a.s.item(j), x) for j, x in enumerate(b.s))
        parts_a, parts_b = seq_parts(a.s), seq_parts(b.s)
        cond = z3.And(k.e < ze(a.n))
        # values at k, by cases on which part k falls in
        ta, tb = set(), set()
        va, vb = seq_at(parts_a, k, ta), seq_at(parts_b, k, tb)
        if va is None or vb is None or ta != tb:
            return False
        return c.valid(z3.Implies(cond, va == vb))

    __hash__ = Sym.__hash__


def seq_concat(*ss):
    """Host lists and SSeqs, one after the other."""
    parts = []
    for s in ss:
        parts += seq_parts(s) if isinstance(s, SSeq) else [(1, (lambda x: lambda k: x)(x)) for x in s]

    def item(k):
        off = 0
        for n, it in parts:
            end = mki(ze(off) + ze(n))
            if mkb(ze(k) < ze(end)):
                return it(mki(ze(k) - ze(off)))
            off = end
        raise PathAbort()
    s = SSeq(mki(z3.Sum([ze(n) for n, _ in parts] or [z3.IntVal(0)])), item, 'lists')
    s.parts = parts
    return s


def seq_parts(s):
    return getattr(s, 'parts', None) or [(s.n, s.item)]


def seq_at(parts, k, tags):
    """Integer value at index k of a sequence in parts, as one term."""
    off, out = 0, []
    for n, item in parts:
        v = item(mki(ze(k) - ze(off)))
        if hasattr(v, 'seqkey'):
            tags.add((type(v).__name__, getattr(v, 'tag', None)))
            v = v.seqkey()          # an integer that identifies the value
        else:
            tags.add('int')
        if not isint(v):
            return None
        out.append((mki(ze(off) + ze(n)), ze(v)))
        off = mki(ze(off) + ze(n))
    e = out[-1][1]
    for end, v in reversed(out[:-1]):
        e = z3.If(ze(k) < ze(end), v, e)
    return e


class GDict(Sym):
    """A dict created by the verified code; keys compared symbolically."""
    pytype = dict

    def __init__(self, items=(), label='dict'):
        self.items = list(items)      # [(key, value)] in insertion order
        V.CTX.register(self, label)

    @property
    def n(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def _find(self, k):
        for j, (a, _) in enumerate(self.items):
            if V.CTX.interp.truth(V.CTX.interp.eq(a, k)):
                return j
        return None

    def contains(self, k):
        return self._find(k) is not None

    def getitem(self, k):
        j = self._find(k)
        if j is None:
            graise(KeyError(k))
        return self.items[j][1]

    def setitem(self, k, v):
        j = self._find(k)
        V.CTX.mutate(self)
        if j is None:
            self.items.append((k, v))
        else:
            self.items[j] = (self.items[j][0], v)

    def delitem(self, k):
        j = self._find(k)
        if j is None:
            graise(KeyError(k))
        V.CTX.mutate(self)
        del self.items[j]

    def m_get(self, k, d=None):
        j = self._find(k)
        return d if j is None else self.items[j][1]

    def m_pop(self, k, *d):
        j = self._find(k)
        if j is None:
            if d:
                return d[0]
            graise(KeyError(k))
        V.CTX.mutate(self)
        return self.items.pop(j)[1]

    def m_setdefault(self, k, d=None):
        j = self._find(k)
        if j is not None:
            return self.items[j][1]
        self.setitem(k, d)
        return d

    def m_items(self):
        return [tuple(x) for x in self.items]

    def m_keys(self):
        return [k for k, _ in self.items]

    def m_values(self):
        return [v for _, v in self.items]

    def m_copy(self):
        return GDict(self.items)

    def m_update(self, o=None, **kw):
        if o is not None:
            if isinstance(o, GDict):
                for k, v in o.items:
                    self.setitem(k, v)
            elif isinstance(o, dict):
                for k, v in o.items():
                    self.setitem(k, v)
            else:
                raise Unsupported('dict.update')
        for k, v in kw.items():
            self.setitem(k, v)

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('dict comparison')

    __hash__ = Sym.__hash__


class GSet(Sym):
    pytype = set

    def __init__(self, items=(), label='set'):
        self.items = []
        V.CTX.register(self, label)
        for x in items:
            self.add(x)

    @property
    def n(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.items)

    def contains(self, x):
        return V.Or(*[V.CTX.interp.eq(a, x) for a in self.items])

    def add(self, x):
        if not V.CTX.interp.truth(self.contains(x)):
            self.items.append(x)

    def m_add(self, x):
        V.CTX.mutate(self)
        self.add(x)

    def m_union(self, *os):
        r = GSet(self.items)
        for o in os:
            it = V.CTX.interp.iterate(o)
            if not isinstance(it, list):
                raise Unsupported('set.union')
            for x in it:
                r.add(x)
        return r

    def m_update(self, *os):
        V.CTX.mutate(self)
        self.items = self.m_union(*os).items

    __hash__ = Sym.__hash__

    def __eq__(self, o):
        if o is self:
            return True
        raise Unsupported('set comparison')


class SObj(Sym):
    """An instance of a class, with attributes."""
    def __init__(self, cls, attrs=None, name=''):
        self.cls = cls
        self.attrs = dict(attrs or {})
        self.name = name
        self.lazy = None          # lazy(attr) -> value or UNBOUND
        V.CTX.register(self, name or 'obj')

    @property
    def pytype(self):
        return self.cls

    def __bool__(self):
        return V.CTX.interp.obj_truth(self)

    def __eq__(self, o):
        if o is self:
            return True
        if o is None or not isinstance(o, Sym):
            return False
        raise Unsupported('object comparison')

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = Sym.__hash__

    def __repr__(self):
        return 'SObj(%s)' % (self.name or self.cls)


class SClass(Sym):
    """A subclass (made at run time) of a real class of the repository."""
    pytype = type

    def __init__(self, base, attrs=None, name='cls'):
        self.base = base
        self.attrs = dict(attrs or {})
        self.name = name
        self.lazy = None
        if V.CTX is not None:
            V.CTX.register(self, name)

    def mro(self):
        return self.base.__mro__

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def __bool__(self):
        return True

    __hash__ = Sym.__hash__

    def __repr__(self):
        return 'SClass(%s,%s)' % (self.base.__name__, self.name)


def real_base(c):
    return c.base if isinstance(c, SClass) else c


def host(v):
    """True if v is entirely made of host values."""
    if isinstance(v, (Sym, Junk, Unbound)):
        return False
    if isinstance(v, (tuple, list, set, frozenset)):
        return all(host(x) for x in v)
    if isinstance(v, dict):
        return all(host(k) and host(x) for k, x in v.items())
    if isinstance(v, slice):
        return host(v.start) and host(v.stop) and host(v.step)
    return True


BINOPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b, ast.Pow: lambda a, b: a ** b,
    ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b, ast.BitAnd: lambda a, b: a & b,
    ast.BitOr: lambda a, b: a | b, ast.BitXor: lambda a, b: a ^ b, ast.Div: lambda a, b: a / b,
}


class Interp:
    def __init__(self, c):
        self.c = c
        c.interp = self
        from . import models
        self.models = models

    # ------------------------------------------------------------------ calls
    def call(self, f, args=(), kwargs=None):
        kwargs = kwargs or {}
        c = self.c
        if isinstance(f, ModelMethod):
            return self.models.call_method(self, f.recv, f.name, list(args), kwargs)
        if isinstance(f, Bound):
            return self.call_fn(f.fn, [f.recv] + list(args), kwargs, f.cls)
        if isinstance(f, types.MethodType):
            return self.call_fn(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, (Closure, types.FunctionType)):
            return self.call_fn(f, list(args), kwargs)
        if isinstance(f, SClass):
            return self.instantiate(f, list(args), kwargs)
        if isinstance(f, SObj):
            m = self.lookup_cls(f.cls, '__call__')
            if m is not None:
                return self.call_fn(m[0], [f] + list(args), kwargs, m[1])
        if isinstance(f, type):
            return self.models.call_type(self, f, list(args), kwargs)
        if callable(getattr(f, 'guest_call', None)):
            return f.guest_call(self, list(args), kwargs)
        return self.models.call_builtin(self, f, list(args), kwargs)

    def host_call(self, f, args, kwargs):
        try:
            return f(*args, **kwargs)
        except Exception as e:
            raise GuestExc(e)

    def instantiate(self, cls, args, kwargs):
        o = SObj(cls, name='new:' + getattr(cls, '__name__', getattr(cls, 'name', '?')))
        init = self.lookup_cls(cls, '__init__')
        if init is not None and isinstance(init[0], types.FunctionType):
            self.call_fn(init[0], [o] + args, kwargs, init[1])
        elif args or kwargs:
            raise Unsupported('constructor of %r' % (cls,))
        return o

    def call_fn(self, fn, args, kwargs, cls=None):
        """Call a Python function: by contract if it has one, else by body."""
        c = self.c
        if isinstance(fn, Bound):
            return self.call_fn(fn.fn, [fn.recv] + args, kwargs, fn.cls)
        s = c.summaries.get(fn) if isinstance(fn, types.FunctionType) else None
        if s is not None:
            r = s(self, args, kwargs)
            if r is not NotImplemented:
                c.r.functions.setdefault(fn.__module__ + '.' + fn.__qualname__, 'contract')
                return r
        if isinstance(fn, Closure):
            h = getattr(c, 'on_closure', None)
            if h is not None:
                r = h(self, fn, args, kwargs)
                if r is not NotImplemented:
                    return r
            return self.invoke_closure(fn, args, kwargs)
        return self.call_fn2(fn, args, kwargs, cls)

    def invoke_closure(self, fn, args, kwargs):
        return self.invoke(fn.node, fn.frame.globs, args, kwargs, fn.defaults, fn.kwdefaults,
                           fn.name, parent=fn.frame, cls=fn.frame.cls)

    def call_fn2(self, fn, args, kwargs, cls):
        c = self.c
        if not isinstance(fn, types.FunctionType):
            return self.call(fn, args, kwargs)
        m = self.models.FUNCTIONS.get(fn)
        if m is not None:
            return m(self, *args, **kwargs)
        if not in_repo(fn):
            if self.models.pure_host(fn) and host(args) and host(kwargs):
                return self.host_call(fn, args, kwargs)
            if isinstance(getattr(fn, '__wrapped__', None), types.FunctionType) and in_repo(fn.__wrapped__):
                return self.models.call_wrapped(self, fn, args, kwargs)
            raise Unsupported('call of %s.%s' % (fn.__module__, fn.__qualname__))
        c.r.functions.setdefault(fn.__module__ + '.' + fn.__qualname__, 'body')
        node = fn_node(fn)
        parent = None
        if fn.__closure__:
            parent = Frame('<closure>', node, fn.__globals__)
            parent.env = {n: cell.cell_contents for n, cell in zip(fn.__code__.co_freevars, fn.__closure__)
                          if n != '__class__'}
        return self.invoke(node, fn.__globals__, args, kwargs, fn.__defaults__ or (), fn.__kwdefaults__ or {},
                           fn.__qualname__, parent=parent, cls=cls, fn=fn)

    def bind(self, fr, node, args, kwargs, defaults, kwdefaults):
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = fr.env
        kwargs = dict(kwargs)
        star = [v for v in args if isinstance(v, StarArgs)]
        if star and not (a.vararg and len(args) == len(pos) + 1 and args[-1] is star[0]):
            raise Unsupported('star of a symbolic sequence')
        for nme, v in zip(pos, args):
            env[nme] = v
        if len(args) > len(pos):
            if not a.vararg:
                graise(TypeError('%s() takes %d positional arguments but %d were given' %
                                 (fr.fn_name, len(pos), len(args))))
        if a.vararg:
            env[a.vararg.arg] = star[0].seq if star else tuple(args[len(pos):])
        posonly = {x.arg for x in a.posonlyargs}
        for nme in pos[len(args):]:
            if nme in kwargs and nme not in posonly:
                env[nme] = kwargs.pop(nme)
        for nme in pos[:len(args)]:
            if nme in kwargs and nme not in posonly:
                graise(TypeError('%s() got multiple values for argument %r' % (fr.fn_name, nme)))
        off = len(pos) - len(defaults)
        for j, nme in enumerate(pos):
            if nme not in env:
                if j >= off:
                    env[nme] = defaults[j - off]
                else:
                    graise(TypeError('%s() missing required argument %r' % (fr.fn_name, nme)))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in kwdefaults:
                env[x.arg] = kwdefaults[x.arg]
            else:
                graise(TypeError('%s() missing keyword argument %r' % (fr.fn_name, x.arg)))
        if a.kwarg:
            env[a.kwarg.arg] = GDict(list(kwargs.items()), 'kwargs')
        elif kwargs:
            graise(TypeError('%s() got an unexpected keyword argument %r' % (fr.fn_name, next(iter(kwargs)))))

    def invoke(self, node, globs, args, kwargs, defaults, kwdefaults, name, parent=None, cls=None, fn=None):
        c = self.c
        fr = Frame(name, node, globs, parent)
        if fn is not None and cls is None:
            cls = defining_class(fn)
        fr.cls = cls
        self.bind(fr, node, args, kwargs, defaults, kwdefaults)
        fr.first = args[0] if args else None
        if isinstance(node, ast.Lambda):
            return self.run_expr_body(fr, node)
        if is_generator(node):
            def start(handler):
                fr.yield_handler = handler
                return self.run_body(fr, node)
            return SGen(start)
        return self.run_body(fr, node)

    def push(self, fr):
        c = self.c
        if len(c.frames) > MAXDEPTH:
            raise Unsupported('call depth (recursion without a contract?)')
        fr.label = '%s#%d' % (fr.fn_name, sum(f.fn_name == fr.fn_name for f in c.frames))
        c.frames.append(fr)

    def run_expr_body(self, fr, node):
        self.push(fr)
        try:
            return self.ev(node.body, fr)
        finally:
            self.c.frames.pop()

    def run_body(self, fr, node):
        self.push(fr)
        try:
            self.block(node.body, fr)
            return None
        except _Return as r:
            return r.v
        finally:
            self.c.frames.pop()

    # ------------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        fr.line = s.lineno
        self.c.r.lines.add((fr.fn_name, s.lineno))
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Break(self, s, fr):
        raise _Break()

    def s_Continue(self, s, fr):
        raise _Continue()

    def s_Return(self, s, fr):
        raise _Return(self.ev(s.value, fr) if s.value else None)

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        load = ast.copy_location(to_load(s.target), s.target)
        if isinstance(s.target, ast.Name):
            cur = self.ev(load, fr)
            v = self.binop(type(s.op), cur, self.ev(s.value, fr), inplace=True)
            self.assign(s.target, v, fr)
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr)
            cur = self.getattr(o, s.target.attr)
            v = self.binop(type(s.op), cur, self.ev(s.value, fr), inplace=True)
            self.setattr(o, s.target.attr, v)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, fr)
            k = self.ev(s.target.slice, fr)
            cur = self.subscript(o, k)
            v = self.binop(type(s.op), cur, self.ev(s.value, fr), inplace=True)
            self.setitem(o, k, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setname(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = self.iterate(v)
            if isinstance(vals, SGen):
                vals = self.collect(vals)
            if isinstance(vals, SSeq):
                k = self.c.concretize(vals.n, 8) if not isinstance(vals.n, int) else vals.n
                vals = [vals.item(i) for i in range(k)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    graise(ValueError('not enough values to unpack'))
                vals = vals[:i] + [GList(vals[i:len(vals) - after])] + vals[len(vals) - after:]
            if len(vals) != len(t.elts):
                graise(ValueError('unpack: expected %d values, got %d' % (len(t.elts), len(vals))))
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.ev(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def setname(self, n, v, fr):
        if n in fr.globalnames:
            raise Unsupported('assignment to a module global (%s)' % n)
        if n in fr.nonlocals:
            p = fr.parent
            while p is not None and n not in p.env:
                p = p.parent
            if p is None:
                raise Unsupported('nonlocal %s' % n)
            p.env[n] = v
            return
        fr.env[n] = v

    def s_Global(self, s, fr):
        fr.globalnames.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id not in fr.env:
                    graise(UnboundLocalError(t.id))
                del fr.env[t.id]
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)
            else:
                raise Unsupported('del')

    def s_If(self, s, fr):
        if self.truth(self.ev(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            graise(AssertionError())

    def s_Raise(self, s, fr):
        if s.exc is None:
            cur = getattr(fr, 'handling', None)
            if not cur:
                graise(RuntimeError('No active exception to reraise'))
            raise GuestExc(cur[-1].exc, cur[-1].info)
        e = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.models.call_type(self, e, [], {})
        if isinstance(e, BaseException):
            raise GuestExc(e, getattr(e, '_guest_info', None))
        raise Unsupported('raise of %r' % (e,))

    def s_Try(self, s, fr):
        try:
            try:
                self.block(s.body, fr)
            except GuestExc as g:
                for h in s.handlers:
                    if h.type is None or self.exc_match(g.exc, self.ev(h.type, fr)):
                        if h.name:
                            try:
                                g.exc._guest_info = g.info
                            except Exception:
                                pass
                            fr.env[h.name] = g.exc
                        if not hasattr(fr, 'handling'):
                            fr.handling = []
                        fr.handling.append(g)
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.handling.pop()
                            if h.name:
                                fr.env.pop(h.name, None)
                        break
                else:
                    raise
            else:
                self.block(s.orelse, fr)
        except (PathAbort, Unsupported):
            raise
        except BaseException:
            # also break/continue/return/generator exit leave through finally
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        else:
            if s.finalbody:
                self.block(s.finalbody, fr)

    def exc_match(self, exc, t):
        if isinstance(t, tuple):
            return any(self.exc_match(exc, x) for x in t)
        if isinstance(t, type):
            return isinstance(exc, t)
        raise Unsupported('except clause')

    def s_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    def with_items(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        mgr = self.ev(it.context_expr, fr)
        if isinstance(mgr, SGen):
            # a contextlib.contextmanager: run its body around ours
            done = []

            def handler(v):
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, fr)
                self.with_items(items[1:], body, fr)
                done.append(1)
            try:
                self.run_gen(mgr, handler, wrap=False)
            finally:
                pass
            return
        v = self.call(self.getattr(mgr, '__enter__'))
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        ex = self.getattr(mgr, '__exit__')
        try:
            self.with_items(items[1:], body, fr)
        except GuestExc as g:
            if self.truth(self.call(ex, [type(g.exc), g.exc, None])):
                return
            raise
        except (PathAbort, Unsupported):
            raise
        except BaseException:
            self.call(ex, [None, None, None])
            raise
        else:
            self.call(ex, [None, None, None])

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported('decorated inner function')
        f = self.closure(s, fr, s.name)
        self.setname(s.name, f, fr)

    def s_ClassDef(self, s, fr):
        raise Unsupported('inner class')

    def s_Import(self, s, fr):
        import importlib
        for al in s.names:
            m = importlib.import_module(al.name)
            self.setname((al.asname or al.name).split('.')[0], m if al.asname else importlib.import_module(al.name.split('.')[0]), fr)

    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.globs.get('__package__')
        m = importlib.import_module('.' * s.level + (s.module or ''), pkg)
        for al in s.names:
            self.setname(al.asname or al.name, getattr(m, al.name), fr)

    def closure(self, node, fr, name):
        a = node.args
        return Closure(node, fr, name, [self.ev(d, fr) for d in a.defaults],
                       {k.arg: self.ev(d, fr) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})

    # ------------------------------------------------------------------ loops
    def s_While(self, s, fr):
        def head():
            return self.truth(self.ev(s.test, fr))

        def body():
            self.block(s.body, fr)
        # Loops that are short on this path (a test that the path condition
        # decides) are simply executed.
        if self.c.opts.get('unroll_while'):
            n = 0
            while True:
                if not head():
                    self.block(s.orelse, fr)
                    return
                try:
                    body()
                except _Break:
                    return
                except _Continue:
                    pass
                n += 1
                if n > self.c.opts['unroll_while']:
                    raise Unsupported('loop unrolled %d times' % n)
        self.cut_loop(s, fr, lambda k: head(), body, lambda: self.block(s.orelse, fr),
                      ended=lambda: self.flag_test(s.test, fr) is False)

    def flag_test(self, e, fr):
        """The test of a loop, as far as flags decide it (None: not decided)."""
        if isinstance(e, ast.Name):
            v = fr.env.get(e.id, UNBOUND)
            if isinstance(v, SBool):
                return self.c.decide(v)
            return v if isinstance(v, bool) else None
        if isinstance(e, ast.Constant):
            return e.value if isinstance(e.value, bool) else None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.flag_test(e.operand, fr)
            return None if v is None else not v
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            vs = []
            for x in e.values:
                v = self.flag_test(x, fr)
                if v is stop:
                    return stop if all(w is not None for w in vs) or self.pure(e) else None
                vs.append(v)
            return None if None in vs else not stop
        return None

    def pure(self, e):
        return not any(isinstance(n, (ast.Call, ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Subscript, ast.Attribute)) for n in ast.walk(e))

    def s_For(self, s, fr):
        it = self.iterate(self.ev(s.iter, fr))
        self.loop_over(it, s, fr, lambda v: self.assign(s.target, v, fr),
                       lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr))

    def loop_over(self, it, node, fr, bind, body, orelse):
        if isinstance(it, list):
            if len(it) > UNROLL:
                raise Unsupported('loop over %d items' % len(it))
            for v in it:
                bind(v)
                try:
                    body()
                except _Break:
                    return
                except _Continue:
                    continue
            orelse()
            return
        if isinstance(it, SGen):
            class Stop(BaseException):
                pass

            def handler(v):
                bind(v)
                try:
                    body()
                except _Break:
                    raise Stop()
                except _Continue:
                    return
            try:
                self.run_gen(it, handler)
            except Stop:
                return
            orelse()
            return
        if isinstance(it, SSeq):
            cur = {}

            def head(k):
                if self.truth(mkb(ze(k) < ze(it.n))):
                    bind(it.item(k))
                    return True
                return False
            self.cut_loop(node, fr, head, body, orelse, seq=it)
            return
        raise Unsupported('iteration over %r' % (it,))

    def run_gen(self, gen, handler, wrap=True):
        """Run a generator, handing each value to `handler`."""
        if not wrap:
            return gen.start(handler)

        def h(v):
            # what the consumer raises must not be caught inside the generator
            saved = list(self.c.frames)
            try:
                return handler(v)
            except (PathAbort, Unsupported):
                raise
            except BaseException as e:
                raise _ConsumerExc(e)
            finally:
                self.c.frames[:] = saved
        try:
            return gen.start(h)
        except _ConsumerExc as w:
            raise w.inner

    # -- invariants ---------------------------------------------------------
    def collect(self, gen):
        """All values of a generator: a host list, or SSeq if a loop was cut."""
        g = GList()
        self.run_gen(gen, lambda v: g.m_append(v))
        return g.seq()

    def loop_key(self, node, fr):
        return (fr.fn_name, node.lineno, node.col_offset, tuple(f.fn_name for f in self.c.frames))

    def cut_loop(self, node, fr, head, body, orelse, seq=None, ended=None):
        """Execute a loop by induction on the number k of finished iterations.

        Paths: the first iteration (k = 0, exact state) and an arbitrary later
        one (k >= 1), in which everything any iteration modifies is replaced by
        an arbitrary value satisfying the surviving candidate invariants.
        Candidates are checked at every back edge; one that fails is dropped
        and the whole proof is redone (explore), so those that remain are
        inductive."""
        from .context import LoopInfo
        c = self.c
        key = self.loop_key(node, fr)
        info = c.loops.get(key)
        if info is None:
            info = c.loops[key] = LoopInfo()
            info.changed = True
        pre = self.snapshot()
        pre['heap'] = {loc: self.heap_value(o, loc[2]) for loc in info.shape if loc[0] == 'heap'
                       for o in [self.find_obj(loc[1])] if o is not None}
        which = c.choose(2, 'loop %s:%s' % (fr.fn_name, node.lineno))
        if which == 0:
            k = 0
        else:
            if not info.seen:
                raise PathAbort()          # shapes not known yet; next round
            k = c.fresh('k', 1)
            if seq is not None:
                c.assume(mkb(ze(k) <= ze(seq.n)))       # iteration k-1 took place
            self.havoc(info, k, pre, seq)
            if not info.reached:
                info.reached = c.feasible()
        at_head = self.snapshot()
        if not head(k):
            orelse()
            return
        try:
            body()
        except _Break:
            return
        except _Continue:
            pass
        if ended is not None and ended():       # a flag set in this iteration ends it
            orelse()
            return
        self.back_edge(info, k + 1, pre, at_head, seq)
        raise PathAbort()

    def snapshot(self):
        c = self.c
        return dict(frames=[(f, dict(f.env)) for f in c.frames + self.closure_frames()],
                    nheap=len(c.heap), mut=len(c.mutlog))

    def closure_frames(self):
        out = []
        for f in self.c.frames:
            p = f.parent
            while p is not None:
                if p not in self.c.frames and p not in out:
                    out.append(p)
                p = p.parent
        return out

    def loc_label(self, f):
        return f.label or f.fn_name

    def changed_locs(self, snap):
        """Locations changed since the snapshot: {loc: value now}."""
        c = self.c
        out = {}
        for f, env in snap['frames']:
            for n in set(env) | set(f.env):
                a, b = env.get(n, UNBOUND), f.env.get(n, UNBOUND)
                if a is not b and not (host(a) and host(b) and type(a) is type(b) and a == b):
                    out[('local', self.loc_label(f), n)] = b
        objs = set()
        for o, part in c.mutlog[snap['mut']:]:
            if o.__dict__['_birth'] <= snap['nheap']:
                objs.add((o, part))
        for o, part in objs:
            out[('heap', o.__dict__['_label'], part)] = self.heap_value(o, part)
        return out

    def heap_value(self, o, part):
        if isinstance(o, SByteArray):
            return o.val
        if isinstance(o, SObj):
            return o.attrs.get(part, UNBOUND)
        if hasattr(o, 'heap_get'):
            return o.heap_get(part)
        return Junk(o.__dict__['_label'])

    def find_obj(self, label):
        for o in self.c.heap:
            if o.__dict__['_label'] == label:
                return o
        return None

    def shape(self, v):
        if isinstance(v, Junk):
            return ('junk',)
        if v is UNBOUND:
            return ('unbound',)
        if isinstance(v, bool) or isinstance(v, int) or v is None or isinstance(v, str):
            return ('const', v)
        if isinstance(v, bytes):
            return ('rope', 'bytes')
        if isinstance(v, SInt):
            return ('int',)
        if isinstance(v, SBool):
            return ('bool',)
        if isinstance(v, SRope):
            return ('rope', v.kind)
        if isinstance(v, SByteArray):
            return ('newbytes',)        # a variable that holds another bytearray after each iteration
        if isinstance(v, tuple):
            return ('tuple',) + tuple(self.shape(x) for x in v)
        if hasattr(v, 'heap_shape'):
            return v.heap_shape()
        return ('junk',)

    def join(self, a, b):
        if a == b and type(a) is type(b) and repr(a) == repr(b):
            return a

        def gen(s):
            if s[0] == 'const':
                if isinstance(s[1], bool):
                    return ('bool',)
                if isinstance(s[1], int):
                    return ('int',)
                if isinstance(s[1], str):
                    return ('rope', 'str')
            return s
        a, b = gen(a), gen(b)
        if a == b:
            return a
        if a[0] == b[0] == 'tuple' and len(a) == len(b):
            return ('tuple',) + tuple(self.join(x, y) for x, y in zip(a[1:], b[1:]))
        return ('junk',)

    def havoc(self, info, k, pre, seq):
        c = self.c
        frames = {self.loc_label(f): f for f, _ in pre['frames']}
        preenv = {self.loc_label(f): e for f, e in pre['frames']}
        for loc, sh in sorted(info.shape.items(), key=lambda x: repr(x[0])):
            if loc[0] == 'local':
                f = frames.get(loc[1])
                if f is None:
                    continue
                old = preenv[loc[1]].get(loc[2], UNBOUND)
                v = self.havoc_value(info, loc, sh, k, old, seq)
                if v is UNBOUND:
                    f.env.pop(loc[2], None)
                else:
                    f.env[loc[2]] = v
            else:
                o = self.find_obj(loc[1])
                if o is None:
                    continue
                old = pre['heap'].get(loc, UNBOUND)
                v = self.havoc_value(info, loc, sh, k, old, seq)
                c.mutate(o, loc[2])
                if isinstance(o, SByteArray):
                    o.val = rope(v) if not isinstance(v, Junk) else V.opaque_bytes('havoc')
                elif isinstance(o, SObj):
                    if v is UNBOUND:
                        o.attrs.pop(loc[2], None)
                    else:
                        o.attrs[loc[2]] = v
                elif hasattr(o, 'heap_set'):
                    o.heap_set(loc[2], v)
                else:
                    raise Unsupported('loop modifies %s' % type(o).__name__)
        for name, fn in self.history():
            if info.cands.setdefault((None, name), True):
                c.assume(fn(k))
        if c.relate:
            now = self.changed_locs(dict(pre, frames=pre['frames']))
            for name, a, b in self.pairs(info, now, preenv, pre):
                if info.cands.setdefault((None, name), True):
                    c.assume(mkb(a == b))

    def pairs(self, info, now, preenv, pre):
        """Candidates x - x0 == y - y0 over the integer locations a loop modifies."""
        out = []
        for loc, sh in sorted(info.shape.items(), key=lambda x: repr(x[0])):
            if sh[0] != 'int' or len(loc) != 3:
                continue
            old = preenv.get(loc[1], {}).get(loc[2], UNBOUND) if loc[0] == 'local' else pre['heap'].get(loc, UNBOUND)
            v = now.get(loc, UNBOUND)
            if isint(old) and isint(v):
                out.append((loc, ze(v) - ze(old)))
        return [('same change: %s.%s and %s.%s' % (a[0][1], a[0][2], b[0][1], b[0][2]), a[1], b[1])
                for i, a in enumerate(out) for b in out[i + 1:]]

    def history(self):
        return [('%d:%s' % (i, n), f) for i, (n, f) in enumerate(self.c.history)]

    def candidates(self, loc, sh, old, seq):
        """(name, term(k) -> value) equality candidates of a location."""
        out = []
        for i, g in enumerate(self.c.ghosts):
            for name, fn in g(loc, sh, old, seq):
                out.append(('%d:%s' % (i, name), fn))
        if sh[0] == 'bool' and isinstance(old, (bool, SBool)):
            out.append(('old', lambda k: old))
        if sh[0] == 'int':
            out.append(('k', lambda k: k))
            out.append(('k-1', lambda k: k - 1))
            if isint(old):
                out.append(('old+k', lambda k: old + k))
                out.append(('old-k', lambda k: old - k))
            else:
                out.append(('k+1', lambda k: k + 1))
        return out

    def bounds(self, loc, sh, old):
        out = []
        if sh[0] == 'int':
            out.append(('>=0', lambda v, k: v >= 0))
            if isint(old):
                out.append(('>=old', lambda v, k: v >= old))
                out.append(('<=old', lambda v, k: v <= old))
        for f in getattr(self.c, 'bound_providers', ()):
            out.extend(f(loc, sh, old))
        return out

    def first_candidate(self, info, loc, sh, k, old, seq):
        """The value of the first candidate left; it alone is assumed here, so
        it alone is checked at the end of this iteration."""
        for name, fn in self.candidates(loc, sh, old, seq):
            if info.cands.setdefault((loc, name), True):
                self.c.assumed_cands[id(info), loc] = name
                return (fn(k),)
        self.c.assumed_cands[id(info), loc] = None

    def havoc_value(self, info, loc, sh, k, old, seq):
        c = self.c
        if sh[0] == 'const':
            return sh[1]
        if sh[0] == 'unbound':
            return UNBOUND
        if sh[0] == 'junk':
            used = self.first_candidate(info, loc, sh, k, old, seq)
            if used is not None:
                return used[0]
            return Junk(loc[-1] or loc[1])
        if sh[0] == 'int':
            v = c.fresh('hv_' + str(loc[-1] or loc[1]).replace(' ', '_'))
            for name, fn in self.candidates(loc, sh, old, seq):
                if info.cands.setdefault((loc, name), True):
                    c.assume(mkb(v.e == ze(fn(k))))
            for name, fn in self.bounds(loc, sh, old):
                if info.cands.setdefault((loc, name), True):
                    c.assume(fn(v, k))
            return v
        if sh[0] == 'bool':
            v = c.fresh_bool('hv')
            for name, fn in self.candidates(loc, sh, old, seq):
                if info.cands.setdefault((loc, name), True):
                    c.assume(v.e == zb(fn(k)))
            return v
        if sh[0] == 'list':
            used = self.first_candidate(info, loc, sh, k, old, seq)
            if used is not None:
                return used[0]
            return Junk('list')
        if sh[0] == 'rope':
            used = self.first_candidate(info, loc, sh, k, old, seq)
            if used is not None:
                return used[0]
            return V.opaque_bytes('hv') if sh[1] == 'bytes' else V.opaque_text('hv')
        if sh[0] == 'newbytes':
            used = self.first_candidate(info, loc, ('rope', 'bytes'), k, UNBOUND, seq)
            return V.FrozenByteArray(used[0] if used is not None else V.opaque_bytes('hv'))
        if sh[0] == 'tuple':
            return tuple(self.havoc_value(info, loc + (i,), s, k, old[i] if isinstance(old, tuple) and len(old) == len(sh) - 1 else UNBOUND, seq)
                         for i, s in enumerate(sh[1:]))
        if hasattr(sh[0], 'havoc'):
            return sh[0].havoc(self, info, loc, k, old, seq)
        return Junk(loc[-1] or loc[1])

    def back_edge(self, info, k, pre, at_head, seq):
        c = self.c
        if not info.seen:
            info.seen = True
            info.changed = True
        preenv = {self.loc_label(f): e for f, e in pre['frames']}
        now = self.changed_locs(at_head)
        # a location that was havocked stays in the set
        for loc in info.shape:
            if loc not in now:
                if loc[0] == 'local':
                    f = next((f for f, _ in pre['frames'] if self.loc_label(f) == loc[1]), None)
                    if f is not None:
                        now[loc] = f.env.get(loc[2], UNBOUND)
                else:
                    o = self.find_obj(loc[1])
                    if o is not None:
                        now[loc] = self.heap_value(o, loc[2])
        reshaped = False
        for loc, v in now.items():
            sh = self.shape(v)
            old = info.shape.get(loc)
            if old is None:
                info.shape[loc] = sh
                reshaped = True
                new = sh
            else:
                new = self.join(old, sh)
                if new != old or repr(new) != repr(old):
                    info.shape[loc] = new
                    reshaped = True
            preval = preenv[loc[1]].get(loc[2], UNBOUND) if loc[0] == 'local' else pre['heap'].get(loc, UNBOUND)
            self.check_cands(info, loc, new, v, k, preval, seq)
        if reshaped:
            # what was concluded from the narrower shape does not count
            info.changed = True
            for li in c.loops.values():
                li.cands.clear()
            return
        for name, fn in self.history():
            if info.cands.setdefault((None, name), True):
                if not c.valid(fn(k)):
                    info.cands[(None, name)] = False
                    info.changed = True
        if c.relate:
            for name, a, b in self.pairs(info, now, preenv, pre):
                if info.cands.setdefault((None, name), True) and not c.valid(mkb(a == b)):
                    info.cands[(None, name)] = False
                    info.changed = True

    def check_cands(self, info, loc, sh, v, k, old, seq):
        c = self.c
        if sh[0] == 'tuple' and isinstance(v, tuple) and len(v) == len(sh) - 1:
            for i, (s, x) in enumerate(zip(sh[1:], v)):
                self.check_cands(info, loc + (i,), s, x, k,
                                 old[i] if isinstance(old, tuple) and len(old) == len(v) else UNBOUND, seq)
            return
        key = (id(info), loc)
        if sh[0] == 'newbytes' and isinstance(v, SByteArray):
            sh, v, old = ('rope', 'bytes'), v.val, UNBOUND
        for name, fn in self.candidates(loc, sh, old, seq):
            if key in c.assumed_cands and c.assumed_cands[key] != name:
                continue
            if not info.cands.setdefault((loc, name), True):
                continue
            if not self.same(v, fn(k)):
                info.cands[(loc, name)] = False
                info.changed = True
        if sh[0] == 'int' and isint(v):
            for name, fn in self.bounds(loc, sh, old):
                if info.cands.setdefault((loc, name), True) and not c.valid(fn(v, k)):
                    info.cands[(loc, name)] = False
                    info.changed = True

    def same(self, a, b):
        """Provably the same value?"""
        c = self.c
        if a is b:
            return True
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return c.valid(mkb(zb(a) == zb(b)))
        if isint(a) and isint(b):
            return c.valid(mkb(ze(a) == ze(b)))
        if isinstance(a, (bytes, SRope)) and isinstance(b, (bytes, SRope)):
            ra, rb = rope(a), rope(b)
            if ra.kind != rb.kind or not c.valid(mkb(ze(ra.n) == ze(rb.n))):
                return False
            j = c.fresh('jx', 0)
            c.skolem(j.e)
            return c.valid(mkb(z3.Implies(j.e < ze(ra.n), ra.at(j.e) == rb.at(j.e))))
        if hasattr(a, 'same_as'):
            return a.same_as(self, b)
        if hasattr(b, 'same_as'):
            return b.same_as(self, a)
        return False

    # ------------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        n = e.id
        f = fr
        if n in f.env and n not in f.globalnames:
            return self.nojunk(f.env[n])
        if n in f.locals and n not in f.globalnames and n not in f.nonlocals:
            graise(UnboundLocalError("cannot access local variable '%s'" % n))
        f = f.parent
        while f is not None:
            if n in f.env:
                return self.nojunk(f.env[n])
            f = f.parent
        key = (fr.globs.get('__name__'), n)
        if key in self.c.global_override:
            return self.c.global_override[key]
        if n in fr.globs:
            return fr.globs[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        graise(NameError("name '%s' is not defined" % n))

    def nojunk(self, v):
        if isinstance(v, Junk):
            raise Unsupported('value of loop-modified variable %s' % v.name)
        return v

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            out = GList([])
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out.m_extend(self.ev(x.value, fr))
                else:
                    out.m_append(self.ev(x, fr))
            return out
        return GList(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return GSet(self.elts(e.elts, fr))

    def elts(self, es, fr, call=False):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.iterate(self.ev(x.value, fr))
                if isinstance(v, SGen):
                    v = self.collect(v)
                if call and isinstance(v, SSeq):
                    out.append(StarArgs(v))
                    continue
                if not isinstance(v, list):
                    raise Unsupported('star of a symbolic sequence')
                out.extend(v)
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = self.models.new_dict(self)
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.m_update(self.ev(v, fr))
            else:
                kk = self.ev(k, fr)
                d.setitem(kk, self.ev(v, fr))
        return d

    def e_IfExp(self, e, fr):
        return self.ev(e.body if self.truth(self.ev(e.test, fr)) else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if t != isand:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return V.Not(v) if isinstance(v, SBool) else not self.truth(v)
        if host(v):
            try:
                return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v)
            except Exception as x:
                raise GuestExc(x)
        if isinstance(v, SBool):
            v = v._i()
        if not isinstance(v, (SInt, SDelta)):
            raise Unsupported('unary operator on %r' % (v,))
        if isinstance(e.op, ast.USub):
            return -v
        if isinstance(e.op, ast.UAdd):
            return v
        return ~v

    def e_BinOp(self, e, fr):
        return self.binop(type(e.op), self.ev(e.left, fr), self.ev(e.right, fr))

    def binop(self, op, a, b, inplace=False):
        if host(a) and host(b) and not (inplace and isinstance(a, (list, dict, set, bytearray))):
            try:
                return BINOPS[op](a, b)
            except Exception as x:
                raise GuestExc(x)
        r = self.models.binop(self, op, a, b, inplace)
        if r is not NotImplemented:
            return r
        f = BINOPS[op]
        try:
            return f(a, b)
        except TypeError as x:
            if 'unsupported operand' in str(x) or 'concat' in str(x) or "can't multiply" in str(x) or 'must be' in str(x):
                graise(TypeError('unsupported operand types'))
            raise

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, c) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(c, fr)
            res = self.compare(type(op), left, right)
            if i < len(e.ops) - 1:
                if not self.truth(res):
                    return res
            left = right
        return res

    def compare(self, op, a, b):
        if op is ast.Is:
            return self.is_(a, b)
        if op is ast.IsNot:
            return V.Not(self.is_(a, b))
        if op is ast.In:
            return self.contains(b, a)
        if op is ast.NotIn:
            return V.Not(self.contains(b, a))
        if op is ast.Eq:
            return self.eq(a, b)
        if op is ast.NotEq:
            return V.Not(self.eq(a, b))
        f = {ast.Lt: lambda x, y: x < y, ast.LtE: lambda x, y: x <= y,
             ast.Gt: lambda x, y: x > y, ast.GtE: lambda x, y: x >= y}[op]
        if host(a) and host(b):
            try:
                return f(a, b)
            except Exception as x:
                raise GuestExc(x)
        if isint(a) and isint(b):
            return f(a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, (SInt, SBool)) and (y is None or isinstance(y, (str, bytes, list, tuple, dict, SRope, V.SText8, SDatetime, GList, GDict))):
                graise(TypeError("'<' not supported between instances"))
            if isinstance(x, (SRope, V.SText8, SFloat, SDatetime, SByteArray)) and (y is None or isint(y) and not isinstance(x, SFloat)):
                graise(TypeError("'<' not supported between instances"))
        if isinstance(a, (SDelta, SDatetime)) or isinstance(b, (SDelta, SDatetime)):
            r = f(a, b)
            return r
        r = self.models.order(self, op, a, b)
        if r is NotImplemented:
            raise Unsupported('ordering of %r and %r' % (a, b))
        return r

    def is_(self, a, b):
        if a is b:
            return True
        if a is None or b is None or isinstance(a, bool) or isinstance(b, bool):
            x, y = (a, b) if not is_sym(a) else (b, a)
            if isinstance(y, SBool) and isinstance(x, bool):
                return y == x
            if hasattr(y, 'is_none') and x is None:
                return y.is_none()
            return False
        if hasattr(a, 'ident_eq'):
            return a.ident_eq(b)
        if hasattr(b, 'ident_eq'):
            return b.ident_eq(a)
        if is_sym(a) or is_sym(b):
            if isinstance(a, (SObj, SClass, GList, GDict, GSet)) or isinstance(b, (SObj, SClass, GList, GDict, GSet)):
                return False
            if type(a) is not type(b) and not (host(a) and host(b)):
                return False
            raise Unsupported('identity of symbolic values')
        return a is b

    def eq(self, a, b):
        if a is b and not isinstance(a, (float, SFloat)):
            return True
        if host(a) and host(b):
            try:
                return a == b
            except Exception as x:
                raise GuestExc(x)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return V.And(*[self.truthy(self.eq(x, y)) for x, y in zip(a, b)])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SObj):
                m = self.lookup_cls(x.cls, '__eq__')
                if m is not None and isinstance(m[0], types.FunctionType):
                    r = self.call_fn(m[0], [x, y], {}, m[1])
                    if r is not NotImplemented:
                        return r
                    continue
                return self.is_(a, b)
        if hasattr(a, 'guest_eq'):
            return a.guest_eq(b)
        if hasattr(b, 'guest_eq'):
            return b.guest_eq(a)
        r = (a == b) if is_sym(a) else (b == a)
        return r

    def truthy(self, v):
        return v if isinstance(v, (bool, SBool)) else self.truth(v)

    def contains(self, c, x):
        if isinstance(c, (GDict, GSet)):
            return c.contains(x)
        if hasattr(c, 'guest_contains'):
            return c.guest_contains(self, x)
        if hasattr(x, 'guest_in'):
            return x.guest_in(c)
        if isinstance(c, SRope):
            return c.has(x)
        if host(c) and host(x):
            try:
                return x in c
            except Exception as e:
                raise GuestExc(e)
        if isinstance(c, (bytes, bytearray, str)):
            return rope(c).has(x)
        if isinstance(c, range):
            return V.And(x >= c.start, x < c.stop, True if c.step == 1 else (x - c.start) % c.step == 0)
        if isinstance(c, (tuple, list, set, frozenset)):
            return V.Or(*[self.truthy(self.eq(y, x)) for y in c])
        if isinstance(c, dict):
            return V.Or(*[self.truthy(self.eq(y, x)) for y in c.keys()])
        if isinstance(c, GList) and c.prefix is None:
            return V.Or(*[self.truthy(self.eq(y, x)) for y in c.items])
        if isinstance(c, SObj):
            m = self.lookup_cls(c.cls, '__contains__')
            if m is not None:
                return self.truthy(self.call_fn(m[0], [c, x], {}, m[1]))
        if c is None or isint(c):
            graise(TypeError("argument of type %r is not iterable" % type(c).__name__))
        if isinstance(c, SSeq):
            return self.seq_contains(c, x)
        raise Unsupported('membership in %r' % (c,))

    def seq_contains(self, s, x):
        """Some item is x (a witness), or none is (a fact about every index)."""
        ctx, n = V.CTX, s.n
        if not (n > 0):
            return False
        k = ctx.fresh('index', 0)
        ctx.assume(mkb(ze(k) < ze(n)))
        steps = len(ctx.trace)
        e = self.truthy(self.eq(s.item(k), x))
        if len(ctx.trace) != steps:
            raise Unsupported('membership in %r' % (s,))
        if isinstance(e, bool):
            return e
        e = V.zb(e)
        ctx.skolem(k)
        if ctx.decide(V.zb(ctx.fresh_bool('contained'))):
            ctx.assume(e)
            return True
        ctx.forall(lambda j: z3.Implies(z3.And(0 <= j, j < ze(n)), z3.Not(z3.substitute(e, (ze(k), j)))))
        return False

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.make_super(fr, [])
        f = self.ev(e.func, fr)
        if f is sum and e.args and isinstance(e.args[0], ast.ListComp):
            # adding numbers has no effect: as they are made, or afterwards
            args = [self.e_GeneratorExp(e.args[0], fr)] + self.elts(e.args[1:], fr)
        else:
            args = self.elts(e.args, fr, True)
            if any(isinstance(a, StarArgs) for a in args) and not (isinstance(f, types.FunctionType) and (f in self.c.summaries or in_repo(f))):
                raise Unsupported('star of a symbolic sequence')
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, fr)
                if isinstance(d, GDict):
                    kwargs.update({kk: v for kk, v in d.items})
                elif isinstance(d, dict):
                    kwargs.update(d)
                elif hasattr(d, 'kwargs_items'):
                    kwargs.update(d.kwargs_items())
                else:
                    raise Unsupported('** of %r' % (d,))
            else:
                kwargs[k.arg] = self.ev(k.value, fr)
        fr.line = e.lineno
        if f is super:
            return self.make_super(fr, args)
        if f is locals or f is globals or f is vars:
            raise Unsupported(f.__name__)
        return self.call(f, args, kwargs)

    def make_super(self, fr, args):
        if args:
            return SuperProxy(args[0], args[1])
        return SuperProxy(fr.cls, fr.first)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        return self.subscript(self.ev(e.value, fr), self.ev(e.slice, fr))

    def e_Slice(self, e, fr):
        return slice(*[self.ev(x, fr) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Lambda(self, e, fr):
        return self.closure(e, fr, '<lambda>')

    def e_JoinedStr(self, e, fr):
        parts = [self.ev(v, fr) for v in e.values]
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return self.models.fmt_concat(self, parts)

    def e_FormattedValue(self, e, fr):
        v = self.ev(e.value, fr)
        spec = self.ev(e.format_spec, fr) if e.format_spec is not None else ''
        if host(v) and isinstance(spec, str):
            try:
                if e.conversion == 114:
                    v = repr(v)
                elif e.conversion == 115:
                    v = str(v)
                return format(v, spec)
            except Exception as x:
                raise GuestExc(x)
        return self.models.fmt_value(self, v, spec, e.conversion)

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        return fr.yield_handler(v)

    def e_YieldFrom(self, e, fr):
        it = self.iterate(self.ev(e.value, fr))
        if isinstance(it, list):
            for v in it:
                fr.yield_handler(v)
            return None
        if isinstance(it, SGen):
            return self.run_gen(it, fr.yield_handler)
        self.loop_over(it, e, fr, lambda v: fr.env.__setitem__('.yf', v),
                       lambda: fr.yield_handler(fr.env['.yf']), lambda: None)

    # comprehensions ------------------------------------------------------
    def comp_frame(self, fr, e):
        f = Frame(fr.fn_name + '.<comp>', _FakeComp, fr.globs, fr)
        f.locals = set()
        f.cls, f.first = fr.cls, fr.first
        f.line = fr.line
        f.label = '%s.<comp@%d:%d>' % (fr.label, e.lineno, e.col_offset)
        return f

    def run_comp(self, e, fr, emit, first=None):
        f = self.comp_frame(fr, e)
        self.c.frames.append(f)

        def level(i):
            if i == len(e.generators):
                emit(f)
                return
            g = e.generators[i]
            it = first if i == 0 and first is not None else self.iterate(self.ev(g.iter, fr if i == 0 else f))

            def body():
                for cond in g.ifs:
                    if not self.truth(self.ev(cond, f)):
                        return
                level(i + 1)
            self.loop_over(it, g.iter, f, lambda v: self.assign(g.target, v, f), body, lambda: None)
        try:
            level(0)
        finally:
            if self.c.frames and self.c.frames[-1] is f:
                self.c.frames.pop()

    def e_GeneratorExp(self, e, fr):
        first = self.iterate(self.ev(e.generators[0].iter, fr))
        def start(handler):
            return self.run_comp(e, fr, lambda f: handler(self.ev(e.elt, f)), first)
        m = self.seq_map(e, fr, first)
        if m is not None:
            m.gen = SGen(start)
            return m
        return SGen(start)

    def seq_map(self, e, fr, first):
        """A comprehension without filter over an abstract sequence, as one."""
        if not isinstance(first, SSeq) or len(e.generators) != 1 or e.generators[0].ifs:
            return None
        g = e.generators[0]

        def item(k):
            f = self.comp_frame(fr, e)
            self.c.frames.append(f)
            try:
                self.assign(g.target, first.item(k), f)
                return self.ev(e.elt, f)
            finally:
                self.c.frames.pop()
        s = SSeq(first.n, item, 'map(%s)' % first.name)
        s.lazy_map = True
        s.base_seq = first
        return s

    def e_ListComp(self, e, fr):
        first = self.iterate(self.ev(e.generators[0].iter, fr))
        out = GList()
        if isinstance(first, SSeq):
            hook = getattr(self.c, 'listcomp_hook', None)
            r = hook(self, e, fr, first) if hook else None
            if r is not None:
                return r
        self.run_comp(e, fr, lambda f: out.m_append(self.ev(e.elt, f)), first)
        return out

    def e_SetComp(self, e, fr):
        out = GSet()
        self.run_comp(e, fr, lambda f: out.m_add(self.ev(e.elt, f)))
        return out

    def e_DictComp(self, e, fr):
        out = GDict()
        self.run_comp(e, fr, lambda f: out.setitem(self.ev(e.key, f), self.ev(e.value, f)))
        return out

    # ------------------------------------------------------------------ object model
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, SObj):
            return self.obj_truth(v)
        if isinstance(v, SSeq):
            return bool(v)
        return bool(v)

    def obj_truth(self, o):
        m = self.lookup_cls(o.cls, '__bool__')
        if m is not None:
            return self.truth(self.call_fn(m[0], [o], {}, m[1]))
        m = self.lookup_cls(o.cls, '__len__')
        if m is not None:
            n = self.call_fn(m[0], [o], {}, m[1])
            return self.truth(n != 0)
        return True

    def lookup_cls(self, cls, name):
        """(attribute, defining class) along the MRO, without binding."""
        if isinstance(cls, SClass):
            if name in cls.attrs:
                return cls.attrs[name], cls
            if cls.lazy is not None:
                v = cls.lazy(name)
                if v is not UNBOUND:
                    cls.attrs[name] = v
                    return v, cls
            cls = cls.base
        if not isinstance(cls, type):
            return None
        for k in cls.__mro__:
            if name in k.__dict__:
                if k is object and name in ('__eq__', '__init__', '__hash__', '__ne__'):
                    return None
                return k.__dict__[name], k
        return None

    def getattr(self, o, name, default=UNBOUND):
        try:
            return self._getattr(o, name)
        except GuestExc as g:
            if default is not UNBOUND and isinstance(g.exc, AttributeError):
                return default
            raise

    def _getattr(self, o, name):
        if isinstance(o, SuperProxy):
            return self.super_getattr(o, name)
        if isinstance(o, SObj):
            return self.obj_getattr(o, name)
        if isinstance(o, SClass):
            if name == '__name__':
                return o.attrs.get('__name__', SOpaque(str, 'clsname'))
            if name == '__mro__':
                raise Unsupported('__mro__')
            r = self.lookup_cls(o, name)
            if r is None:
                graise(AttributeError(name))
            return self.bind_attr(r[0], None, o, r[1])
        if isinstance(o, Sym):
            a = getattr(o, 'a_' + name, UNBOUND)
            if a is not UNBOUND:
                return a
            if hasattr(o, 'guest_getattr'):
                r = o.guest_getattr(self, name)
                if r is not UNBOUND:
                    return r
            if getattr(o, 'm_' + name, None) is not None:
                return ModelMethod(o, name)
            if name == '__class__':
                return o.pytype
            if isinstance(o.pytype, type) and not hasattr(o.pytype, name):
                graise(AttributeError('%r object has no attribute %r' % (o.pytype.__name__, name)))
            if isinstance(o.pytype, type):
                return ModelMethod(o, name)
            raise Unsupported('attribute %s of %r' % (name, o))
        if isinstance(o, type) and (o.__module__ or '').startswith('ebmlite'):
            ov = self.c.global_override.get((o, name))
            if ov is not None:
                return ov
            r = self.lookup_cls(o, name)
            if r is not None and isinstance(r[0], (classmethod, staticmethod, types.FunctionType)):
                return self.bind_attr(r[0], None, o, r[1])
        if isinstance(o, types.ModuleType):
            ov = self.c.global_override.get((o.__name__, name), UNBOUND)
            if ov is not UNBOUND:
                return ov
            v = getattr(o, name, UNBOUND)
            if v is UNBOUND:
                graise(AttributeError(name))
            return v
        if isinstance(o, (str, bytes, bytearray, int, float, list, tuple, dict, set, frozenset)) and \
                not isinstance(o, type) and callable(getattr(o, name, None)):
            return ModelMethod(o, name)
        try:
            return getattr(o, name)
        except AttributeError as e:
            graise(e)

    def bind_attr(self, a, obj, cls, owner):
        if isinstance(a, classmethod):
            return Bound(cls, a.__func__, owner)
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, (types.FunctionType, Closure)):
            return Bound(obj, a, owner) if obj is not None else a
        if isinstance(a, property):
            if obj is None:
                return a
            if a.fget is None:
                graise(AttributeError('unreadable attribute'))
            return self.call_fn(a.fget, [obj], {}, owner)
        if isinstance(a, types.MemberDescriptorType):
            if obj is None:
                return a
            graise(AttributeError(a.__name__))
        return a

    def obj_getattr(self, o, name):
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            raise Unsupported('__dict__')
        r = self.lookup_cls(o.cls, name)
        if r is not None and isinstance(r[0], property):
            return self.bind_attr(r[0], o, o.cls, r[1])
        if name in o.attrs:
            v = o.attrs[name]
            if v is UNBOUND:
                graise(AttributeError(name))
            return self.nojunk(v)
        if o.lazy is not None:
            v = o.lazy(name)
            if v is not UNBOUND:
                o.attrs[name] = v
                return v
        if r is None:
            g = self.lookup_cls(o.cls, '__getattr__')
            if g is not None:
                return self.call_fn(g[0], [o, name], {}, g[1])
            graise(AttributeError(name))
        return self.bind_attr(r[0], o, o.cls, r[1])

    def super_getattr(self, p, name):
        obj, start = p.obj, p.cls
        cls = obj.cls if isinstance(obj, SObj) else obj
        isobj = isinstance(obj, SObj)
        mro = list(real_base(cls).__mro__)
        if isinstance(start, SClass):
            rest = mro
        else:
            rest = mro[mro.index(start) + 1:]
        for k in rest:
            if name in k.__dict__:
                a = k.__dict__[name]
                if k is object:
                    return ModelMethod(None, 'object.' + name)
                return self.bind_attr(a, obj if isobj else None, cls, k)
        graise(AttributeError(name))

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            r = self.lookup_cls(o.cls, name)
            if r is not None and isinstance(r[0], property):
                if r[0].fset is None:
                    graise(AttributeError("can't set attribute"))
                self.call_fn(r[0].fset, [o, v], {}, r[1])
                return
            self.c.mutate(o, name)
            o.attrs[name] = v
            return
        if isinstance(o, SClass):
            self.c.mutate(o, name)
            o.attrs[name] = v
            return
        if isinstance(o, Sym) and hasattr(o, 'guest_setattr'):
            o.guest_setattr(self, name, v)
            return
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            h = getattr(self.c, 'class_write_hook', None)
            if h is not None and h(o, name, v):
                return
            raise Unsupported('write to attribute %s of %r' % (name, o))
        raise Unsupported('attribute assignment on %r' % (o,))

    def delattr(self, o, name):
        if isinstance(o, SObj):
            if name not in o.attrs or o.attrs[name] is UNBOUND:
                graise(AttributeError(name))
            self.c.mutate(o, name)
            o.attrs[name] = UNBOUND if o.lazy else o.attrs.pop(name) and UNBOUND
            if o.lazy is None:
                o.attrs.pop(name, None)
            return
        raise Unsupported('del attribute')

    def subscript(self, o, k):
        if isinstance(o, GList):
            if isinstance(k, slice):
                if o.prefix is None and host(k):
                    return GList(o.items[k])
                return GList([], seq_slice(o.seq(), k))
            return o.get(k)
        if isinstance(o, GDict):
            return o.getitem(k)
        if isinstance(o, SSeq):
            return o.m___getitem__(k)
        if hasattr(o, 'guest_getitem'):
            return o.guest_getitem(self, k)
        if isinstance(o, (SRope, SByteArray)):
            return o[k]
        if host(o) and host(k):
            try:
                return o[k]
            except Exception as e:
                raise GuestExc(e)
        if isinstance(o, (bytes, bytearray, str)):
            return rope(o)[k]
        if isinstance(o, (list, tuple)):
            if isinstance(k, slice):
                return o[slice(*[x if x is None else self.c.concretize(x) for x in (k.start, k.stop, k.step)])]
            if isint(k):
                n = len(o)
                if not self.truth(V.And(k >= -n, k < n)):
                    graise(IndexError('list index out of range'))
                return o[self.c.concretize(k, 2 * n + 2)]
            graise(TypeError('indices must be integers'))
        if isinstance(o, dict):
            for kk, v in o.items():
                if self.truth(self.eq(kk, k)):
                    return v
            graise(KeyError(k))
        if isinstance(o, SObj):
            m = self.lookup_cls(o.cls, '__getitem__')
            if m is not None:
                return self.call_fn(m[0], [o, k], {}, m[1])
        if isinstance(o, SClass) or isinstance(o, type):
            raise Unsupported('class subscript')
        raise Unsupported('subscript of %r' % (o,))

    def setitem(self, o, k, v):
        if isinstance(o, GDict):
            return o.setitem(k, v)
        if isinstance(o, GList) and o.prefix is None and isinstance(k, int):
            self.c.mutate(o)
            try:
                o.items[k] = v
            except IndexError as e:
                graise(e)
            return
        if hasattr(o, 'guest_setitem'):
            return o.guest_setitem(self, k, v)
        raise Unsupported('item assignment on %r' % (o,))

    def delitem(self, o, k):
        if isinstance(o, GDict):
            return o.delitem(k)
        if hasattr(o, 'guest_delitem'):
            return o.guest_delitem(self, k)
        raise Unsupported('item deletion on %r' % (o,))

    def iterate(self, v):
        """Host list, SSeq or SGen of the values of an iterable."""
        if isinstance(v, (SSeq, SGen)):
            return v
        if isinstance(v, GList):
            s = v.seq()
            return list(s) if isinstance(s, list) else s
        if isinstance(v, GDict):
            return v.m_keys()
        if isinstance(v, GSet):
            return list(v.items)
        if hasattr(v, 'guest_iter'):
            return v.guest_iter(self)
        if isinstance(v, (list, tuple)):
            return list(v)
        if isinstance(v, (SRope, SByteArray)):
            r = rope(v)
            n = r.size()
            if n is not None and n <= UNROLL:
                return [r.wrap1(r.at(i)) for i in range(n)]
            return SSeq(r.n, lambda k: r.wrap1(r.at(k)), 'bytes')
        if isinstance(v, SObj):
            m = self.lookup_cls(v.cls, '__iter__')
            if m is not None:
                return self.iterate(self.call_fn(m[0], [v], {}, m[1]))
            graise(TypeError('object is not iterable'))
        if v is None or isint(v) or isinstance(v, (SFloat, float, SDatetime)):
            graise(TypeError("%r object is not iterable" % type(v).__name__))
        if is_sym(v):
            raise Unsupported('iteration over %r' % (v,))
        if isinstance(v, (types.FunctionType, types.ModuleType, type)):
            graise(TypeError('object is not iterable'))
        if isinstance(v, (str, bytes, bytearray, range, dict, set, frozenset, types.MappingProxyType)) or \
                type(v).__name__ in ('dict_items', 'dict_keys', 'dict_values', 'enumerate', 'zip', 'map', 'filter',
                                     'list_iterator', 'tuple_iterator', 'reversed'):
            if isinstance(v, range) and len(v) > UNROLL:
                return SSeq(len(v), lambda k: v.start + k * v.step, 'range')
            return list(v)
        try:
            return list(v)
        except TypeError as e:
            graise(e)


class _FakeCompNode:
    args = ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
    body = []
    lineno = 0


_FakeComp = ast.Lambda(args=_FakeCompNode.args, body=ast.Constant(value=None))


class SuperProxy:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


def defining_class(fn):
    """Class in whose body a repository function is defined, from its qualname."""
    q = fn.__qualname__.split('.')
    if len(q) < 2 or '<locals>' in q:
        return None
    import sys
    m = sys.modules.get(fn.__module__)
    o = m
    for p in q[:-1]:
        o = getattr(o, p, None)
    return o if isinstance(o, type) else None


def to_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(id=t.id, ctx=ast.Load())
    return t

from .base import *
from .tree import *
from .nodes import *
from .c11 import PARSE, HEADERS
from .c12 import ITERATION, DITERATION, LEVEL_ENDS
from .c14 import LEAF
from . import k_parse as K
import ebmlite.util as util

ITER = core.MasterElement.__iter__


# ------------------------------------------------------------------ flatiter
class Flat:
    """S(x, d): x, then everything below x down to depth d (any negative: no
    limit), depth first: ELEM(x, d, 0..LEN(x, d) - 1)."""
    def __init__(self, c, w):
        self.c, self.w = c, w
        self.LEN, self.ELEM = fun(c, 'LEN', 'i', 'i', 'i'), fun(c, 'ELEM', 'i', 'i', 'i', 'i')

    def norm(self, d):
        if d is None:
            return Z(-1)
        return z3.If(ze(d) < 0, Z(-1), ze(d))

    def len(self, x, nd):
        n = self.LEN(x, nd)
        self.c.assume(z3.And(n >= 1, self.ELEM(x, nd, Z(0)) == x, z3.Implies(z3.Or(nd == 0, z3.Not(self.w.MASTER(x))), n == 1)))
        return n

    def item(self, x, nd, i, **more):
        return self.w.node(self.ELEM(x, nd, ze(i)), **more)


class Walk:
    """Checks a traversal of the node `el` to depth d: what it yields, given
    that the recursive calls yield what they should."""
    def __init__(self, c, F, el, nd, first, check):
        self.c, self.F, self.w, self.el, self.nd, self.check = c, F, F.w, el, nd, check
        self.f = 0 if first else 1          # how many come before the children
        self.OFF = fun(c, 'OFF', 'i', 'i')
        c.assume(self.OFF(Z(0)) == 0)
        self.cnd = z3.If(nd < 0, Z(-1), nd - 1)     # the depth below a child
        self.deep = z3.And(nd != 0, self.w.MASTER(el.x))
        self.y, self.kk, self.base = Cell(0), Cell(0), Cell(0)
        self.n = z3.If(self.deep, self.w.M(el.x), 0)

        def ghosts(loc, sh, old, seq):
            if sh[0] == 'int':
                return [('elements below the children so far', lambda k: mki(self.f + self.at(k))),
                        ('those below the children before', lambda k: mki(self.f + self.at(k - 1)))]
            return []
        c.ghosts.append(ghosts)

    def at(self, k):
        """Number of elements of the children before child k."""
        k = ze(k)
        for j in (k - 1, k):
            self.c.assume(z3.Implies(j >= 0, self.OFF(j + 1) == self.OFF(j) + self.F.len(self.w.CH(self.el.x, j), self.cnd)))
        return self.OFF(k)

    def begin(self, x):
        k = self.kk.get()
        self.check(mkb(z3.And(self.deep, ze(k) < self.n, x == self.w.CH(self.el.x, ze(k)))), 'children once, in order, down to the depth')
        self.check(mkb(ze(self.y.get()) == self.f + self.at(k)), 'all elements below a child before the next child')
        self.base.set(self.y.get())
        self.kk.set(k + 1)

    def recurse(self, node, d, first):
        """A recursive call: what it yields."""
        nd = self.F.norm(d)
        if first:
            k = self.kk.get()
            self.check(mkb(z3.And(ze(k) >= 1, node.x == self.w.CH(self.el.x, ze(k) - 1), ze(self.y.get()) == ze(self.base.get()) + 1)),
                       'a child before what is below it')
        else:
            self.begin(node.x)
        self.check(mkb(nd == self.cnd), 'one level of depth used up')
        n, s = self.F.len(node.x, self.cnd), 1 if first else 0
        kk = self.kk.get()
        return SSeq(mki(n - s), lambda j: self.F.item(node.x, self.cnd, j + s, j=j + s, kk=kk), 'below')

    def yielded(self, v):
        if not isinstance(v, Node):
            self.check(False, 'yields elements')
            raise PathAbort()
        y = self.y.get()
        if v is self.el:
            self.check(self.f == 1 and mkb(ze(y) == 0), 'the element itself first, unless it is the start')
        elif hasattr(v, 'j'):
            self.check(mkb(z3.And(ze(y) == ze(self.base.get()) + ze(v.j), ze(v.kk) == ze(self.kk.get()))), 'what is below a child, in order')
        else:
            self.begin(v.x)
            y = self.y.get()
        self.y.set(y + 1)
        self.c.cover('yields')

    def end(self, exc):
        if exc is None:
            self.check(mkb(ze(self.kk.get()) == self.n), 'all children')
            self.check(mkb(ze(self.y.get()) == self.f + self.at(mki(self.n))), 'all elements')
        else:
            self.check(isinstance(exc, HeaderError), 'raises only what reading the children raises')
            self.c.cover('raises')


def run_gen(ip, g, handler):
    it = ip.iterate(g)
    if isinstance(it, list):
        for v in it:
            handler(v)
    elif isinstance(it, SGen):
        ip.run_gen(it, handler)
    else:
        raise Unsupported('the traversal is no generator')


def flat(c):
    w = Nodes(c)
    ip = w.ip
    F = Flat(c, w)
    E = w.node()
    w.attrs['value'] = lambda n: w.children(n) if c.decide(w.MASTER(n.x)) else SOpaque(object, 'value')
    depth = c.case('depth', None, lambda: c.fresh('depth'))
    nd = F.norm(depth)
    c.inputs['depth'] = depth
    st = dict(walk=None, outer=None)

    def args_of(args, kwargs):
        vs = list(args) + list(kwargs.values())
        nodes = [v for v in vs if isinstance(v, Node)]
        bools = [v for v in vs if isinstance(v, bool)]
        ints = [v for v in vs if v is None or isint(v) and not isinstance(v, bool)]
        if len(nodes) != 1 or len(ints) != 1 or len(bools) > 1 or len(vs) != len(nodes) + len(bools) + len(ints):
            return None
        return nodes[0], ints[0], bools

    def inner(ip, fn, args, kwargs):
        """The inner generator, if there is one: yields S(node, depth)."""
        a = args_of(args, kwargs)
        if a is None:
            return NotImplemented
        node, d, bools = a
        first = bool(bools) and bools[0]
        if st['walk'] is not None:
            return st['walk'].recurse(node, d, first)
        if c.choose(2, 'inner') == 0:
            # by contract
            if node is not E:
                return st['outer'].recurse(node, d, first)
            c.prove(mkb(F.norm(d) == nd), 'down to the given depth')
            n2, s = F.len(node.x, nd), 1 if first else 0
            return SSeq(mki(n2 - s), lambda j: F.item(node.x, nd, j + s, whole=j + s), 'inner')
        # the contract is kept, for any arguments
        el = w.node()
        d2 = c.case('inner depth', *([None] if d is None else [lambda: c.fresh('d')]))
        f2 = c.case('first', False, True) if bools else False
        W = st['walk'] = Walk(c, F, el, F.norm(d2), f2, guess(c))
        sub = lambda v: el if isinstance(v, Node) else f2 if isinstance(v, bool) else d2
        got = outcome(lambda: run_gen(ip, ip.invoke_closure(fn, [sub(v) for v in args], {k: sub(v) for k, v in kwargs.items()}), W.yielded))
        W.end(got[1] if got[0] == 'exc' else None)
        c.cover('inner')
        raise PathAbort()
    c.on_closure = inner

    def public(ip, args, kwargs):
        if st['outer'] is None:
            st['outer'] = W
            return NotImplemented
        a = bindargs(util.flatiter, args, kwargs)
        if not isinstance(a['element'], Node) or not (a['depth'] is None or isint(a['depth'])):
            raise Unsupported('recursive call of flatiter')
        return st['outer'].recurse(a['element'], a['depth'], True)
    c.summaries[util.flatiter] = public
    W = Walk(c, F, E, nd, True, c.prove)
    args = [E] if depth is None and c.case('given', False, True) is False else [E, depth]
    g = ip.call(util.flatiter, args)
    # as a traversal with an inner function, or with itself as recursion
    y = Cell(0)

    def handler(v):
        if not isinstance(v, Node):
            c.prove(False, 'yields elements')
            raise PathAbort()
        if hasattr(v, 'whole'):
            c.prove(mkb(z3.And(ze(y.get()) + 1 == ze(v.whole), ze(W.kk.get()) == 0, ze(W.y.get()) == 0)), 'every element below the start, in order')
            y.set(y.get() + 1)
            c.cover('yields')
            return
        W.yielded(v)
    got = outcome(lambda: run_gen(ip, g, handler))
    n = F.len(E.x, nd) - 1
    if c.valid(mkb(ze(y.get()) > 0)):
        c.prove(mkb(ze(y.get()) == n), 'every element below the start')
        c.prove(mkb(z3.And(ze(W.y.get()) == 0, got[0] == 'ok')), 'nothing else')
    elif c.valid(n == 0):
        c.prove(mkb(z3.And(ze(y.get()) == 0, ze(W.y.get()) == 0)), 'nothing if there is nothing below')
    elif c.valid(mkb(z3.And(ze(W.y.get()) == 0, ze(y.get()) == n))):
        pass
    else:
        c.assume(n == W.at(mki(W.n)))       # what S is, here
        W.end(got[1] if got[0] == 'exc' else None)
    c.cover('end')


# ------------------------------------------------------------------ verify
def verify(c):
    w = Nodes(c)
    ip = w.ip
    OK, ALL = fun(c, 'OK', 'i', 'b'), fun(c, 'ALLOK', 'i', 'i', 'b')

    def facts(x):
        """OK(x): everything at x and below is defined and readable."""
        c.assume(OK(x) == z3.If(w.MASTER(x), z3.And(ALL(x, w.M(x)), z3.Not(w.ERR(x))),
                                z3.And(z3.Not(w.UNKNOWN(x)), z3.Not(w.NOVALUE(x)))))
        c.assume(ALL(x, Z(0)))
        c.forall(lambda j: z3.Implies(z3.And(ALL(x, w.M(x)), 0 <= j, j < w.M(x)), OK(w.CH(x, j))))

    def step(x, k):
        for j in (k - 1, k):
            c.skolem(j)
            c.assume(z3.Implies(j >= 0, ALL(x, j + 1) == z3.And(ALL(x, j), OK(w.CH(x, j)))))

    def value(n):
        if c.decide(w.MASTER(n.x)):
            return w.children(n)
        if c.decide(w.NOVALUE(n.x)):
            graise(DecodeError('the value'))
        return SOpaque(object, 'value')
    w.attrs['value'] = value
    w.attrs['id'] = lambda n: c.fresh('id', 0)
    w.attrs['name'] = lambda n: SOpaque(str, 'name')
    D, D2 = w.node(), w.node()
    c.assume(w.DOC(D.x))
    c.assume(w.DOC(D2.x))
    data = SOpaque(bytes, 'data')
    stream = SOpaque(io.BytesIO, 'stream')

    def bio(ip, *a):
        if len(a) != 1 or a[0] is not data:
            raise Unsupported('BytesIO')
        return stream
    c.models[io.BytesIO] = bio

    def load(fn):
        def s(ip, args, kwargs):
            a = bindargs(fn, args, kwargs)
            if a.get('fp', a.get('data')) is not (stream if fn is core.Schema.load else data) or a.get('kwargs'):
                raise Unsupported('load')
            # the document lists its header or not (C24)
            return D if a.get('headers', False) is True else D2
        return s
    for fn in (core.Schema.load, core.Schema.loads):
        c.summaries[fn] = load(fn)
    schema = known(None, SObj(core.Schema, {}, 'schema'))
    st = dict(active=False)

    def inner(ip, fn, args, kwargs):
        vs = list(args) + list(kwargs.values())
        if len(vs) != 1 or not isinstance(vs[0], Node):
            return NotImplemented
        el = vs[0]
        if st['active']:
            facts(el.x)
            if hasattr(el, 'k'):
                c.skolem(ze(el.k))
            if c.decide(OK(el.x)):
                return True
            graise(DecodeError('below'))
        if c.choose(2, 'inner') == 0:
            facts(el.x)
            if c.decide(OK(el.x)):
                return True
            graise(DecodeError('below'))
        st['active'] = True
        el = w.node()
        facts(el.x)
        c.skolem(Z(0))
        hist(el)
        sub = lambda v: el if isinstance(v, Node) else v
        got = outcome(lambda: ip.invoke_closure(fn, [sub(v) for v in args], {k: sub(v) for k, v in kwargs.items()}))
        step(el.x, w.M(el.x))
        finish(guess(c), el, got, 'inner')
        c.cover('inner')
        raise PathAbort()

    def hist(el):
        def h(k):
            step(el.x, ze(k))
            return mkb(z3.And(ALL(el.x, ze(k)), w.MASTER(el.x)))
        c.history.append(('what was read so far is fine', h))

    def finish(check, el, got, how):
        if got[0] == 'ok':
            check(mkb(OK(el.x)), 'returns only if all elements are defined and readable')
            check(got[1] is True, 'returns True')
            c.cover(how + ' returns')
        else:
            check(mkb(z3.Not(OK(el.x))), 'raises only if an element is not defined or not readable')
            c.cover(how + ' raises')
    c.on_closure = inner
    facts(D.x)
    facts(D2.x)
    hist(D)
    got = outcome(lambda: ip.call(ip.getattr(schema, 'verify'), [data]))
    finish(c.prove, D, got, 'verify')


# ------------------------------------------------------------------ dump
class Watch(Sym):
    """A dict of which one key X is watched, any key: what it holds there."""
    pytype = dict

    def __init__(self, w):
        self.w = w
        self.has = False
        self.vals = []          # the list held, as host list or SSeq
        self.one = -1           # ... or the single value held
        self.others = {}        # what is known of other keys: there or not
        V.CTX.register(self, 'dict')

    def heap_get(self, part):
        return SList(self.vals) if part == 'vals' else getattr(self, part)

    def heap_set(self, part, v):
        if part == 'vals':
            v = v.s if isinstance(v, SList) else SSeq(V.CTX.fresh('len', 0), lambda k: UNBOUND, 'unknown')
        setattr(self, part, v)

    def put(self, part, v):
        V.CTX.mutate(self, part)
        setattr(self, part, v)

    def watched(self, k):
        if not isinstance(k, ElName):
            raise Unsupported('key %r' % (k,))
        return self.w.c.decide(k.t == self.w.X)

    def value(self, k):
        return Slot(self) if self.w.mult else Held(self.one)

    def guest_contains(self, ip, k):
        return self.has if self.watched(k) else self.present(k)

    def present(self, k):
        if self.watched(k):
            return bool(V.CTX.interp.truth(self.has))
        t = str(k.t)
        if t not in self.others:
            self.others[t] = bool(V.CTX.interp.truth(V.CTX.fresh_bool('in')))
        return self.others[t]

    def added(self, k):
        self.others = {t: True for t, v in self.others.items() if v}    # keys stay; others may equal this one
        self.others[str(k.t)] = True

    def guest_getitem(self, ip, k):
        if not self.present(k):
            graise(KeyError(k))
        return self.value(k) if self.watched(k) else Elsewhere()

    def m_get(self, k, d=None):
        if not self.present(k):
            return d
        return self.value(k) if self.watched(k) else Elsewhere()

    def store(self, v):
        if self.w.mult:
            if isinstance(v, Slot) and v.d is self:
                pass
            elif isinstance(v, GList):
                s = v.seq()
                self.put('vals', list(s) if isinstance(s, list) else s)
                v.slot = Slot(self)
                v.__class__ = GivenAway
            else:
                self.w.c.prove(False, 'a list of dumps')
                raise PathAbort()
        elif isinstance(v, DumpVal):
            self.put('one', mki(v.x))
        elif isinstance(v, Held):
            pass
        else:
            self.w.c.prove(False, 'a dump')
            raise PathAbort()
        self.put('has', True)

    def guest_setitem(self, ip, k, v):
        if self.watched(k):
            self.store(v)
        else:
            self.added(k)

    def m_setdefault(self, k, d=None):
        if not self.watched(k):
            self.added(k)
            return Elsewhere()
        if not V.CTX.interp.truth(self.has):
            self.store(d)
        return self.value(k)

    def m_update(self, *a, **k):
        raise Unsupported('update')

    def __bool__(self):
        raise Unsupported('truth of the dict')

    __hash__ = Sym.__hash__


class GivenAway(GList):
    """A list now held in the dict: used only through it from here on."""
    def seq(self):
        raise Unsupported('a list used beside the dict that holds it')
    def m_append(self, v):
        self.slot.m_append(v)
    m_extend = get = heap_get = heap_set = lambda self, *a: self.seq()


class Slot(Sym):
    """The list held under the watched key."""
    pytype = list

    def __init__(self, d):
        self.d = d

    def is_none(self):
        return False

    def m_append(self, v):
        d = self.d
        if isinstance(d.vals, list):
            d.put('vals', d.vals + [v])
        else:
            g = GList([v], d.vals)
            d.put('vals', g.seq())

    def guest_isinstance(self, ip, u):
        return u is list or isinstance(u, tuple) and list in u

    def __bool__(self):
        raise Unsupported('truth of a list')

    __hash__ = Sym.__hash__


class Elsewhere(Sym):
    """The list or value held under another key."""
    def is_none(self):
        return False

    def m_append(self, v):
        pass

    @property
    def pytype(self):
        raise Unsupported('value under another name')

    def guest_getattr(self, ip, name):
        if name == 'append':
            return Thunk(lambda v: None)
        raise Unsupported('value under another name')


class Held(Sym):
    def __init__(self, x):
        self.x = x


class ElName(Sym):
    pytype = str

    def __init__(self, t):
        self.t = t

    def is_none(self):
        return False

    __hash__ = Sym.__hash__


class DumpVal(Sym):
    """What dump() of an element gives."""
    def __init__(self, x):
        self.x = x

    def seqkey(self):
        return mki(self.x)

    def is_none(self):
        return False

    def same_as(self, ip, o):
        return isinstance(o, DumpVal) and ip.c.valid(self.x == o.x)

    __hash__ = Sym.__hash__


def dump(c):
    w = Nodes(c)
    ip = w.ip
    NAME, MULT, NODUMP = fun(c, 'NAME', 'i', 'i'), fun(c, 'MULTIPLE', 'i', 'b'), fun(c, 'NODUMP', 'i', 'b')
    w.X = c.fresh('X').e
    w.mult = c.case('multiple', True, False)
    E = w.node()
    c.assume(w.MASTER(E.x))
    M = w.M(E.x)
    CNT, NTH, LAST = fun(c, 'COUNT', 'i', 'i'), fun(c, 'NTH', 'i', 'i'), fun(c, 'LAST', 'i', 'i')
    c.assume(CNT(Z(0)) == 0)
    c.assume(LAST(Z(0)) == -1)

    def is_x(j):
        return NAME(w.CH(E.x, j)) == w.X

    def step(k):
        k = ze(k)
        for j in (k - 1, k):
            # which children are called X: NTH(0), NTH(1), ...
            c.assume(z3.Implies(j >= 0, z3.And(CNT(j + 1) == CNT(j) + z3.If(is_x(j), 1, 0), CNT(j) >= 0,
                                               LAST(j + 1) == z3.If(is_x(j), w.CH(E.x, j), LAST(j)),
                                               z3.Implies(is_x(j), NTH(CNT(j)) == j))))
        return k
    w.attrs['name'] = lambda n: ElName(NAME(n.x))

    def multiple(n):
        c.assume(z3.Implies(NAME(n.x) == w.X, MULT(n.x) == z3.BoolVal(w.mult)))    # a property of the class named so
        return mkb(MULT(n.x))
    w.attrs['multiple'] = multiple
    w.attrs['dtype'] = w.attrs['id'] = lambda n: SOpaque(object, 'attribute')

    def dumped(n):
        def f():
            if c.decide(NODUMP(n.x)):
                graise(DecodeError('a value'))
            return DumpVal(n.x)
        return Thunk(f)
    w.attrs['dump'] = dumped
    c.models['new_dict'] = lambda ip: Watch(w)
    el = known(None, SObj(SClass(core.MasterElement if c.case('kind', 'Master', 'Document') == 'Master' else core.Document, dict(name=SOpaque(str, 'name')), 'Sub'),
                          dict(_value=None), 'el'))

    def it(ip, args, kwargs):
        return w.children(E)
    c.summaries[ITER] = c.summaries[core.Document.__iter__] = it
    if el.cls.base is core.MasterElement:
        c.summaries[MVALUE] = it

    def ghosts(loc, sh, old, seq):
        if sh[0] == 'list' and w.mult:
            return [('the dumps so far', lambda k: SList(SSeq(mki(CNT(step(k))), lambda j: DumpVal(w.CH(E.x, NTH(ze(j)))), 'dumps')))]
        if sh[0] == 'bool':
            return [('has one', lambda k: mkb(CNT(step(k)) > 0))]
        if sh[0] == 'int' and not w.mult:
            return [('the last', lambda k: mki(LAST(step(k))))]
        return []
    c.ghosts.append(ghosts)
    got = outcome(lambda: ip.call(ip.getattr(el, 'dump'), []))
    step(mki(M))
    if got[0] == 'exc':
        c.prove(isinstance(got[1], (HeaderError, DecodeError)), 'raises only what reading the elements raises')
        c.cover('raises')
        return
    r = got[1]
    if not isinstance(r, Watch):
        raise Unsupported('the result of dump')
    c.prove(z3.Not(w.ERR(E.x)), 'an unreadable child is not ignored')
    has = zb(r.has)
    n = CNT(M)
    c.prove(mkb(has == (n > 0)), 'an entry for every name of an element')
    if w.mult:
        c.prove(mkb(z3.Implies(has, ze(SList(r.vals).n) == n)), 'every element of a type marked multiple')
        j = c.fresh('j', 0)
        c.assume(j.e < n)
        c.assume(has)
        x = SList(r.vals).at(j)
        c.prove(isinstance(x, DumpVal) and mkb(x.x == w.CH(E.x, NTH(j.e))), 'in order')
        c.cover('multiple')
    else:
        c.prove(mkb(z3.Implies(has, ze(r.one) == LAST(M))), 'the element of a type not marked multiple')
        c.cover('single')


KINDS = [
    Kind('flat', K.check_flat, K.gen_flat, K.dir_flat, n=2000),
    Kind('verify', K.check_verify, K.gen_verify, K.dir_verify, n=3000),
    Kind('dump', K.check_dump, K.gen_dump, K.dir_dump, n=1500),
]

PROPERTY = Property('C21', [
    HEADERS, PARSE, LEVEL_ENDS, ITERATION, DITERATION, LEAF,
    Proof('flatiter', flat, ['util.flatiter'], covers=['end', 'yields']),
    Proof('Schema.verify', verify, ['core.Schema.verify'], covers=['verify returns', 'verify raises']),
    Proof('MasterElement.dump', dump, ['core.MasterElement.dump'], covers=['multiple', 'single', 'raises']),
], KINDS)

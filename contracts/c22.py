"""C22: thread-aware files.

The state of a ThreadAwareFile is the map from threads to streams: entries of
any number of other threads, and possibly one of the current thread.  Other
threads act between any two steps: they may add entries of their own and remove
entries whose stream is closed (that is all their own operations do)."""
import io
import threading
import types
from .base import *
from . import k_misc as K
from pyvc.interp import UNBOUND, Junk, SSeq
import ebmlite.threaded_file as T

TAF = T.ThreadAwareFile
MODNAME = T.__name__


class Tok(Sym):
    """An argument or result about which nothing is known."""
    def __init__(self, name, kind=None):
        self.name = name
        self.pytype = type('Tok', (), {'__module__': 'pyvc.values'})

    def __repr__(self):
        return '<%s>' % self.name

    def __bool__(self):
        raise Unsupported('truth of %r' % self)

    def __eq__(self, o):
        return o is self

    def ident_eq(self, o):
        if o is None or o is self or isinstance(o, Tok):
            return o is self
        raise Unsupported('identity of %r' % self)

    __hash__ = Sym.__hash__


class Thread(Sym):
    """Thread number j (0..n-1: those with an entry)."""
    pytype = threading.Thread

    def __init__(self, j):
        self.j = j

    def guest_eq(self, o):
        return mkb(ze(self.j) == ze(o.j)) if isinstance(o, Thread) else False

    ident_eq = guest_eq

    def guest_getattr(self, ip, name):
        # idents of finished threads are reused: nothing follows from them
        raise Unsupported('attribute %s of a thread' % name)

    def __bool__(self):
        return True

    __hash__ = Sym.__hash__


class Stream(Sym):
    """The stream of thread j; every use of it is an event."""
    pytype = io.FileIO

    def __init__(self, w, j, name=''):
        self.w, self.j, self.name = w, j, name

    def guest_eq(self, o):
        return mkb(ze(self.j) == ze(o.j)) if isinstance(o, Stream) else False

    ident_eq = guest_eq

    def __bool__(self):
        return True

    def guest_getattr(self, ip, name):
        if name == 'closed':
            return self.w.closed(self.j)
        if hasattr(io.FileIO, name) and callable(getattr(io.FileIO, name)):
            return Op(self, name)
        self.w.event(self, name, None, None)
        return self.w.result(self, name)

    __hash__ = Sym.__hash__


class Op(Sym):
    def __init__(self, s, name):
        self.s, self.name = s, name

    def guest_call(self, ip, args, kwargs):
        w = self.s.w
        w.event(self.s, self.name, list(args), dict(kwargs))
        if self.name in ('close', '__exit__'):
            w.close(self.s.j)
        return w.result(self.s, self.name)

    __hash__ = Sym.__hash__


class Pred(Sym):
    """Which threads have an entry."""
    def __init__(self, f):
        self.f = f

    def heap_shape(self):
        return ('junk',)

    def same_as(self, ip, o):
        if not isinstance(o, Pred):
            return False
        x = ip.c.fresh('tx')
        ip.c.skolem(x.e)
        return ip.c.valid(self.f(x.e) == o.f(x.e))

    __hash__ = Sym.__hash__


class TMap(Sym):
    """The threads attribute: {thread: stream}."""
    pytype = dict

    def __init__(self, w, pred):
        self.w, self.pred = w, Pred(pred)
        self.set = []           # (index, value) stored since
        V.CTX.register(self, 'threads')

    def heap_get(self, part):
        return self.pred

    def heap_set(self, part, v):
        if isinstance(v, Pred):
            self.pred = v
            return
        P = z3.Function(self.w.c.uname('PRES'), V.INT, z3.BoolSort())
        self.pred = Pred(lambda x: P(x))

    def _j(self, k):
        if not isinstance(k, Thread):
            raise Unsupported('threads are told apart by %r' % (k,))
        return k.j

    def has(self, j):
        """Is there an entry of thread j right now?  (Other threads may have
        removed one of a closed stream, not of an open one.)"""
        w = self.w
        if not decide(w.c, mkb(self.pred.f(ze(j)))):
            return False
        if decide(w.c, mkb(ze(j) == ze(w.cur))):
            return True
        if decide(w.c, w.closed(j)):
            if w.c.choose(2, 'removed meanwhile') == 1:
                w.c.mutate(self)
                f = self.pred.f
                self.pred = Pred(lambda x: z3.And(f(x), x != ze(j)))
                return False
        return True

    def guest_contains(self, ip, k):
        return self.has(self._j(k))

    def value(self, j):
        for i, v in reversed(self.set):
            if decide(self.w.c, mkb(ze(i) == ze(j))):
                return v
        return Stream(self.w, j)

    def guest_getitem(self, ip, k):
        j = self._j(k)
        if not self.has(j):
            graise(KeyError(k))
        return self.value(j)

    def guest_setitem(self, ip, k, v):
        j = self._j(k)
        if not isinstance(v, Stream):
            raise Unsupported('entry %r' % (v,))
        self.w.c.prove(mkb(ze(j) == ze(self.w.cur)), 'stores nothing under another thread')
        self.w.c.mutate(self)
        f = self.pred.f
        self.pred = Pred(lambda x: z3.Or(f(x), x == ze(j)))
        self.set.append((j, v))

    def remove(self, j):
        self.w.c.mutate(self)
        f = self.pred.f
        self.pred = Pred(lambda x: z3.And(f(x), x != ze(j)))
        self.w.c.prove(Or(mkb(ze(j) == ze(self.w.cur)), self.w.closed(j)), 'removes no open stream of another thread')

    def guest_delitem(self, ip, k):
        j = self._j(k)
        if not self.has(j):
            graise(KeyError(k))
        self.remove(j)

    def m_get(self, k, d=None):
        j = self._j(k)
        return self.value(j) if self.has(j) else d

    def m_pop(self, k, *d):
        j = self._j(k)
        if not self.has(j):
            if d:
                return d[0]
            graise(KeyError(k))
        v = self.value(j)
        self.remove(j)
        return v

    def m_setdefault(self, k, d=None):
        j = self._j(k)
        if not self.has(j):
            self.guest_setitem(None, k, d)
        return self.value(j)

    def m_clear(self):
        x = self.w.c.fresh('anyone', 0)
        self.w.c.skolem(x.e)
        self.w.c.prove(mkb(z3.Implies(z3.And(self.pred.f(x.e), x.e != ze(self.w.cur)), zb(self.w.closed(x)))), 'removes no open stream of another thread')
        self.w.c.mutate(self)
        self.pred = Pred(lambda x: z3.BoolVal(False))

    def entries(self, item):
        """The entries at this moment, in some order."""
        w = self.w
        n = w.c.fresh('entries', 0)
        f = self.pred.f
        AT = z3.Function(w.c.uname('AT'), V.INT, V.INT)
        ix = z3.Function(w.c.uname('IX'), V.INT, V.INT)

        def it(k):
            j = AT(ze(k))
            # a distinct entry at every place
            w.c.assume(z3.Implies(z3.And(ze(k) >= 0, ze(k) < n.e), z3.And(f(j), ix(j) == ze(k), j >= 0)))
            return item(mki(j))
        s = SSeq(n, it, 'threads')
        s.AT, s.IX, s.pred0, s.tmap = AT, ix, f, self
        w.c.forall(lambda x: z3.Implies(f(x), z3.And(AT(ix(x)) == x, ix(x) >= 0, ix(x) < n.e)))
        return s

    def guest_iter(self, ip):
        return self.entries(lambda j: Thread(j))

    def m_keys(self):
        return self.entries(lambda j: Thread(j))

    def m_values(self):
        return self.entries(lambda j: self.value(j))

    def m_items(self):
        return self.entries(lambda j: (Thread(j), self.value(j)))

    def m_copy(self):
        raise Unsupported('copy of the map')

    def __bool__(self):
        raise Unsupported('truth of the map')

    __hash__ = Sym.__hash__


class Opener(Sym):
    """io.FileIO as the module sees it."""
    pytype = type

    def __init__(self, w):
        self.w = w

    def guest_call(self, ip, args, kwargs):
        w, c = self.w, self.w.c
        w.opened.append((list(args), dict(kwargs)))
        mode = args[1] if len(args) > 1 else kwargs.get('mode', 'r')
        if isinstance(mode, (str, SRope)):
            c.prove(mkb(z3.Not(writing(c, mode))), 'never opens for writing')
        elif not isinstance(mode, Tok):
            raise Unsupported('mode %r' % (mode,))
        if c.choose(2, 'open fails') == 1:
            graise(OSError('cannot open'))
        return Stream(w, w.cur, 'new')

    def guest_getattr(self, ip, name):
        raise Unsupported('FileIO.%s' % name)

    __hash__ = Sym.__hash__


def writing(c, mode):
    """Does the mode contain a character that would let the file be written?"""
    r = V.rope(mode)
    bad = [ord(x) for x in 'awx+']
    n = r.size()
    if n is not None:
        return zb(Or(*[mkb(ze(mki(r.at(z3.IntVal(i)))) == b) for i in range(n) for b in bad])) if n else z3.BoolVal(False)
    key = id(mode)
    memo = c.notes.setdefault('writing', {})
    if key not in memo:
        W = c.fresh_bool('WRITING')
        j = c.fresh('where', 0)
        isbad = lambda t: z3.Or(*[r.at(t) == b for b in bad])
        c.assume(z3.Implies(W.e, z3.And(j.e < ze(r.n), isbad(j.e))))
        c.skolem(j.e)
        # `where` is the first of them
        c.forall(lambda t: z3.Implies(z3.And(t >= 0, t < z3.If(W.e, j.e, ze(r.n))), z3.Not(isbad(t))))

        for i in range(14):               # the first iterations of a loop that is not cut
            c.skolem(z3.IntVal(i))

        def before(k):
            c.skolem(ze(k))
            return mkb(ze(k) <= z3.If(W.e, j.e, ze(r.n)))
        c.history.append(('no character found before', before))
        memo[key] = (W.e, mode)
    return memo[key][0]


class Waiter(Sym):
    """threading.Event, used to hold threads back for a while."""
    pytype = threading.Event
    m_wait = m_set = m_clear = m_is_set = lambda self, *a: True

    def __bool__(self):
        return True

    __hash__ = Sym.__hash__


class World:
    def __init__(self, c):
        self.c = c
        self.ip = Interp(c)
        self.cur = c.fresh('me', 0)
        self.CL = z3.Function('CLOSED', V.INT, z3.BoolSort())
        self.closed_now = []
        self.events, self.opened, self.results = [], [], []
        o = c.global_override
        me = Const(lambda: Thread(self.cur))
        for mod, names in (('threading', ('currentThread', 'current_thread')), (MODNAME, ('currentThread', 'current_thread'))):
            for n in names:
                o[(mod, n)] = me
        op = Opener(self)
        for mod in ('io', '_io', MODNAME):
            o[(mod, 'FileIO')] = op
        ev = Const(lambda: Waiter())
        o[('threading', 'Event')] = o[(MODNAME, 'Event')] = ev

    def closed(self, j):
        e = self.CL(ze(j))
        for i in self.closed_now:
            e = z3.Or(e, ze(j) == ze(i))
        return mkb(e)

    def close(self, j):
        self.closed_now.append(j)

    def event(self, s, name, args, kwargs):
        self.c.prove(mkb(ze(s.j) == ze(self.cur)), 'acts on no stream of another thread')
        self.events.append((s, name, args, kwargs))

    def result(self, s, name):
        r = Tok('result of ' + name)
        self.results.append(r)
        return r

    def file(self, args=None, kwargs=None):
        """A thread-aware file in any state its operations can leave it in."""
        PRES = z3.Function('PRESENT', V.INT, z3.BoolSort())
        m = TMap(self, lambda x: PRES(x))
        self.PRES = PRES
        mode = V.opaque_text('mode')
        self.c.assume(mkb(z3.Not(writing(self.c, mode))))
        args = (Tok('name'), mode) if args is None else args
        kw = GDict([], 'initKwargs') if kwargs is None else kwargs
        f = SObj(TAF, dict(threads=m, initArgs=args, initKwargs=kw, timeout=Tok('timeout'), _ready=Waiter(), _mode=mode), 'file')
        self.f, self.m, self.before = f, m, dict(f.attrs)
        c = self.c

        def ghosts(loc, sh, old, seq):
            if getattr(seq, 'tmap', None) is m and loc[0] == 'heap':
                p0 = seq.pred0
                return [('closed ones dropped so far', lambda k: Pred(lambda x: z3.And(p0(x), z3.Not(z3.And(seq.IX(x) < ze(k), zb(self.closed(mki(x))))))))]
            return []
        c.ghosts.append(ghosts)
        return f

    def frame(self):
        """Nothing but the map has changed, and it only for this thread."""
        c = self.c
        for k, v in self.f.attrs.items():
            if self.before.get(k) is not v:
                raise Unsupported('attribute %s of the file changes' % k)
        x = c.fresh('other', 0)
        c.skolem(x.e)
        was, now = self.PRES(x.e), self.m.pred.f(x.e)
        c.prove(mkb(z3.Implies(z3.And(x.e != ze(self.cur), was, z3.Not(self.CL(x.e))), now)), 'the open streams of the other threads stay theirs')
        c.prove(mkb(z3.Implies(z3.And(x.e != ze(self.cur), now), was)), 'no entry appears for another thread')


class Const(Sym):
    def __init__(self, f):
        self.f = f

    def guest_call(self, ip, args, kwargs):
        return self.f()

    __hash__ = Sym.__hash__


METHODS = ['__format__', '__hash__', '__iter__', '__reduce__', '__reduce_ex__', '__sizeof__', '__str__', 'fileno', 'flush',
           'isatty', 'read', 'readline', 'readlines', 'seek', 'tell', '__enter__', '__exit__']
NOARGS = ('__hash__', '__iter__', '__reduce__', '__sizeof__', '__str__', 'fileno', 'flush', 'isatty', 'tell', '__enter__')
KWARGS = ('read', 'readline', 'readlines', 'seek')
ATTRS = ['encoding', 'errors', 'mode', 'name', 'newlines']
WRITERS = ['truncate', 'write', 'writelines']


def own_stream(w, got, name, args, kwargs, ret=None):
    """Exactly one operation, with these arguments, on this thread's stream."""
    c = w.c
    was = decide(c, mkb(w.PRES(ze(w.cur))))
    if got[0] == 'exc':
        c.prove(isinstance(got[1], OSError) and len(w.opened) == 1, 'fails only if opening fails')
        c.prove(not was, 'opens only when it has no stream')
        c.prove(not w.events, 'nothing done when opening failed')
        w.frame()
        c.cover('open failed')
        return
    c.prove(len(w.opened) == (0 if was else 1), 'opens one stream on first use, none later')
    c.cover('had a stream' if was else 'first use')
    if w.opened:
        a, k = w.opened[0]
        c.prove(len(a) == len(w.f.attrs['initArgs']) and all(x is y for x, y in zip(a, w.f.attrs['initArgs'])), 'opened with the arguments given')
        c.prove(k == {kk: v for kk, v in w.f.attrs['initKwargs'].items}, 'opened with the keyword arguments given')
    if len(w.events) != 1:
        c.prove(False, 'one operation on the stream (%d)' % len(w.events))
        return
    s, n, a, k = w.events[0]
    c.prove(n == name, 'the same operation')
    if args is not None and a is not None:
        c.prove(len(a) == len(args) and all(x is y for x, y in zip(a, args)) and set(k) == set(kwargs) and all(k[x] is kwargs[x] for x in kwargs), 'with the same arguments')
    if ret is not None:
        c.prove(got[1] is ret, 'returns the file itself')
    else:
        c.prove(got[1] is w.results[0], 'its result is returned')
    c.prove(decide(c, mkb(w.m.pred.f(ze(w.cur)))), 'the stream stays this thread\'s')
    v = w.m.value(w.cur)
    c.prove((v.name == 'new') == (not was) and (v.name == s.name), 'the stream is kept for the next operation')
    w.frame()


def op(name):
    def run(c):
        w = World(c)
        f = w.file()
        n = 0 if name in NOARGS else c.case('arguments', 0, 1, 2, 3)
        kw = {'k': Tok('k')} if name in KWARGS and c.case('keyword', False, True) else {}
        args = [Tok('arg%d' % i) for i in range(n)]
        got = outcome(lambda: w.ip.call(w.ip.getattr(f, name), args, kw))
        own_stream(w, got, name, None if name == '__enter__' else args, kw, f if name == '__enter__' else None)
    return Proof(name, run, ['threaded_file.ThreadAwareFile.%s' % name, 'threaded_file.ThreadAwareFile.getThreadStream'], covers=('had a stream', 'first use', 'open failed'))


def attr(name):
    def run(c):
        w = World(c)
        f = w.file()
        got = outcome(lambda: w.ip.getattr(f, name))
        own_stream(w, got, name, None, {})
    return Proof(name, run, ['threaded_file.ThreadAwareFile.%s' % name], covers=('had a stream', 'first use', 'open failed'))


def writer(name):
    def run(c):
        w = World(c)
        f = w.file()
        args = [Tok('arg%d' % i) for i in range(c.case('arguments', 0, 1, 2))]
        got = outcome(lambda: w.ip.call(w.ip.getattr(f, name), args, {}))
        c.prove(got[0] == 'exc' and isinstance(got[1], OSError), 'raises IOError')
        c.prove(not w.events, 'touches no stream')
        w.frame()
        c.cover('end')
    return Proof(name, run, ['threaded_file.ThreadAwareFile.%s' % name])


def close(c):
    w = World(c)
    f = w.file()
    c.assume(z3.Not(w.CL(ze(w.cur))))
    got = outcome(lambda: w.ip.call(w.ip.getattr(f, 'close'), []))
    if got[0] == 'exc':
        c.prove(isinstance(got[1], OSError) and len(w.opened) == 1 and not w.events, 'fails only if opening fails')
        w.frame()
        c.cover('open failed')
        return
    c.prove(len(w.events) == 1 and w.events[0][1] == 'close', 'closes one stream')
    c.prove(w.closed(w.cur), 'this thread\'s stream is closed')
    w.frame()
    c.cover('closed')


def cleanup(c):
    w = World(c)
    f = w.file()
    got = outcome(lambda: w.ip.call(w.ip.getattr(f, 'cleanup'), []))
    c.prove(got[0] == 'ok', 'succeeds whatever the other threads do')
    c.prove(not w.events, 'touches no stream')
    w.frame()
    me = mkb(z3.Implies(z3.And(w.PRES(ze(w.cur)), z3.Not(w.CL(ze(w.cur)))), w.m.pred.f(ze(w.cur))))
    c.prove(me, 'keeps this thread\'s open stream')
    c.cover('end')


def closed(c):
    w = World(c)
    f = w.file()
    got = outcome(lambda: w.ip.getattr(f, 'closed'))
    c.prove(got[0] == 'ok', 'never fails')
    if got[0] == 'ok':
        was = decide(c, mkb(w.PRES(ze(w.cur))))
        g = got[1]
        c.prove(mkb(zb(g) == (z3.BoolVal(True) if not was else w.CL(ze(w.cur)))) if isinstance(g, (bool, SBool)) else False, 'is the state of this thread\'s stream')
        c.cover('stream' if was else 'none')
    c.prove(not w.events and not w.opened, 'touches no stream')
    w.frame()


def init(c):
    w = World(c)
    form = c.case('form', 'name', 'mode', 'mode closefd', 'kw mode', 'kw all')
    mode = V.opaque_text('mode') if c.case('mode type', True, False) else Tok('mode')
    if not isinstance(mode, Tok):
        c.inputs['mode'] = mode
        writing(c, mode)
    name = Tok('name')
    args, kw = [name], {}
    if form in ('mode', 'mode closefd'):
        args.append(mode)
    if form == 'mode closefd':
        args.append(Tok('closefd'))
    if form in ('kw mode', 'kw all'):
        kw['mode'] = mode
    if form == 'kw all':
        kw['closefd'] = Tok('closefd')
    want = dict(kw)
    if c.case('timeout', False, True):
        kw['timeout'] = Tok('timeout')
    new = c.case('_new', None, True, False)
    if new is not None:
        kw['_new'] = new
    holder = {}
    c.models['dict'] = None
    f = SObj(TAF, {}, 'file')
    init_fn = TAF.__dict__['__init__']
    got = outcome(lambda: w.ip.call_fn(init_fn, [f] + args, kw, TAF))
    wr = writing(c, mode) if form != 'name' and not isinstance(mode, Tok) else z3.BoolVal(False)
    if got[0] == 'exc':
        c.prove(isinstance(got[1], OSError), 'raises IOError')
        c.prove(Or(mkb(wr), len(w.opened) == 1), 'refuses only a mode that could write, or what cannot be opened')
        c.cover('refused')
        return
    c.prove(mkb(z3.Not(wr)), 'accepts no mode that could write')
    c.prove(len(w.opened) == (0 if new is False else 1), 'opens one stream')
    for a, k in w.opened:
        c.prove(len(a) == len(args) and all(x is y for x, y in zip(a, args)) and set(k) == set(want) and all(k[x] is want[x] for x in want), 'with the arguments given')
    c.prove('initArgs' in f.attrs and 'threads' in f.attrs, 'keeps the arguments for other threads')
    th = f.attrs.get('threads')
    if isinstance(th, GDict):
        c.prove(len(th.items) == (0 if new is False else 1), 'holds this thread\'s stream only')
        for k, v in th.items:
            c.prove(isinstance(k, Thread) and isinstance(v, Stream) and v.name == 'new', 'holds this thread\'s stream')
    else:
        raise Unsupported('threads attribute')
    ia, ik = f.attrs['initArgs'], f.attrs['initKwargs']
    c.prove(isinstance(ia, tuple) and len(ia) == len(args) and all(x is y for x, y in zip(ia, args)), 'other threads open with the same arguments')
    c.prove(isinstance(ik, GDict) and {kk: v for kk, v in ik.items} == want, 'other threads open with the same keyword arguments')
    c.cover('accepted')


class Given(Sym):
    """An already open file."""
    pytype = io.FileIO

    def __init__(self, mode):
        self.a_name, self.a_mode = Tok('name'), mode

    def __bool__(self):
        return True

    __hash__ = Sym.__hash__


def adopt(c):
    w = World(c)
    kind = c.case('given', 'file', 'thread-aware', 'other')
    if kind == 'thread-aware':
        g = w.file()
    elif kind == 'file':
        mode = V.opaque_text('mode')
        c.inputs['mode'] = mode
        writing(c, mode)
        g = Given(mode)
    else:
        g = other()
    got = outcome(lambda: w.ip.call(w.ip.getattr(TAF, 'makeThreadAware'), [g]))
    c.prove(not w.opened, 'opens nothing')
    if kind == 'other':
        c.prove(got[0] == 'exc' and isinstance(got[1], TypeError), 'TypeError for what is no file')
        return
    if kind == 'thread-aware':
        c.prove(got[0] == 'ok' and got[1] is g, 'a thread-aware file is returned as it is')
        return
    if got[0] == 'exc':
        c.prove(isinstance(got[1], OSError), 'raises IOError')
        c.prove(mkb(writing(c, mode)), 'refuses only a mode that could write')
        c.cover('refused')
        return
    c.prove(mkb(z3.Not(writing(c, mode))), 'accepts no file that could be written')
    f = got[1]
    if not isinstance(f, SObj) or not isinstance(f.attrs.get('threads'), GDict):
        raise Unsupported('result of makeThreadAware')
    th = f.attrs['threads'].items
    c.prove(len(th) == 1 and isinstance(th[0][0], Thread) and th[0][1] is g, 'the given stream becomes this thread\'s')
    ia = f.attrs['initArgs']
    kw = f.attrs['initKwargs']
    kw = dict(kw.items if isinstance(kw, GDict) else kw)
    full = dict(zip(('file', 'mode'), ia))
    c.prove(not set(full) & set(kw) and len(ia) <= 2, 'other threads can open the file')
    full.update(kw)
    c.prove(set(full) == {'file', 'mode'} and full['file'] is g.a_name and full['mode'] is g.a_mode, 'other threads open the same file in the same mode')
    c.cover('adopted')


PROOFS = [op(n) for n in METHODS] + [attr(n) for n in ATTRS] + [writer(n) for n in WRITERS] + [
    Proof('close', close, ['threaded_file.ThreadAwareFile.close', 'threaded_file.ThreadAwareFile.cleanup'], covers=('closed', 'open failed')),
    Proof('cleanup', cleanup, ['threaded_file.ThreadAwareFile.cleanup']),
    Proof('closed', closed, ['threaded_file.ThreadAwareFile.closed'], covers=('stream', 'none')),
    Proof('__init__', init, ['threaded_file.ThreadAwareFile.__init__'], covers=('refused', 'accepted')),
    Proof('makeThreadAware', adopt, ['threaded_file.ThreadAwareFile.makeThreadAware'], covers=('refused', 'adopted')),
]

KINDS = [
    Kind('threads', K.check_threads, K.gen_threads, K.dir_threads, n=1000),
    Kind('plain', K.check_plain, K.gen_plain, K.dir_plain, n=400),
    Kind('mode', K.check_mode, None, K.DIR_MODE),
    Kind('busy', K.check_busy, K.gen_busy, (), n=60),
]

PROPERTY = Property('C22', PROOFS, KINDS,
    assumptions=['Other threads interfere between any two steps only by adding entries of their own and by removing entries of closed streams, which is what the verified operations do; single dict operations are atomic (CPython).',
                 'Calls are checked with at most three positional and one keyword argument (they are handed on unseen).'],
    trusted=['io.FileIO opens for writing only if its mode contains a, w, x or +.', 'threading.currentThread() identifies the running thread.'],
    not_proved=['closeAll, and what the closing thread sees afterwards, are not specified.'])

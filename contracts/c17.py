"""Schema loading: any file system, search list and cache. Texts and paths are
handles; what the file system and pathlib say of them is uninterpreted."""
import errno
import importlib.resources
import io
import os
import pathlib
import re
import types
from .base import *
from .c16 import Table, ABSENT
from .tree import fun, known
from pyvc.interp import UNBOUND
from . import k_misc as K


class Text(Sym):
    """A text: its handle. 0 is the empty one."""
    pytype = str

    def __init__(self, w, h):
        self.w, self.h = w, ze(h)

    def is_none(self):
        return False

    def guest_eq(self, o):
        if isinstance(o, Text):
            return mkb(o.h == self.h)
        if isinstance(o, str):
            return mkb(self.h == self.w.literal(o))
        if o is None or isinstance(o, PathTok):
            return False
        raise Unsupported('comparison of a text')

    def __eq__(self, o):
        return self.guest_eq(o)

    def __ne__(self, o):
        return Not(self.guest_eq(o))

    def __bool__(self):
        return self.w.c.decide(self.h != 0)

    def guest_contains(self, ip, x):
        if x == '{':
            return mkb(self.w.OPEN(self.h))
        if x == '}':
            return mkb(self.w.CLOSE(self.h))
        raise Unsupported('search in a text')

    def m_startswith(self, x):
        raise Unsupported('start of a text')

    def m_strip(self, *chars):
        if chars and set(chars[0]) == set('{} '):
            return Text(self.w, self.w.MODNAME(self.h))
        raise Unsupported('strip of a text')

    __hash__ = Sym.__hash__


class PathTok(Sym):
    """A pathlib.Path."""
    pytype = pathlib.PosixPath

    def __init__(self, w, t):
        self.w, self.t = w, ze(t)

    def is_none(self):
        return False

    def __bool__(self):
        return True

    def guest_eq(self, o):
        if isinstance(o, PathTok):
            return mkb(o.t == self.t)
        if o is None or isinstance(o, (Text, str)):
            return False
        raise Unsupported('comparison of a path')

    def __eq__(self, o):
        return self.guest_eq(o)

    def m_is_file(self):
        self.w.facts(self.t)
        return mkb(self.w.ISF(self.t))

    m_exists = None

    @property
    def a_parts(self):
        return Parts(self)

    def m_expanduser(self):
        self.w.facts(self.t)
        return PathTok(self.w, self.w.USER(self.t))

    def m_absolute(self):
        self.w.c.assume(self.w.ISF(self.w.ABS(self.t)) == self.w.ISF(self.t))
        return PathTok(self.w, self.w.ABS(self.t))

    def m_open(self, mode='r', *a, **k):
        if mode not in ('r', 'rt') or a or set(k) - {'encoding'}:
            raise Unsupported('open')
        w = self.w
        if not w.c.decide(w.ISF(self.t)):
            graise(FileNotFoundError('no such file'))
        if w.c.decide(w.c.fresh_bool('cannot be opened')):
            graise(PermissionError('open'))
        f = File(w, self.t)
        w.opened.append(f)
        return f

    def m___fspath__(self):
        return self.w.text(self)

    __hash__ = Sym.__hash__


class Parts(Sym):
    pytype = tuple

    def __init__(self, p):
        self.p = p

    def guest_len(self, ip):
        n = mki(self.p.w.PARTS(self.p.t))
        self.p.w.c.assume(ze(n) >= 0)
        return n

    __hash__ = Sym.__hash__


class File(Sym):
    pytype = io.TextIOWrapper

    def __init__(self, w, t):
        self.w, self.t = w, t

    def guest_getattr(self, ip, name):
        if name in ('__enter__', '__exit__', 'close'):
            return Act(lambda *a: self if name == '__enter__' else None)
        raise Unsupported('attribute %s of the file' % name)

    __hash__ = Sym.__hash__


class Act(Sym):
    def __init__(self, f):
        self.f = f

    def guest_call(self, ip, args, kwargs):
        return self.f(*args)

    __hash__ = Sym.__hash__


class Entry(Sym):
    """A schema that was in the cache."""
    pytype = core.Schema

    def __init__(self, w, s):
        self.w, self.s = w, s

    def is_none(self):
        return False

    def __bool__(self):
        return True

    def ident_eq(self, o):
        return isinstance(o, Entry) and self.w.c.decide(o.s == self.s)

    __hash__ = Sym.__hash__


class Search(Sym):
    """Number k of a list of search paths: a text, path or module."""
    def __init__(self, w, given, k):
        self.w, self.given, self.k = w, given, k

    def seqkey(self):
        return self.k

    __hash__ = Sym.__hash__


class World:
    def __init__(self, c):
        self.c, self.ip = c, Interp(c)
        f = lambda n, *s: fun(c, n, *s)
        self.ISF, self.PARTS = f('ISFILE', 'i', 'b'), f('PARTS', 'i', 'i')
        self.USER, self.ABS = f('EXPANDUSER', 'i', 'i'), f('ABSOLUTE', 'i', 'i')
        self.STR, self.PATH = f('STR', 'i', 'i'), f('PATH', 'i', 'i')
        self.JOIN, self.FILES, self.MODNAME = f('JOIN', 'i', 'i', 'i'), f('FILES', 'i', 'i'), f('MODNAME', 'i', 'i')
        self.OPEN, self.CLOSE = f('OPEN', 'i', 'b'), f('CLOSE', 'i', 'b')
        self.EXP, self.BADMOD, self.BADPATH = f('EXP', 'i', 'i'), f('BADMOD', 'i', 'b'), f('BADPATH', 'i', 'b')
        self.IN, self.SCH = f('CACHED', 'i', 'b'), f('SCHEMA', 'i', 'i')
        self.literals = {'': 0}
        self.opened, self.made = [], []
        self.cache = Table(self, lambda k: Entry(self, self.SCH(k.h)) if isinstance(k, Text) and c.decide(self.IN(k.h)) else
                           ABSENT if k is None or isinstance(k, Text) else self.no(k), 'SCHEMATA')
        c.global_override[('ebmlite.core', 'SCHEMATA')] = self.cache
        self.refuse = False
        c.models['str'] = self.to_str
        c.models[pathlib.Path] = self.to_path
        c.models['binop'] = self.binop
        c.summaries[core.Schema] = self.schema
        c.assume(self.JOIN(z3.IntVal(0), z3.IntVal(0)) == 0)

    def no(self, k):
        raise Unsupported('key %r of the cache' % (k,))

    def literal(self, s):
        return z3.IntVal(self.literals.setdefault(s, -len(self.literals)))

    def facts(self, t):
        """A file found under a path does not depend on '~'."""
        self.c.assume(z3.Implies(self.ISF(t), self.USER(t) == t))

    def text(self, p):
        self.c.assume(self.PATH(self.STR(p.t)) == p.t)
        return Text(self, self.STR(p.t))

    def to_str(self, ip, v):
        if isinstance(v, Module):
            t = Text(self, self.c.fresh('module as text', 1))
            self.c.assume(z3.Not(self.OPEN(t.h)))
            return t
        return v if isinstance(v, Text) else self.text(v) if isinstance(v, PathTok) else NotImplemented

    def to_path(self, ip, *a):
        if len(a) == 1 and isinstance(a[0], PathTok):
            return a[0]
        if len(a) == 1 and isinstance(a[0], Text):
            return PathTok(self, self.PATH(a[0].h))
        raise Unsupported('Path(%r)' % (a,))

    def binop(self, ip, op, a, b, inplace):
        if op.__name__ == 'Div' and isinstance(a, PathTok):
            if isinstance(b, str) and b == '':
                return a
            if isinstance(b, Text):
                return PathTok(self, z3.If(b.h == 0, a.t, self.JOIN(a.t, self.PATH(b.h))))
            if isinstance(b, PathTok):
                return PathTok(self, self.JOIN(a.t, b.t))
            raise Unsupported('joining paths')
        return NotImplemented

    def schema(self, ip, args, kwargs):
        a = bindargs(core.Schema.__init__, [None] + list(args), kwargs) if set(kwargs) <= {'source', 'name'} else None
        if a is None:
            a = dict(source=args[0], rest=kwargs)
        if self.made:
            raise Unsupported('two schemata')
        if self.c.case('schema', 'made', 'refused') == 'refused':
            self.refuse = True
            graise(ValueError('schema'))
        its = self.c.fresh('its name', 1)
        if isinstance(a.get('name'), Text):
            its = mki(z3.If(a['name'].h == 0, ze(its), a['name'].h))        # proved with C16
        o = SObj(core.Schema, dict(name=Text(self, its)), 'new schema')
        self.made.append((o, a))
        return o

    # -------------------------------------------------------------- checking
    def same(self, a, b):
        if isinstance(a, Entry) and isinstance(b, Entry):
            return mkb(a.s == b.s)
        return a is b

    def unchanged(self, label, *but):
        """The cache holds what it did, except for these keys."""
        c = self.c
        x = Text(self, c.fresh('x'))
        if but and not c.decide(z3.And(*[x.h != k.h for k in but])):
            raise PathAbort()
        if not self.cache.log:
            c.prove(True, label)
            return
        c.prove(self.same(self.cache.find(x), self.cache.find(x, True)), label)

    def holds(self, k, s, label):
        now = self.cache.find(k)
        self.c.prove(now is not ABSENT and self.same(now, s), label)


EXPAND = core._expandSchemaPath


def loading(c, kind):
    w = World(c)
    ip = w.ip
    n, m = c.fresh('n', 0), c.fresh('m', 0)
    glob = SSeq(m, lambda k: Search(w, 0, k), 'SCHEMA_PATH')
    given = SSeq(n, lambda k: Search(w, 1, k), 'paths')
    c.global_override[('ebmlite.core', 'SCHEMA_PATH')] = glob
    HIT, BAD = fun(c, 'FOUND', 'i', 'i', 'i'), fun(c, 'NOMODULE', 'i', 'i', 'b')
    name = Text(w, c.fresh('name')) if kind == 'text' else PathTok(w, c.fresh('path'))
    key = w.to_str(ip, name)
    t = w.PATH(key.h) if isinstance(name, Text) else name.t
    own = w.EXP(t)
    if isinstance(name, PathTok):
        c.assume(w.PATH(key.h) == t)
    which = c.case('paths', 'none', 'given')
    g = 1 if which == 'given' and c.decide(ze(n) > 0) else 0
    L = ze(n if g else m)
    first = c.fresh('first', 0)

    def hit(k):
        return z3.And(z3.Not(BAD(g, k)), w.ISF(HIT(g, k)))
    c.assume(ze(first) <= L)
    c.assume(z3.Implies(ze(first) < L, hit(ze(first))))
    c.forall(lambda k: z3.Implies(z3.And(k >= 0, k < ze(first)), z3.Not(hit(k))))
    c.history.append(('not found before', lambda k: mkb(ze(k) <= ze(first))))

    def expand(ip, args, kwargs):
        a = bindargs(EXPAND, args, kwargs)
        p, f = a['path'], a['name']
        if isinstance(p, Search):
            k = ze(p.k)
            if not isinstance(f, (PathTok, Text)):
                raise Unsupported('search for something else')
            c.prove(p.given == g, 'the given paths are searched, else the global list')
            c.prove(mkb((f.t if isinstance(f, PathTok) else w.PATH(f.h)) == own), 'for the file asked for')
            c.skolem(k)
            if c.decide(BAD(g, k)):
                graise(ModuleNotFoundError('module'))
            return PathTok(w, HIT(g, k))
        if not isinstance(p, (PathTok, Text)) or f != '':
            raise Unsupported('expansion of %r' % (p,))
        x = p.t if isinstance(p, PathTok) else w.PATH(p.h)
        c.prove(mkb(x == t), 'the name is that asked for')
        if c.decide(w.BADMOD(x)):
            graise(ModuleNotFoundError('module'))
        if c.decide(w.BADPATH(x)):
            graise(OSError(errno.ENOENT, 'Malformed module path'))
        return PathTok(w, w.EXP(x))
    c.summaries[EXPAND] = expand
    kw = {}
    if which == 'given':
        kw['paths'] = given
    reload = c.case('reload', False, True)
    if reload or which == 'given':
        kw['reload'] = reload
    extra = Text(w, c.fresh('schema name', 1)) if isinstance(name, Text) else None
    if extra is not None:
        kw['name'] = extra
    c.cover('start')
    got = outcome(lambda: ip.call(core.loadSchema, [name], kw))
    # ------------------------------------------------------- what must happen
    if not reload and c.decide(w.IN(key.h)):
        c.prove(got[0] == 'ok' and isinstance(got[1], Entry) and got[1].s.eq(w.SCH(key.h)) or
                got[0] == 'ok' and w.same(got[1], Entry(w, w.SCH(key.h))), 'a name that was loaded gives the schema it gave')
        w.unchanged('and changes nothing')
        c.prove(not w.opened and not w.made, 'nor reads anything')
        c.cover('known name')
        return
    if c.decide(z3.Or(w.BADMOD(t), w.BADPATH(t))):
        c.prove(got[0] == 'exc' and isinstance(got[1], (ModuleNotFoundError, OSError)), 'a bad module raises')
        w.unchanged('a bad module changes nothing')
        return
    w.facts(own)
    bare = w.PARTS(own) == 1
    if c.decide(w.ISF(own)):
        file = own
        c.cover('found at once')
    elif c.decide(z3.And(bare, ze(first) < L)):
        file = HIT(g, ze(first))
        c.cover('searched')
    else:
        file = own
        c.cover('not found')
    w.facts(file)
    F = PathTok(w, file).m_expanduser().m_absolute()
    fkey = w.text(F)
    known_file = c.decide(w.IN(fkey.h))
    there = c.decide(w.ISF(F.t))
    if not there and (reload or not known_file):
        c.prove(got[0] == 'exc' and isinstance(got[1], OSError), 'a missing file raises IOError')
        w.unchanged('a missing file changes nothing')
        c.prove(not w.made and not w.opened, 'a missing file is not read')
        c.cover('missing')
        return
    if not reload and known_file:
        if got[0] == 'exc' and not there:
            w.unchanged('an error changes nothing')
            return
        s = Entry(w, w.SCH(fkey.h))
        c.prove(got[0] == 'ok' and w.same(got[1], s), 'a file that was loaded gives the schema it gave')
        if got[0] == 'ok':
            w.holds(key, s, 'the name is remembered')
            w.unchanged('other names and files keep their schemata', key)
        c.cover('known file')
        return
    if got[0] == 'exc':
        c.prove(w.refuse or isinstance(got[1], PermissionError), 'fails only if the file cannot be read')
        w.unchanged('a failure changes nothing')
        c.cover('failure')
        return
    ok = len(w.made) == 1 and got[1] is w.made[0][0]
    c.prove(ok, 'a new schema')
    if not ok:
        return
    s, a = w.made[0]
    src = a['source']
    c.prove(isinstance(src, File) and mkb(src.t == F.t) or isinstance(src, PathTok) and mkb(src.t == F.t) or
            isinstance(src, Text) and mkb(w.PATH(src.h) == F.t), 'of the first file found')
    c.prove(a.get('name') is extra, 'with the options given')
    w.holds(key, s, 'later calls with the name return it')
    w.holds(fkey, s, 'later calls with the file return it')
    w.unchanged('other names and files keep theirs', key, fkey)
    c.cover('loaded')


def parsing(c):
    w = World(c)
    ip = w.ip
    made = []

    def stringio(ip, *a, **k):
        o = SOpaque(io.StringIO, 'stream')
        made.append((o, a[0] if len(a) == 1 and not k else None))
        return o
    c.models[io.StringIO] = stringio
    src = c.case('source', lambda: Text(w, c.fresh('xml')), lambda: SOpaque(io.StringIO, 'source'), lambda: SOpaque(io.BufferedReader, 'source'))
    name = c.case('name', lambda: Text(w, c.fresh('name', 0)), lambda: None)
    c.assume(z3.Not(w.IN(z3.IntVal(0))))        # nothing is kept under no name
    kw = {}
    if name is not None:
        kw['name'] = name
    reload = c.case('reload', False, True)
    if reload:
        kw['reload'] = True
    c.cover('start')
    got = outcome(lambda: ip.call(core.parseSchema, [src], kw))
    if not reload and name is not None and c.decide(w.IN(name.h)):
        c.prove(got[0] == 'ok' and w.same(got[1], Entry(w, w.SCH(name.h))), 'a name that was parsed gives the schema it gave')
        w.unchanged('and changes nothing')
        c.prove(not w.made, 'nor reads anything')
        c.cover('known name')
        return
    if got[0] == 'exc':
        c.prove(w.refuse, 'fails only if the source cannot be read')
        w.unchanged('a failure changes nothing')
        c.cover('failure')
        return
    ok = len(w.made) == 1 and got[1] is w.made[0][0]
    c.prove(ok, 'a new schema')
    if not ok:
        return
    s, a = w.made[0]
    x = a['source']
    c.prove(x is src if not isinstance(src, Text) else any(o is x and t is src for o, t in made), 'of the source given')
    c.prove(a.get('name') is name or name is None or not c.decide(name.h != 0), 'with the name given')
    k = name if name is not None and c.decide(name.h != 0) else s.attrs['name']
    w.holds(k, s, 'later calls with the name return it')
    w.unchanged('other names keep their schemata', k)
    c.cover('parsed')


def expanding(c):
    """A directory or module, and a name in it."""
    w = World(c)
    ip = w.ip
    cwd = Text(w, c.fresh('cwd', 1))
    c.assume(z3.Not(w.OPEN(cwd.h)))
    c.models[os.getcwd] = lambda ip: cwd

    def files(ip, args, kwargs):
        p = args[0]
        if isinstance(p, Module):
            if c.decide(w.BADMOD(p.h)):
                graise(ModuleNotFoundError('module'))
            return PathTok(w, w.FILES(p.h))
        if not isinstance(p, Text):
            raise Unsupported('files(%r)' % (p,))
        if c.decide(w.BADMOD(p.h)):
            graise(ModuleNotFoundError('module'))
        return PathTok(w, w.FILES(p.h))
    lib = core.importlib_resources.files
    c.summaries[lib] = files
    c.summaries[getattr(lib, '__wrapped__', lib)] = files
    HEAD, TAIL, SPLIT = fun(c, 'HEAD', 'i', 'i'), fun(c, 'TAIL', 'i', 'i'), fun(c, 'SPLIT', 'i', 'b')

    def match(ip, args, kwargs):
        if args[0] != r'(\{.+})[/\\](.+)' or not isinstance(args[1], Text):
            raise Unsupported('re.match')
        h = args[1].h
        if not c.decide(SPLIT(h)):
            return None
        c.assume(z3.And(w.OPEN(HEAD(h)), w.CLOSE(HEAD(h)), TAIL(h) != 0, HEAD(h) != 0))
        return Match(w, HEAD(h), TAIL(h))
    c.summaries[re.match] = match
    path = c.case('path', lambda: Text(w, c.fresh('path')), lambda: PathTok(w, c.fresh('path')), lambda: Module(w, c.fresh('module')))
    name = c.case('name', lambda: '', lambda: Text(w, c.fresh('name')), lambda: PathTok(w, c.fresh('name path')))
    c.cover('start')
    if isinstance(path, Module):
        r = w.FILES(path.h)
        h, bad, mal = None, w.BADMOD(path.h), z3.BoolVal(False)
    else:
        h = w.to_str(ip, path).h
        module = w.OPEN(h)
        head = z3.If(SPLIT(h), HEAD(h), h)
        c.assume(z3.Implies(SPLIT(h), module))
        c.assume(z3.Implies(h == 0, z3.Not(module)))
        base = w.FILES(w.MODNAME(head))
        base = z3.If(z3.And(SPLIT(h), TAIL(h) != 0), w.JOIN(base, w.PATH(TAIL(h))), base)
        r = z3.If(h == 0, w.PATH(cwd.h), z3.If(module, base, w.PATH(h)))
        mal = z3.And(module, z3.Not(w.CLOSE(h)))
        bad = z3.And(module, w.CLOSE(h), w.BADMOD(w.MODNAME(head)))
    if not (isinstance(name, str)):
        nh = w.PATH(name.h) if isinstance(name, Text) else name.t
        r = w.JOIN(r, nh) if isinstance(name, PathTok) else z3.If(name.h == 0, r, w.JOIN(r, nh))
    got = outcome(lambda: ip.call(EXPAND, [path] + ([] if name == '' and c.case('name given', False, True) is False else [name])))
    if got[0] == 'exc':
        c.prove(mkb(z3.Or(bad, mal)), 'fails only for a bad module')
        c.prove(isinstance(got[1], (ModuleNotFoundError, OSError)), 'with ModuleNotFoundError or IOError')
        c.cover('bad')
        return
    c.prove(mkb(z3.Not(z3.Or(bad, mal))), 'a bad module is refused')
    c.prove(isinstance(got[1], PathTok) and mkb(got[1].t == r), 'the path of the name in the directory or module')
    c.cover('end')


class Module(Sym):
    pytype = types.ModuleType

    def __init__(self, w, h):
        self.w, self.h = w, ze(h)

    def is_none(self):
        return False

    __hash__ = Sym.__hash__


class Match(Sym):
    def __init__(self, w, a, b):
        self.w, self.a, self.b = w, a, b

    def __bool__(self):
        return True

    def is_none(self):
        return False

    def m_groups(self):
        return (Text(self.w, self.a), Text(self.w, self.b))

    def m_group(self, *i):
        g = [None, Text(self.w, self.a), Text(self.w, self.b)]
        return g[i[0]] if len(i) == 1 else tuple(g[j] for j in i)

    __hash__ = Sym.__hash__


KINDS = [
    Kind('load', K.check_load, K.gen_load, K.dir_load, n=1200),
]

PROPERTY = Property('C17', [
    *[Proof('loading by ' + kind, lambda c, kind=kind: loading(c, kind), ['core.loadSchema'], covers=['start', 'known name', 'found at once', 'searched', 'not found', 'missing', 'known file', 'failure', 'loaded']) for kind in ('text', 'path')],
    Proof('parsing', parsing, ['core.parseSchema'], covers=['start', 'known name', 'failure', 'parsed']),
    Proof('directories and modules', expanding, ['core._expandSchemaPath'], covers=['start', 'bad', 'end']),
], KINDS, assumptions=[
    'pathlib, importlib.resources and re do what they are documented to do (paths, files and modules: uninterpreted functions)',
    "the text of a module object and the working directory have no braces, no relative path that names a file starts with '~'",
    'the file system and the working directory do not change during one call'])

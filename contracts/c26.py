"""Listing of schemata: any search list, any directories and files in them."""
import io
import pathlib
import types
import xml.etree.ElementTree as ET

from .base import *
from .c17 import Search, PathTok, EXPAND
from .c21 import Watch, ElName, DumpVal
from .tree import *
from pyvc import interp as I
from pyvc.interp import StarArgs, GList
from pyvc.models import Cell
from ebmlite import util
from . import k_misc as K


class FName(ElName):
    """The name of a file."""
    def __init__(self, w, t):
        self.w, self.t = w, t

    def m_lower(self):
        return Lowered(self)
    m_casefold = m_lower

    def m_upper(self):
        return Lowered(self, True)

    def m_endswith(self, x, *a):
        if a or not isinstance(x, str) or x.lower() != '.xml':
            raise Unsupported('end of a name')
        return mkb(self.w.ASIS[x == '.xml'](self.t))

    def guest_eq(self, o):
        if isinstance(o, FName):
            return mkb(o.t == self.t)
        if o is None:
            return False
        raise Unsupported('comparison of a name')

    __hash__ = Sym.__hash__


class Lowered(Sym):
    pytype = str

    def __init__(self, n, upper=False):
        self.n, self.upper = n, upper

    def m_endswith(self, x, *a):
        if a or x != ('.XML' if self.upper else '.xml'):
            raise Unsupported('end of a name')
        return mkb(self.n.w.XML(self.n.t))

    __hash__ = Sym.__hash__


class Dir(PathTok):
    """What search path k stands for."""
    def __init__(self, w, k):
        self.w, self.k = w, k

    def m_is_dir(self):
        return mkb(self.w.ISDIR(self.k))

    def m_iterdir(self):
        w, k = self.w, self.k
        if not w.c.decide(w.ISDIR(k)):
            graise(NotADirectoryError('no directory'))
        s = SSeq(mki(w.N(k)), lambda j: w.entry(k, ze(j)), 'entries')
        s.k = k
        return s

    def no(self, *a):
        raise Unsupported('use of a search directory')
    m_is_file = m_expanduser = m_absolute = m_open = m___fspath__ = guest_eq = __eq__ = no
    __hash__ = Sym.__hash__


class Item(DumpVal):
    """The path of a file: as the directory gives it, or below the search path as it was given."""
    pytype = pathlib.PosixPath

    def __init__(self, w, x, k=None, j=None):
        self.w, self.x, self.k, self.j = w, x, k, j

    @property
    def a_name(self):
        if self.k is None:
            raise Unsupported('name of a path')
        return FName(self.w, self.w.NAME(self.k, self.j))

    __hash__ = Sym.__hash__


class GivenPath(Sym):
    """Path(search path k)."""
    pytype = pathlib.PosixPath

    def __init__(self, w, k):
        self.w, self.k = w, k

    __hash__ = Sym.__hash__


class Tree(Sym):
    pytype = ET.ElementTree

    def __init__(self, w, k, j):
        self.w, self.k, self.j = w, k, j

    def is_none(self):
        return False

    def m_getroot(self):
        return Root(self)

    __hash__ = Sym.__hash__


class Root(Sym):
    pytype = ET.Element

    def __init__(self, t):
        self.t = t

    @property
    def a_tag(self):
        return Tag(self.t)

    def is_none(self):
        return False

    __hash__ = Sym.__hash__


class Tag(Sym):
    pytype = str

    def __init__(self, t):
        self.t = t

    def guest_eq(self, o):
        w = self.t.w
        if o == 'Schema':
            return mkb(w.SCHEMA(self.t.k, self.t.j))
        if isinstance(o, str):
            return mkb(z3.And(z3.Not(w.SCHEMA(self.t.k, self.t.j)), fun(w.c, 'TAG ' + o, 'i', 'i', 'b')(self.t.k, self.t.j)))
        raise Unsupported('comparison of a tag')

    def __eq__(self, o):
        return self.guest_eq(o)

    __hash__ = Sym.__hash__


class Malformed(OSError):
    pass


class World:
    mult = True

    def __init__(self, c, absolute):
        f = lambda n, *s: fun(c, n, *s)     # noqa: E731
        self.c, self.ip, self.absolute = c, Interp(c), absolute
        self.ISDIR, self.N, self.NAME = f('ISDIR', 'i', 'b'), f('ENTRIES', 'i', 'i'), f('NAME', 'i', 'i', 'i')
        self.BAD, self.MALF, self.MODULE = f('NOMODULE', 'i', 'b'), f('MALFORMED', 'i', 'b'), f('ISMODULE', 'i', 'b')
        self.XML, self.WELL, self.SCHEMA = f('DOTXML', 'i', 'b'), f('WELLFORMED', 'i', 'i', 'b'), f('ISSCHEMA', 'i', 'i', 'b')
        self.ASIS = {True: f('DOTxml', 'i', 'b'), False: f('DOTother', 'i', 'b')}
        self.HERE, self.BELOW = f('HERE', 'i', 'i', 'i'), f('BELOW', 'i', 'i', 'i')
        self.POS, self.CNT, self.NTH = f('POS', 'i', 'i'), f('COUNT', 'i', 'i'), f('NTH', 'i', 'i')
        self.X = c.fresh('X').e
        c.assume(self.CNT(Z(0)) == 0)
        c.assume(z3.Implies(self.ASIS[True](self.X), self.XML(self.X)))

    def entry(self, k, j):
        c = self.c
        c.assume(z3.Implies(self.NAME(k, j) == self.X, j == self.POS(k)))     # one of a name in a directory
        c.assume(z3.Implies(self.ASIS[True](self.NAME(k, j)), self.XML(self.NAME(k, j))))
        return Item(self, self.HERE(k, j), k, j)

    def has(self, k):
        p = self.POS(k)
        h = z3.And(z3.Not(self.BAD(k)), self.ISDIR(k), p >= 0, self.XML(self.X), self.WELL(k, p), self.SCHEMA(k, p))
        return h if self.absolute else z3.And(h, z3.Not(self.MODULE(k)))

    def value(self, k):
        return Item(self, self.HERE(k, self.POS(k)) if self.absolute else self.BELOW(k, self.X))

    def step(self, k):
        k = ze(k)
        for i in (k - 1, k):
            p = self.POS(i)
            self.c.assume(z3.And(p >= -1, p < z3.If(self.N(i) > 0, self.N(i), 0), self.N(i) >= 0, z3.Implies(p >= 0, self.NAME(i, p) == self.X)))
            self.c.assume(z3.Implies(i >= 0, z3.And(self.CNT(i + 1) == self.CNT(i) + z3.If(self.has(i), 1, 0), self.CNT(i) >= 0,
                                                    z3.Implies(self.has(i), self.NTH(self.CNT(i)) == i))))
        return k

    def sofar(self, seq, k):
        """How many files called X were found."""
        if hasattr(seq, 'k'):
            i = self.step(seq.k)
            return self.CNT(i) + z3.If(z3.And(self.has(i), self.POS(i) < ze(k)), 1, 0)
        return self.CNT(self.step(k))


def listing(c):
    w = World(c, c.case('paths', 'absolute', 'relative') == 'absolute')
    ip = w.ip
    n, m = c.fresh('n', 0), c.fresh('m', 0)
    glob = SSeq(m, lambda k: Search(w, 0, k), 'SCHEMA_PATH')
    given = SSeq(n, lambda k: Search(w, 1, k), 'paths')
    c.global_override[('ebmlite.core', 'SCHEMA_PATH')] = glob
    g = 1 if c.decide(ze(n) > 0) else 0
    L = n if g else m
    c.models['new_dict'] = lambda ip: Watch(w)
    c.models['str'] = lambda ip, v: v if isinstance(v, Item) else NotImplemented

    def expand(ip, args, kwargs):
        a = bindargs(EXPAND, args, kwargs)
        p, f = a['path'], a['name']
        if not isinstance(p, Search) or f != '':
            raise Unsupported('what is looked for')
        c.prove(p.given == g, 'the given paths are searched, else the global list')
        k = ze(p.k)
        w.step(k)
        if c.decide(w.BAD(k)):
            graise(ModuleNotFoundError('module'))
        if c.decide(w.MALF(k)):
            graise(Malformed('path'))
        return Dir(w, k)
    c.summaries[EXPAND] = expand

    def to_path(ip, *a):
        if len(a) == 1 and isinstance(a[0], Search):
            if c.decide(w.MODULE(ze(a[0].k))):
                graise(TypeError('expected str, bytes or os.PathLike object'))
            return GivenPath(w, ze(a[0].k))
        if len(a) == 1 and isinstance(a[0], (Item, Dir)):
            return a[0]
        raise Unsupported('Path(%r)' % (a,))
    c.models[pathlib.Path] = to_path

    def binop(ip, op, a, b, inplace):
        if op.__name__ == 'Div' and isinstance(a, GivenPath) and isinstance(b, FName):
            return Item(w, w.BELOW(a.k, b.t))
        return NotImplemented
    c.models['binop'] = binop

    def parse(ip, args, kwargs):
        if kwargs or len(args) != 1 or not isinstance(args[0], Item) or args[0].k is None:
            raise Unsupported('parsing')
        k, j = args[0].k, args[0].j
        if not c.decide(w.WELL(k, j)):
            graise([ET.ParseError('not well-formed'), PermissionError('cannot be read'), IsADirectoryError('a directory'), LookupError('unknown encoding'),
                    ValueError('multi-byte encodings are not supported'), UnicodeDecodeError('utf-8', b'', 0, 0, '')]
                   [['syntax', 'unreadable', 'directory', 'encoding', 'multi-byte', 'not UTF-8'].index(c.case('parsing', 'syntax', 'unreadable', 'directory', 'encoding', 'multi-byte', 'not UTF-8'))])
        return Tree(w, k, j)
    c.summaries[ET.parse] = parse

    def ghosts(loc, sh, old, seq):
        if sh[0] == 'list':
            return [('the files so far', lambda k: SList(SSeq(mki(w.sofar(seq, k)), lambda i: w.value(w.NTH(ze(i))), 'files')))]
        if sh[0] == 'bool':
            return [('has one', lambda k: mkb(w.sofar(seq, k) > 0))]
        return []
    c.ghosts.append(ghosts)
    got = outcome(lambda: ip.call(core.listSchemata, [StarArgs(given)], {} if w.absolute else dict(absolute=False)))
    w.step(L)
    if got[0] == 'exc':
        c.prove(isinstance(got[1], Malformed), 'raises only for a malformed module path')
        c.cover('malformed')
        return
    r = got[1]
    if not isinstance(r, Watch):
        raise Unsupported('the result')
    total = w.CNT(ze(L))
    c.prove(mkb(zb(r.has) == (total > 0)), 'an entry exactly for the names of schema files')
    c.prove(mkb(z3.Implies(zb(r.has), ze(SList(r.vals).n) == total)), 'all files of that name')
    j = c.fresh('j', 0)
    c.assume(j.e < total)
    c.assume(r.has)
    x = SList(r.vals).at(j)
    c.prove(isinstance(x, DumpVal) and mkb(x.x == w.value(w.NTH(j.e)).x), 'in the order of the search')
    c.cover('listed')
    c.cover('absolute' if w.absolute else 'relative')


# ---------------------------------------------------------------- printing
PRINT, LIST = util.printSchemata, core.listSchemata


class Fixed(SSeq):
    """A list that is not changed."""
    def change(self, *a, **k):
        V.CTX.prove(False, 'the lists of paths stay as they are')
        raise PathAbort()
    m_append = m_extend = m_insert = m_remove = m_pop = m_clear = m_sort = m_reverse = guest_setitem = m___iadd__ = change

    def m_copy(self):
        return GList([], SSeq(self.n, self.item, self.name))

    __hash__ = Sym.__hash__


class Out(Sym):
    """A text stream, checking what is written."""
    pytype = io.TextIOWrapper

    def __init__(self, p, opened):
        self.p, self.opened, self.closed = p, opened, False

    def is_none(self):
        return False

    def __bool__(self):
        return True

    def m_write(self, t):
        self.p.c.prove(not self.closed, 'writes to the open stream')
        self.p.written(t)

    def m_flush(self):
        return None

    def m_close(self):
        self.p.c.prove(self.opened, 'a stream that was given stays open')
        self.closed = True

    def m___enter__(self):
        return self

    def m___exit__(self, *a):
        self.m_close()

    __hash__ = Sym.__hash__


class OutPath(Sym):
    pytype = pathlib.PosixPath

    def __bool__(self):
        return True

    __hash__ = Sym.__hash__


class Key(Sym):
    pytype = str

    def __init__(self, k):
        self.k = k

    __hash__ = Sym.__hash__


class Value(Sym):
    pytype = pathlib.PosixPath

    def __init__(self, k, j):
        self.k, self.j = k, j

    __hash__ = Sym.__hash__


class Text(SOpaque):
    """The text t, with the text of x in place of {}."""
    def __init__(self, t, x):
        SOpaque.__init__(self, str, 'text')
        self.t, self.x = t, x

    def __add__(self, o):
        if not isinstance(o, str):
            raise Unsupported('text')
        return Text(self.t + o, self.x)

    def __radd__(self, o):
        if not isinstance(o, str):
            raise Unsupported('text')
        return Text(o + self.t, self.x)

    __hash__ = Sym.__hash__


class Listed(Sym):
    """The dictionary that listSchemata() returned."""
    pytype = dict

    def __init__(self, p):
        self.p = p

    def vals(self, k):
        return SSeq(mki(self.p.VN(ze(k))), lambda j: Value(k, j), 'files')

    def m_items(self):
        return SSeq(self.p.n, lambda k: (Key(k), self.vals(k)), 'items')

    def m_keys(self):
        return SSeq(self.p.n, lambda k: Key(k), 'names')

    def guest_iter(self, ip):
        return self.m_keys()

    def m_values(self):
        return SSeq(self.p.n, self.vals, 'values')

    def guest_getitem(self, ip, k):
        if not isinstance(k, Key):
            raise Unsupported('key %r' % (k,))
        return self.vals(k.k)

    __hash__ = Sym.__hash__


class Printing:
    def __init__(self, c):
        self.c, self.ip = c, Interp(c)
        self.VN, self.n = fun(c, 'FILES', 'i', 'i'), c.fresh('names', 0)
        self.h, self.v = Cell(0), Cell(0)

        def ghosts(loc, sh, old, seq):
            if sh[0] == 'int':
                return [('files of the name before', lambda k: mki(self.before(k)))]
            return []
        c.ghosts.append(ghosts)

    def before(self, k):
        k = ze(k)
        self.c.assume(z3.Implies(k >= 1, self.VN(k - 1) >= 1))
        return z3.If(k >= 1, self.VN(k - 1), 0)

    def written(self, t):
        c = self.c
        if c.choose(2, 'write') == 1:
            graise(OSError('cannot be written'))
        if not isinstance(t, Text):
            raise Unsupported('text %r' % (t,))
        h, v = self.h.get(), self.v.get()
        if isinstance(t.x, Key):
            c.prove(t.t == '{}\n', 'a name on a line of its own')
            c.prove(mkb(z3.And(ze(t.x.k) == ze(h), ze(v) == self.before(h))), 'the names in order, after all files of the name before')
            self.h.set(h + 1)
            self.v.set(0)
        else:
            c.prove(t.t == '    {}\n', 'a file on an indented line of its own')
            c.prove(mkb(z3.And(ze(t.x.k) == ze(h) - 1, ze(t.x.j) == ze(v))), 'the files of a name below it, in order')
            self.v.set(v + 1)


def printing(c):
    p = Printing(c)
    ip = p.ip
    n, m = c.fresh('n', 0), c.fresh('m', 0)
    glob = Fixed(m, lambda k: Search(p, 0, k), 'SCHEMA_PATH')
    given = c.case('paths', None, lambda: Fixed(n, lambda k: Search(p, 1, k), 'paths'))
    c.global_override[('ebmlite.core', 'SCHEMA_PATH')] = glob
    std, stream, opened = Out(p, False), Out(p, False), Out(p, True)
    c.global_override[('sys', 'stdout')] = std
    which = c.case('out', 'none', 'stream', 'name', 'path')
    out = dict(none=None, stream=stream, name='FILE', path=OutPath())[which]
    used = dict(none=std, stream=stream).get(which, opened)
    absolute = c.case('absolute', True, False)
    st = dict(opened=0, listed=0)

    def opener(ip, f, mode='r', *a, **k):
        c.prove(f is out and mode in ('w', 'wt'), 'the named file is opened for writing')
        if c.choose(2, 'open') == 1:
            graise(PermissionError('cannot be opened'))
        st['opened'] += 1
        return opened
    c.models[open] = c.models[io.open] = opener
    c.models[('method', OutPath, 'open')] = lambda ip, f, mode='r', *a, **k: opener(ip, f, mode)

    def fmt(ip, s, *a, **k):
        if k or len(a) != 1 or not isinstance(a[0], (Key, Value)):
            return SOpaque(str, 'format')
        return Text(s.replace('{0}', '{}').replace('{!s}', '{}'), a[0])
    c.models[('method', str, 'format')] = fmt
    c.models['str'] = lambda ip, v: Text('{}', v) if isinstance(v, (Key, Value)) else NotImplemented

    def cat(ip, parts):
        t = ''
        for x in parts:
            t = t + x
        return t
    c.models['textcat'] = cat

    def binop(ip, op, a, b, inplace):
        if op.__name__ == 'Add' and isinstance(a, (Text, Key, str)) and isinstance(b, (Text, Key, str)):
            a, b = [Text('{}', x) if isinstance(x, Key) else x for x in (a, b)]
            return a.__add__(b) if isinstance(a, Text) else b.__radd__(a)
        return NotImplemented
    c.models['binop'] = binop

    def listed(ip, args, kwargs):
        kwargs = dict(kwargs)
        c.prove(kwargs.pop('absolute', True) is absolute and not kwargs, 'absolute or relative as asked for')
        parts = [a.seq if isinstance(a, StarArgs) else [a] for a in args]
        s = I.seq_concat(*parts)
        want = I.seq_concat(*([given] if given is not None else []), glob)
        if not c.decide(ze(s.n) > 0):
            s = glob
        c.prove(mkb(ze(s.n) == ze(want.n)), 'the given paths and the global ones are searched')
        j = c.fresh('j', 0)
        if c.decide(ze(j) < ze(want.n)):
            a, b = s.item(j), want.item(j)
            c.prove(isinstance(a, Search) and a.given == b.given and mkb(ze(a.k) == ze(b.k)), 'the given paths first')
        st['listed'] += 1
        if c.choose(2, 'listing') == 1:
            graise(Malformed('path'))
        return Listed(p)
    c.summaries[LIST] = listed
    got = outcome(lambda: ip.call(PRINT, [given, out], dict(absolute=absolute)))
    c.prove(st['opened'] <= 1 and opened.closed == (st['opened'] == 1), 'a file opened here is closed, whatever happens')
    if got[0] == 'exc':
        c.prove(isinstance(got[1], OSError), 'raises only what opening, listing or writing raises')
        c.cover('raises')
        return
    c.prove(st['listed'] == 1, 'lists once')
    c.prove(mkb(z3.And(ze(p.h.get()) == ze(p.n), ze(p.v.get()) == p.before(p.n))), 'all names and files are printed')
    c.cover('printed')
    c.cover(which)


KINDS = [
    Kind('listing', K.check_listing, K.gen_listing, K.dir_listing, n=300),
]

PROPERTY = Property('C26', [
    Proof('listSchemata', listing, ['core.listSchemata'], covers=['listed', 'absolute', 'relative', 'malformed']),
    Proof('printSchemata', printing, ['util.printSchemata'], covers=['printed', 'raises', 'none', 'stream', 'name', 'path']),
], KINDS, assumptions=['A directory lists each name once; _expandSchemaPath as proved with C17; directories that exist can be listed'])

import builtins
import os.path
from pathlib import Path
from .base import *
from .tree import *
from .c11 import HEADERS, PARSE
from .c12 import LEVEL_ENDS, DITERATION
from . import k_parse as K

EBML_ID = 0x1A45DFA3


class Name(Sym):
    """A file name (or any text the document does not depend on)."""
    def __init__(self, c, pytype=str, empty=False):
        self.c, self.pytype, self.empty = c, pytype, empty

    def is_none(self):
        return False

    def __bool__(self):
        if self.empty is None:
            self.empty = bool(self.c.fresh_bool('empty name'))
        return not self.empty

    def guest_eq(self, o):
        if isinstance(o, str):
            return self.c.fresh_bool('same text')
        return o is self

    def __eq__(self, o):
        return self.guest_eq(o)

    def __fspath__(self):
        raise Unsupported('path')

    __hash__ = Sym.__hash__


class Src(SStream):
    """A stream which may have a name."""
    def __init__(self, c, pytype, label=None, pos=None):
        super().__init__(opaque_bytes('content'), c.fresh('pos', 0) if pos is None else pos, 'stream', pytype=pytype)
        self.label = label

    def guest_getattr(self, ip, name):
        if name == 'name':
            if self.label is None:
                graise(AttributeError('name'))
            return self.label
        return UNBOUND


class FileLike:
    """The type of a user's stream class."""


class Lacking(Sym):
    """An object with only some of the stream methods."""
    pytype = FileLike

    def __init__(self, has):
        self.has = has

    def is_none(self):
        return False

    def guest_getattr(self, ip, name):
        if name in self.has:
            return Any()
        if name in ('read', 'tell', 'seek', 'name', 'close', 'getvalue', 'readinto', 'readline', 'peek', 'fileno'):
            graise(AttributeError(name))
        raise Unsupported('attribute %s' % name)

    def __bool__(self):
        return True


class Any(Sym):
    def guest_call(self, ip, args, kwargs):
        return V.CTX.fresh('any', 0)


class ElName(Sym):
    """The name of an element: is it EBML?"""
    pytype = str

    def __init__(self, yes):
        self.yes = yes

    def is_none(self):
        return False

    def guest_eq(self, o):
        if o == 'EBML' and isinstance(o, str):
            return mkb(self.yes)
        if o is self:
            return True
        raise Unsupported('name of an element')

    def __eq__(self, o):
        return self.guest_eq(o)

    __hash__ = Sym.__hash__


class Info(Sym):
    """What dump() of the header gives."""
    pytype = dict

    def __init__(self, p):
        self.p = p
        self.memo = {}

    def m_get(self, k, d=None):
        if not isinstance(k, str):
            raise Unsupported('key')
        if k not in self.memo:
            self.memo[k] = c_opaque(k)
        v = self.memo[k]
        return d if v is None else v

    def guest_getitem(self, ip, k):
        v = self.m_get(k)
        if v is None:
            graise(KeyError(k))
        return v

    def guest_contains(self, ip, k):
        return self.m_get(k) is not None

    def __bool__(self):
        raise Unsupported('truth of the header')


def c_opaque(k):
    c = V.CTX
    return SOpaque(object, k) if c.decide(c.fresh_bool('has_' + k).e) else None


class Dump(Sym):
    def __init__(self, w, e):
        self.w, self.e = w, e

    def guest_call(self, ip, args, kwargs):
        w = self.w
        wander(w.c, w.t.stream)
        if w.c.decide(w.NODUMP(ze(self.e.p))):
            graise(DecodeError('the header'))
        for e, i in w.infos:
            if e is self.e:
                return i
        w.infos.append((self.e, Info(self.e.p)))
        return w.infos[-1][1]


class World:
    def __init__(self, c):
        self.c, self.ip = c, Interp(c)
        self.opened, self.t, self.infos = [], None, []
        self.NODUMP, self.ISH = fun(c, 'NODUMP', 'i', 'b'), fun(c, 'ISHEADER', 'i', 'b')

        def opener(ip, path, mode='r', *a, **k):
            if mode not in ('rb', 'br') or len(self.opened):
                raise Unsupported('open with mode %r' % (mode,))
            c.prove(path is self.given, 'opens the file named')
            if c.choose(2, 'open') == 1:
                graise(OSError('cannot open'))
            s = self.stream(io.BufferedReader, self.given if self.given.pytype is str else Name(c), 0)
            self.opened.append(s)
            return s
        c.models[open] = opener
        c.models[io.open] = opener

        def use_(f, *fns):
            for fn in fns:
                c.models[fn] = f
                c.summaries[fn] = lambda ip, a, k: f(ip, *a, **k)
        use_(lambda ip, *a, **k: Name(c, empty=None),
             os.path.basename, os.path.realpath, os.path.abspath, os.path.normpath, os.path.dirname, os.fspath)
        use_(lambda ip, *a: (Name(c, empty=None), Name(c, empty=None)), os.path.splitext)
        use_(lambda ip, *a: c.fresh_bool('exists'), os.path.exists, os.path.isfile)
        use_(lambda ip, *a: c.fresh('filesize', 0), os.path.getsize)

    def stream(self, pytype, label, pos=None):
        c = self.c
        s = Src(c, pytype, label, pos)
        self.t = t = Tree(c, s)
        self.start = s.pos
        t.install()

        def facts(e):
            c.assume(self.ISH(ze(e.p)) == (t.ID(ze(e.p)) == EBML_ID))
            return e
        t.attrs['name'] = lambda e: ElName(self.ISH(ze(facts(e).p)))
        t.attrs['dump'] = lambda e: Dump(self, e)
        return s


def document(w, schema=None):
    return SClass(core.Document, dict(schema=schema, __name__=Name(w.c), children=SOpaque(set, 'children'), name=None), 'SubDocument')


def opening(c, how):
    """Document(...), Schema.load, Schema.loads and Schema() of every kind of source."""
    w = World(c)
    ip = w.ip
    schema = SObj(core.Schema, {}, 'schema')
    cls = document(w, schema)
    schema.attrs['document'] = cls
    known(None, schema)
    via = c.case('via', *(['Document', 'load'] + (['loads', '()'] if how == 'BytesIO' else [])))
    headers = c.case('headers', None, False, True)
    if how in ('str', 'Path'):
        src = w.given = Name(c, str if how == 'str' else Path)
    else:
        src = w.stream({'BytesIO': io.BytesIO, 'file': io.BufferedReader}.get(how, FileLike), Name(c) if how in ('file', 'other') else None)
    kw = {}
    if via in ('Document', 'load'):
        if headers is not None:
            kw['headers'] = headers
        given = c.case('given', 'nothing', 'name', 'size')
        if given == 'size':
            kw['size'] = c.fresh('size', 0)
    elif headers is not None:
        raise PathAbort()
    else:
        given = c.case('given', 'nothing', 'name')
    if given == 'name':
        kw['name'] = Name(c)
    if via == 'loads':
        made = []

        def bio(ip, *a):
            if made or len(a) != 1 or a[0] is not data:
                raise Unsupported('BytesIO')
            src._set('pos', 0)
            w.start = 0
            made.append(src)
            return src
        data = SOpaque(bytes, 'data')
        c.models[io.BytesIO] = bio
        got = outcome(lambda: ip.call(ip.getattr(schema, 'loads'), [data], kw))
    elif via == 'load':
        got = outcome(lambda: ip.call(ip.getattr(schema, 'load'), [src], kw))
    elif via == '()':
        got = outcome(lambda: ip.call(schema, [src], kw))
    else:
        got = outcome(lambda: ip.call(cls, [src], kw))
    asked = headers if headers is not None else via == 'Document'
    mine = how in ('str', 'Path')
    if got[0] == 'exc':
        c.prove(mine and not w.opened and isinstance(got[1], OSError), 'fails only if the file cannot be opened')
        c.cover('no file')
        return
    doc = got[1]
    if not (isinstance(doc, SObj) and doc.cls is cls):
        c.prove(False, 'a document')
        return
    known(None, doc)
    s = ip.getattr(doc, 'stream')
    if mine:
        c.prove(len(w.opened) == 1 and s is w.opened[0], 'reads the file it opened')
        if len(w.opened) != 1:
            return
    else:
        c.prove(s is src, 'reads the stream it was given')
    real = w.opened[0] if mine else src
    t, p = w.t, ze(w.start)
    start = w.start
    same_value(c, 'the document starts where the stream was', ip.getattr(doc, 'offset'), start)
    header = z3.And(z3.Not(t.END(p)), z3.Not(t.bad(p, False)), w.ISH(p))
    c.assume(t.facts(p))
    c.assume(w.ISH(p) == (t.ID(p) == EBML_ID))
    po = ip.getattr(doc, 'payloadOffset')
    if c.decide(z3.And(header, z3.Not(w.NODUMP(p)))):
        info = ip.getattr(doc, 'info')
        c.prove(isinstance(info, Info) and c.valid(mkb(ze(info.p) == p)), 'the info is the content of the header')
        if isinstance(info, Info):
            for a, k in (('type', 'DocType'), ('version', 'DocTypeVersion')):
                v = ip.getattr(doc, a)
                c.prove(k in info.memo and v is info.memo[k], 'its %s is the %s of the header' % (a, k))
        same_value(c, 'the header is the first root element exactly if asked for', po, start if asked else mki(t.next(p)))
        c.cover('with header')
        if asked:
            c.cover('listed')
    elif not c.decide(header):
        same_value(c, 'without a header the first element is a root element', po, start)
        got = outcome(lambda: (ip.getattr(doc, 'type'), ip.getattr(doc, 'version')))
        c.prove(got[0] == 'ok', 'type and version without header')
        c.cover('without header')
    # ------------------------------------------------------------------ closing
    c.prove(real.closed is False, 'open until closed')
    end = c.case('end', 'close', 'twice', 'with', 'with error')
    if end in ('close', 'twice'):
        for i in range(2 if end == 'twice' else 1):
            r = outcome(lambda: ip.call(ip.getattr(doc, 'close'), []))
            c.prove(r[0] == 'ok', 'closing returns')
    else:
        d = ip.call(ip.getattr(doc, '__enter__'), [])
        c.prove(d is doc, 'entering gives the document')
        c.prove(real.closed is False, 'open until left')
        e = ZeroDivisionError()
        r = outcome(lambda: ip.call(ip.getattr(doc, '__exit__'), [None] * 3 if end == 'with' else [ZeroDivisionError, e, SOpaque(object, 'tb')]))
        c.prove(r[0] == 'ok', 'leaving returns')
        if end == 'with error' and r[0] == 'ok':
            c.prove(not ip.truth(r[1]), 'an exception is passed on')
    c.prove(real.closed is mine, 'the file it opened is closed' if mine else "the caller's stream stays open")
    c.cover(via)


def refusing(c):
    w = World(c)
    ip = w.ip
    cls = document(w)
    has = c.case('has', *[tuple(m for i, m in enumerate(('read', 'tell', 'seek')) if b >> i & 1) for b in range(7)])
    obj = c.case('object', lambda: Lacking(has), lambda: None, lambda: c.fresh('number'), lambda: SOpaque(FileLike, 'thing'))
    if not isinstance(obj, Lacking) and has:
        raise PathAbort()
    kw = {}
    if c.case('headers', None, False) is False:
        kw['headers'] = False
    if c.case('size given', False, True):
        kw['size'] = c.fresh('size', 0)
    got = outcome(lambda: ip.call(cls, [obj], kw))
    c.prove(got[0] == 'exc' and isinstance(got[1], TypeError), 'an object that is no stream is refused with TypeError')
    c.cover('end')


KINDS = [
    Kind('open', K.check_open, K.gen_open, K.dir_open, n=1500),
    Kind('refused', K.check_refused, None, K.DIR_REFUSED),
    Kind('other', K.check_other, None, K.DIR_OTHER),
]

OPENS = ['core.Document.__init__', 'core.Document.close', 'core.Document.__enter__', 'core.Document.__exit__', 'core.Document.type',
         'core.Document.version', 'core.Schema.load', 'core.Schema.loads', 'core.Schema.__call__']

PROPERTY = Property('C24', [
    HEADERS,
    PARSE,
    LEVEL_ENDS,
    DITERATION,
    *[Proof('opening and closing: ' + how, lambda c, how=how: opening(c, how), OPENS,
            covers=['with header', 'without header', 'listed', 'Document', 'load'] + {'BytesIO': ['loads', '()'], 'str': ['no file'], 'Path': ['no file']}.get(how, []))
      for how in ('str', 'Path', 'BytesIO', 'file', 'other', 'unnamed')],
    Proof('refusing what is no stream', refusing, ['core.Document.__init__'], covers=['end']),
], KINDS)

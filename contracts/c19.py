"""XML export and import. By induction over the depth of the tree: what exporting
one element puts into its XML element (its children exported by contract), what
importing one XML element writes (its children imported by contract), and, per
type, that a value encoded in a payload of the size it was read from reads back."""
import ast
import builtins
import datetime
import inspect
import io
import pathlib
import re
import string
import tempfile
import xml.etree.ElementTree as ET
from .base import *
from .enc import *
from .nodes import Nodes, Node, each
from .leafspec import *
from . import c15, c18
from .c15 import shared
from .tree import fun, Z, known, DecodeError, HeaderError
from pyvc.models import Cell
from pyvc.interp import UNBOUND, GDict
from . import k_misc as K
import ebmlite.util as util
import ebmlite.xml_codecs as X

TYPES = dict(i=core.IntegerElement, u=core.UIntegerElement, f=core.FloatElement, s=core.StringElement, U=core.UnicodeElement,
             d=core.DateElement, b=core.BinaryElement, v=core.VoidElement, x=core.UnknownElement, m=core.MasterElement, D=core.Document)
NAMES = dict(i='integer', u='unsigned', f='float', s='string', U='Unicode', d='date', b='binary', v='void', x='unknown', m='master', D='document')
CODE = {k: i for i, k in enumerate(TYPES)}
CODECS = dict(base64=X.Base64Codec, hex=X.HexCodec, ignore=X.IgnoreCodec)
TO_XML, IMPORT = util.toXml, util.xmlElement2ebml


# ---------------------------------------------------------------- texts

class Str(SOpaque):
    """The text of a value: dec, hex (with 0x), digits (hex without), value, codec."""
    def __init__(self, kind, of, more=None):
        SOpaque.__init__(self, str, kind)
        self.kind, self.of, self.more = kind, of, more

    def is_none(self):
        return False

    __hash__ = Sym.__hash__


class Tag(SOpaque):
    """A name, known by a number."""
    CONST = {}

    def __init__(self, c, key):
        SOpaque.__init__(self, str, 'tag')
        self.c, self.key = c, ze(key)

    @classmethod
    def code(cls, text):
        return Z(-1 - cls.CONST.setdefault(text, len(cls.CONST)))

    def is_none(self):
        return False

    def guest_eq(self, o):
        if isinstance(o, Tag):
            return mkb(self.key == o.key)
        if isinstance(o, str):
            return mkb(self.key == self.code(o))
        if o is None or isint(o):
            return False
        raise Unsupported('comparison of a tag')

    def __eq__(self, o):
        return self.guest_eq(o)

    def __ne__(self, o):
        return Not(self.guest_eq(o))

    def __bool__(self):
        return True

    __hash__ = Sym.__hash__


def tag_key(x):
    return x.key if isinstance(x, Tag) else Tag.code(x) if isinstance(x, str) else None


def text_models(c):
    """str(), int() and friends on the texts above (trusted: what the standard
    library documents)."""
    def to_str(ip, v):
        if isinstance(v, SInt):
            return Str('dec', v)
        if isinstance(v, (SFloat, SDatetime, Val)):
            return Str('value', v)
        return NotImplemented

    def to_int(ip, x, base):
        if not isinstance(x, Str):
            return NotImplemented
        if x.kind == 'dec' and base in (None, 0, 10) or x.kind == 'hex' and base in (0, 16) or x.kind == 'digits' and base == 16:
            return x.of
        if x.kind == 'dec' and base == 16:
            return c.fresh('number', 0) if c.valid(mkb(ze(x.of) >= 0)) else c.fresh('number')
        if x.kind == 'value':
            graise(ValueError('invalid literal for int()'))
        if x.kind in ('hex', 'digits') and base is None:
            graise(ValueError('invalid literal for int()'))
        raise Unsupported('int() of a %s text, base %r' % (x.kind, base))

    def to_float(ip, x):
        if isinstance(x, Str) and x.kind == 'value' and isinstance(x.of, SFloat):
            return x.of
        if isinstance(x, Str):
            raise Unsupported('float() of a %s text' % x.kind)
        return NotImplemented

    def literal(ip, x):
        if isinstance(x, Str) and x.kind in ('dec', 'hex'):
            return x.of
        if isinstance(x, Str) and x.kind == 'value' and isinstance(x.of, (SFloat, SDatetime)):
            graise(ValueError('malformed node or string'))       # dates, infinities
        raise Unsupported('literal_eval')

    def date(ip, x):
        if isinstance(x, Str) and x.kind == 'value' and isinstance(x.of, SDatetime):
            return x.of
        if isinstance(x, Str):
            graise(ValueError('Invalid isoformat string'))
        raise Unsupported('fromisoformat')

    def binop(ip, op, a, b, inplace):
        if op is ast.Mod and isinstance(a, str):
            b = b[0] if isinstance(b, tuple) and len(b) == 1 else b
            m = re.fullmatch(r'(0[xX])?%(0\d+)?([xXds])', a)
            if m and isinstance(b, SInt):
                hexa = m.group(3) in 'xX'
                if hexa or not m.group(1):
                    return Str('hex' if hexa and m.group(1) else 'digits' if hexa else 'dec', b)
        return NotImplemented

    def fmt(ip, v, spec, conversion):
        if isinstance(v, SInt) and isinstance(spec, str):
            if re.fullmatch(r'(0\d+)?[xX]', spec):
                return Str('digits', v)
            if re.fullmatch(r'#(0\d+)?[xX]', spec):
                return Str('hex', v)
            if spec in ('', 'd'):
                return Str('dec', v)
        if spec == '' and isinstance(v, Sym) and (conversion == ord('s') or conversion == -1 and (isinstance(v, (SFloat, SDatetime)) or v.pytype is str)):
            return v if v.pytype is str else to_str(ip, v)            # format(x, '') is str(x) for these
        return NotImplemented

    def textcat(ip, parts):
        parts = [p for p in parts if not (isinstance(p, str) and not p)]
        if len(parts) == 1:
            return parts[0]
        if len(parts) == 2 and parts[0] in ('0x', '0X') and isinstance(parts[1], Str) and parts[1].kind == 'digits':
            return Str('hex', parts[1].of)
        return SOpaque(str, 'text')

    def formatted(ip, template, *args, **kwargs):
        if not isinstance(template, str) or not any(isinstance(x, Sym) for x in (*args, *kwargs.values())):
            return NotImplemented
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(template):
            parts.append(lit)
            if field is None:
                continue
            if conv or '{' in spec:
                raise Unsupported('format')
            if field == '':
                v, auto = args[auto], auto + 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                raise Unsupported('format field')
            if isinstance(v, Sym):
                v = fmt(ip, v, spec, -1)
                parts.append(SOpaque(str, 'text') if v is NotImplemented else v)
            else:
                parts.append(format(v, spec))
        return textcat(ip, parts)
    c.models.update({'str': to_str, 'int': to_int, 'float': to_float, 'binop': binop, 'fmt_value': fmt, 'textcat': textcat,
                     ('method', str, 'format'): formatted})
    c.models[hex] = lambda ip, x: Str('hex', x) if isinstance(x, SInt) else NotImplemented
    c.models[repr] = lambda ip, x: Str('dec', x) if isinstance(x, SInt) else Str('value', x) if isinstance(x, SFloat) else NotImplemented
    c.models[ast.literal_eval] = literal
    c.summaries[ast.literal_eval] = lambda ip, args, kwargs: literal(ip, *args, **kwargs)
    c.models[datetime.datetime.fromisoformat] = date


def written(t):
    """A text of which the verifier knows nothing decides nothing."""
    if type(t) is SOpaque:
        raise Unsupported('a text built in a way that is not understood')
    return t


def codec_models(c):
    """encode and decode of the codecs, by contract (C18): decoding what a codec
    wrote gives the data back, decoding nothing gives nothing."""
    def enc(name):
        def s(ip, args, kwargs):
            a = list(args[1:]) if args and isinstance(args[0], (SObj, SClass, X.BinaryCodec)) or args and isinstance(args[0], type) else list(args)
            data = a[0] if a else kwargs.get('data')
            if len(a) > 1 and a[1] is not None or kwargs.get('stream') is not None:
                raise Unsupported('encoding to a stream')
            return '' if name == 'ignore' else Str('codec', data, name)
        return s

    def dec(name):
        def s(ip, args, kwargs):
            a = list(args)
            if a and (isinstance(a[0], (SObj, SClass, X.BinaryCodec)) or isinstance(a[0], type)):
                a = a[1:]
            text = a[0] if a else kwargs.get('data')
            if len(a) > 1 or kwargs.get('stream') is not None:
                raise Unsupported('decoding to a stream')
            if text is None or isinstance(text, str) and not text.strip() or name == 'ignore':
                return b''
            if isinstance(text, Str) and text.kind == 'codec':
                c.prove(text.more == name, 'binary data are decoded by the codec that encoded them')
                if text.more == name:
                    return text.of
            raise Unsupported('decoding of %r' % (text,))
        return s
    for name, k in CODECS.items():
        for meth, f in (('encode', enc), ('decode', dec)):
            c.summaries[fn_of(k, meth)] = f(name)


# ---------------------------------------------------------------- XML elements

class Attribs(Sym):
    """The attributes of an XML element: a dictionary with constant keys."""
    pytype = dict

    def __init__(self, owner, d):
        self.owner, self.d = owner, dict(d)

    def is_none(self):
        return False

    def key(self, k):
        if not isinstance(k, str):
            raise Unsupported('attribute name %r' % (k,))
        return k

    def guest_contains(self, ip, k):
        return self.key(k) in self.d

    def guest_getitem(self, ip, k):
        if self.key(k) not in self.d:
            graise(KeyError(k))
        return self.d[k]

    def guest_setitem(self, ip, k, v):
        self.owner.write()
        self.d[self.key(k)] = v

    def guest_delitem(self, ip, k):
        self.m_pop(k)

    def m_get(self, k, d=None):
        return self.d.get(self.key(k), d)

    def m_pop(self, k, *d):
        if k in self.d:
            self.owner.write()
            return self.d.pop(k)
        if d:
            return d[0]
        graise(KeyError(k))

    def m_update(self, other=(), **kw):
        for k, v in list(dict(other).items()) + list(kw.items()):
            self.guest_setitem(None, k, v)

    def m_keys(self):
        return tuple(self.d)

    def m_items(self):
        return tuple(self.d.items())

    def guest_iter(self, ip):
        return list(self.d)

    def guest_len(self, ip):
        return len(self.d)

    def __bool__(self):
        return bool(self.d)

    __hash__ = Sym.__hash__


class Xml(Sym):
    """An XML element. One that is read only has children given as a sequence;
    one under construction counts the exports appended to it."""
    pytype = ET.Element

    def __init__(self, c, tag, attrib=(), text=None, kids=None, child_of=None):
        self.c, self.tag, self.text, self.kids, self.child_of = c, tag, text, kids, child_of
        self.attrib = Attribs(self, attrib)
        self.count = Cell(0) if kids is None else None
        self.frozen = False

    def is_none(self):
        return False

    def write(self):
        if self.frozen:
            self.c.prove(False, 'the XML is not changed')
            raise PathAbort()

    def guest_getattr(self, ip, name):
        if name in ('tag', 'attrib', 'text'):
            return getattr(self, name)
        if name == 'tail':
            return None
        m = getattr(self, 'm_' + name, None)
        if m is not None:
            return Method(m)
        raise Unsupported('attribute %s of an XML element' % name)

    def guest_setattr(self, ip, name, v):
        self.write()
        if name not in ('tag', 'text', 'tail'):
            raise Unsupported('attribute %s of an XML element' % name)
        setattr(self, name, v)

    def m_set(self, k, v):
        self.attrib.guest_setitem(None, k, v)

    def m_get(self, k, default=None):
        return self.attrib.m_get(k, default)

    def m_items(self):
        return self.attrib.m_items()

    def m_keys(self):
        return self.attrib.m_keys()

    def m_append(self, x):
        self.write()
        if self.kids is not None or not isinstance(x, Xml) or x.child_of is None:
            raise Unsupported('append to an XML element')
        self.add(x)

    def add(self, x):
        k = self.count.get()
        c = self.c
        node, i = x.child_of
        c.prove(node is self.node and mkb(ze(i) == ze(k)), 'the exports of the children, in order')
        self.count.set(k + 1)

    def guest_iter(self, ip):
        if self.kids is None:
            raise Unsupported('children of an XML element under construction')
        return self.kids

    def guest_len(self, ip):
        if self.kids is None:
            raise Unsupported('children of an XML element under construction')
        return self.kids.n if isinstance(self.kids, SSeq) else len(self.kids)

    def guest_getitem(self, ip, k):
        if self.kids is None or not isint(k):
            raise Unsupported('children of an XML element')
        return self.kids.get(k) if isinstance(self.kids, SSeq) else self.kids[k]

    def guest_isinstance(self, ip, u):
        us = u if isinstance(u, tuple) else (u,)
        return any(x in (ET.Element, object) for x in us)

    def same_as(self, ip, o):
        return o is self

    def ident_eq(self, o):
        return o is self

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def __bool__(self):
        raise Unsupported('truth of an XML element')

    __hash__ = Sym.__hash__


class Method(Sym):
    def __init__(self, f):
        self.f = f

    def guest_call(self, ip, args, kwargs):
        return self.f(*args, **kwargs)

    __hash__ = Sym.__hash__


# ---------------------------------------------------------------- export

class Named(Sym):
    """A class or schema of which only some attributes are known."""
    def __init__(self, **attrs):
        self.attrs = attrs

    def is_none(self):
        return False

    def guest_getattr(self, ip, name):
        if name in self.attrs:
            return self.attrs[name]
        raise Unsupported('attribute ' + name)

    __hash__ = Sym.__hash__


def value_of(c, kind):
    return {'i': lambda: c.fresh('value', -2 ** 63, 2 ** 63 - 1), 'u': lambda: c.fresh('value', 0, 2 ** 64 - 1),
            'f': lambda: SFloat(c.fresh('bits', 0, 2 ** 64 - 1)), 'd': lambda: SDatetime.arbitrary('date')}.get(
                kind, (lambda: SOpaque(str, 'the text')) if kind in 'sU' else (lambda: Val('the bytes', (bytes, bytearray))))()


class World(Nodes):
    def __init__(self, c):
        Nodes.__init__(self, c)
        self.KIND = fun(c, 'KIND', 'i', 'i')
        for k, t in TYPES.items():
            subs = [CODE[j] for j, u in TYPES.items() if issubclass(u, t)]
            self.types[t] = lambda x, subs=subs: z3.Or(*[self.KIND(x) == j for j in subs])
        self.types[core.Element] = lambda x: z3.BoolVal(True)
        self.types[object] = self.types[core.Element]
        for t in (str, bytes, int, list):
            self.types[t] = lambda x: z3.BoolVal(False)
        text_models(c)
        codec_models(c)

    def facts(self, x):
        k = self.KIND(x)
        return z3.And(k >= 0, k < len(CODE), self.MASTER(x) == z3.Or(k == CODE['m'], k == CODE['D']), self.UNKNOWN(x) == (k == CODE['x']),
                      self.DOC(x) == (k == CODE['D']), Nodes.facts(self, x))


def truth(x):
    return z3.BoolVal(bool(x)) if not isinstance(x, Sym) else zb(x)


def codec_of(x):
    """The name of a codec given by name or instance."""
    if isinstance(x, str):
        return x
    if isinstance(x, SObj) and isinstance(x.cls, type):
        return next((n for n, k in CODECS.items() if k is x.cls), None)
    return next((n for n, k in CODECS.items() if isinstance(x, k)), None)


def export(kind):
    def run(c):
        w = World(c)
        ip = w.ip
        el = w.node()
        c.assume(w.KIND(el.x) == CODE[kind])
        c.assume(w.facts(el.x))
        eid, value = c.fresh('id', 0x81, 2 ** 29 - 1), value_of(c, kind)
        name = SOpaque(str, 'the name')
        unreadable = kind not in 'mDv' and bool(c.choose(2, 'unreadable'))

        def val(n):
            if n is not el:
                raise Unsupported('value of a child')
            if kind in 'mD':
                raise Unsupported('value of a master')
            if unreadable:
                graise(DecodeError('value'))
            return value
        size = c.fresh('size', 0)
        own = dict(id=eid, name=name, offset=c.fresh('offset', 0), size=size)
        own['dtype'] = Named(__name__=SOpaque(str, 'type'))
        if kind == 'D':
            own['__class__'] = Named(__name__=name)
            own['id'] = None
            own['filename'] = SOpaque(str, 'file name')
            own['schema'] = Named(name=SOpaque(str, 'schema name'), filename=c.case('schema file', None, lambda: SOpaque(str, 'schema file')))
            own.pop('name')

        def get(a):
            def f(n):
                if n is not el:
                    raise Unsupported('attribute of a child')
                return own[a]
            return f
        for a in own:
            w.attrs[a] = get(a)
        w.attrs['value'] = val
        flags = {f: c.fresh_bool(f) for f in ('offsets', 'sizes', 'types', 'ids')}
        bname, vname = 'base64', 'ignore'
        if kind in 'bxv':
            bname = c.case('binary codec', 'base64', 'hex')
        if kind == 'v' or bname == 'hex':
            vname = c.case('void codec', 'ignore', 'base64', 'hex')
        inst = c.choose(2, 'codec instances')
        made = lambda n: SObj(CODECS[n], {}, n) if inst else n     # noqa: E731
        bc, vc = made(bname), made(vname)
        parent = c.case('parent', None, lambda: Xml(c, SOpaque(str, 'parent'), kids=[]))
        roots = []

        def element(tag, attrib=None, **extra):
            x = Xml(c, tag)
            x.node = el
            x.attrib.m_update(attrib.d if isinstance(attrib, Attribs) else dict(attrib.items) if isinstance(attrib, GDict) else attrib or {}, **extra)
            x.child_of = None
            roots.append(x)
            return x

        def make(ip, tag, attrib=None, **extra):
            return element(tag, attrib, **extra)

        def sub(ip, par, tag, attrib=None, **extra):
            x = element(tag, attrib, **extra)
            if par is not parent:
                raise Unsupported('SubElement of another element')
            x.under = parent
            return x
        c.models[ET.Element] = make
        c.models[ET.SubElement] = sub
        if parent is not None:
            def attach(x):
                if x not in roots:
                    raise Unsupported('append')
                x.under = parent
            parent.m_append = attach

        def child(ip_, args, kwargs):
            a = bindargs(TO_XML, args, kwargs)
            e = a['el']
            if e is el:
                return NotImplemented
            if not isinstance(e, Node) or not hasattr(e, 'k'):
                raise Unsupported('export of something else')
            c.prove(mkb(truth(a['ids']) == truth(flags['ids'])), 'with IDs as asked for')
            c.prove(codec_of(a['binary_codec']) == bname, 'with the same binary codec')
            c.prove(codec_of(a['void_codec']) == vname, 'with the same void codec')
            x = Xml(c, SOpaque(str, 'child'), kids=[], child_of=(el, e.k))
            par = a['parent']
            if par is not None:
                c.prove(par in roots, 'below the XML element of its parent')
                if par not in roots:
                    raise PathAbort()
                par.add(x)
                x.child_of = None
            c.cover('child')
            return x
        c.summaries[TO_XML] = child
        got = outcome(lambda: ip.call_fn(TO_XML, [el, parent], dict(binary_codec=bc, void_codec=vc, **flags)))
        if got[0] == 'exc':
            if kind in 'mD':
                c.prove(isinstance(got[1], HeaderError), 'fails only for an error in its children')
            else:
                c.prove(unreadable and isinstance(got[1], DecodeError), 'fails only for a value that cannot be read')
            c.cover('fails')
            return
        x = got[1]
        c.prove(not unreadable, 'a value that cannot be read is not left out')
        c.prove(x in roots, 'a new XML element')
        if x not in roots:
            return
        c.prove(parent is None or getattr(x, 'under', None) is parent, 'appended to the parent')
        a = x.attrib.d
        c.prove(x.tag is name, 'the tag is the name')
        c.prove('sizeLength' not in a, 'no length of the size descriptor is asked for')
        if kind == 'x' and c.decide(flags['ids'].e):
            h = written(a.get('id'))
            c.prove(isinstance(h, Str) and h.kind in ('hex', 'digits') and mkb(ze(h.of) == ze(eid)), 'the ID of an unknown element, in hexadecimal')
        s = written(a.get('size'))
        if s is not None or kind == 'v':
            c.prove(isinstance(s, Str) and s.kind == 'dec' and mkb(ze(s.of) == ze(size)), 'the size')
        n = x.count.get()
        if kind in 'mD':
            c.prove(mkb(z3.Not(w.ERR(el.x))), 'an error in the children is not left out')
            c.prove(mkb(ze(n) == w.M(el.x)), 'all children')
            c.cover('end')
            return
        c.prove(mkb(ze(n) == 0), 'no children')
        if kind in 'bxv':
            codec, t = a.get('encoding', 'base64'), x.text
            if kind == 'v' and vname == 'ignore':
                c.prove(t is None or isinstance(t, str) and not t.strip(), 'no contents')
                c.prove(codec in CODECS, 'a codec')
            else:
                c.prove(isinstance(t, Str) and t.kind == 'codec' and t.of is value, 'the data, encoded')
                c.prove(isinstance(t, Str) and codec == t.more and codec in ('base64', 'hex'), 'the codec is named')
        else:
            t = a.get('value')
            t = t if t is value else written(t)
            if kind in 'sU':
                c.prove(t is value, 'the text')
            elif kind in 'iu':
                c.prove(isinstance(t, Str) and t.kind in ('dec', 'hex') and mkb(ze(t.of) == ze(value)), 'the value')
            else:
                c.prove(isinstance(t, Str) and t.kind == 'value' and t.of is value, 'the value')
        c.cover('end')
    return run


# ---------------------------------------------------------------- import

class WStream(Sym):
    """A stream that is written at, told and sought: head (everything before the
    position), tail (what is known to follow) and the total length."""
    def __init__(self, c, head, ext, pytype=io.BytesIO, name='out'):
        self.c, self.head, self.tail, self.ext, self.pytype = c, rope(head), rope(b''), ext, pytype
        c.register(self, name)

    def is_none(self):
        return False

    def heap_get(self, part):
        return getattr(self, part)

    def heap_set(self, part, v):
        if part in ('head', 'tail') and not isinstance(v, (bytes, SRope)):
            v = opaque_bytes('anything')
        if part == 'ext' and not isint(v):
            v = self.c.fresh('length of the file', 0)
        setattr(self, part, rope(v) if part != 'ext' else v)

    def put(self, part, v):
        self.c.mutate(self, part)
        setattr(self, part, v)

    @property
    def pos(self):
        return mki(ze(self.head.n))

    def m_tell(self):
        return self.pos

    def m_write(self, x):
        if isinstance(x, SByteArray):
            x = x.val
        if not isinstance(x, (bytes, bytearray, SRope)) or rope(x).kind != 'bytes':
            if isinstance(x, SOpaque) and x.pytype is bytes:
                raise Unsupported('write of %r' % (x,))
            graise(TypeError('a bytes-like object is required'))
        x = rope(x)
        self.put('head', rope(self.head + x))
        c, n = self.c, ze(self.tail.n)
        if isinstance(self.tail.n, int) and self.tail.n == 0:
            pass
        elif c.valid(mkb(ze(x.n) <= n)):
            self.put('tail', rope(self.tail.slice(x.n, self.tail.n)))
        else:
            self.put('tail', rope(b''))
        p = ze(self.head.n)
        self.put('ext', mki(z3.If(ze(self.ext) >= p, ze(self.ext), p)))
        return x.n

    def m_writelines(self, xs):
        each(self.c.interp, self.c.interp.iterate(xs), self.m_write)

    def m_seek(self, to, whence=0):
        c = self.c
        if whence == 2 or whence == 1:
            to = to + (self.ext if whence == 2 else self.pos)
        elif whence != 0 or not isint(to):
            raise Unsupported('seek')
        p = ze(self.head.n)
        if c.valid(mkb(ze(to) == p)):
            return to
        if c.valid(mkb(z3.And(ze(to) >= 0, ze(to) <= p))):
            h, t = self.head, self.tail
            self.put('head', rope(h.slice(0, to)))
            self.put('tail', rope(rope(h.slice(to, h.n)) + t))
            return to
        d = mki(ze(to) - p)
        if c.valid(mkb(z3.And(ze(d) >= 0, ze(d) <= ze(self.tail.n)))):
            h, t = self.head, self.tail
            self.put('head', rope(h + rope(t.slice(0, d))))
            self.put('tail', rope(t.slice(d, t.n)))
            return to
        raise Unsupported('seek beyond what is known')

    def m_flush(self):
        return None

    def m_seekable(self):
        return True

    def m_writable(self):
        return True

    def m_getvalue(self):
        if not self.c.valid(mkb(ze(self.ext) == ze(self.head.n) + ze(self.tail.n))):
            raise Unsupported('contents of the stream')
        return rope(self.head + self.tail).lower()

    def m_getbuffer(self):
        return self.m_getvalue()

    def __bool__(self):
        return True

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def same_as(self, ip, o):
        return o is self

    __hash__ = Sym.__hash__


class ByName(Sym):
    """A schema's classes by name: the ones this proof needs."""
    pytype = dict

    def __init__(self, c, table, other=None):
        self.c, self.table, self.other = c, table, other

    def find(self, k):
        if isint(k) or k is None:
            return None
        key = tag_key(k)
        if key is None:
            raise Unsupported('lookup of %r' % (k,))
        for t, cls in self.table:
            if self.c.decide(t == key):
                return cls
        if self.other is not None and self.c.decide(self.other(key)):
            return Named()
        return None

    def guest_contains(self, ip, k):
        if isint(k) or k is None:
            return False
        key = tag_key(k)
        if key is None:
            raise Unsupported('lookup of %r' % (k,))
        return mkb(z3.Or(*([t == key for t, cls in self.table] + ([] if self.other is None else [self.other(key)]))))

    def guest_getitem(self, ip, k):
        r = self.find(k)
        if r is None:
            graise(KeyError('name'))
        return r

    def m_get(self, k, d=None):
        r = self.find(k)
        return d if r is None else r

    def __bool__(self):
        raise Unsupported('truth of the table')

    __hash__ = Sym.__hash__


class ById(ByName):
    """... by ID: no name is an ID."""
    def find(self, k):
        if isint(k):
            raise Unsupported('lookup by ID')
        return None

    def guest_contains(self, ip, k):
        if isint(k):
            raise Unsupported('lookup by ID')
        return False


def schema_of(c, table, other=None, **more):
    return known(None, SObj(core.Schema, dict(elements=ById(c, []), elementsByName=ByName(c, table, other), name=SOpaque(str, 'schema'), **more), 'schema'))


HAS_FIXED = '_fixed' in inspect.signature(IMPORT).parameters


class Scene:
    """What importing needs: a schema, a stream with something in it, the XML."""
    def __init__(self, c):
        self.c, self.ip = c, Interp(c)
        c.uniform = True
        text_models(c)
        codec_models(c)
        c.summaries[encoding.getLength] = self.get_length
        self.pre = opaque_bytes('before')
        self.ext0 = c.fresh('length of the file before', 0)
        c.assume(mkb(ze(self.ext0) >= ze(self.pre.n)))
        self.out = WStream(c, self.pre, self.ext0)
        c.models[io.BytesIO] = lambda ip, *a: WStream(c, b'', 0, name='buffer') if not a else NotImplemented
        self.sizes, self.ids = [], []
        c.summaries[encoding.encodeId] = self.encode_id
        c.summaries[encoding.encodeSize] = self.encode_size

        def written(o, name, v):
            c.prove(False, 'no class is changed')
            raise PathAbort()
        c.class_write_hook = written

    def encode_id(self, ip, args, kwargs):
        a = bindargs(encoding.encodeId, args, kwargs)
        if a['length'] is not None:
            raise Unsupported('length of an ID')
        for e, b in self.ids:
            if self.c.valid(same_opt(e, a['eid'])):
                return b
        b = opaque_bytes('ID', 1)
        self.c.assume(b.n <= 4)
        self.ids.append((a['eid'], b))
        return b

    def encode_size(self, ip, args, kwargs):
        c = self.c
        a = bindargs(encoding.encodeSize, args, kwargs)
        v, n = a['val'], a['length']
        if n is None:
            raise Unsupported('size descriptor of any length')
        if not c.valid(mkb(z3.And(ze(n) >= 1, ze(n) <= 8))):
            raise Unsupported('length of a size descriptor')
        if v is not None and not c.decide(self.fits(v, n)):
            graise(ValueError('size does not fit'))
        b = opaque_bytes('SIZE', 1)
        c.assume(mkb(ze(b.n) == ze(n)))
        self.sizes.append((v, n, b))
        return b

    def get_length(self, ip, args, kwargs):
        v = bindargs(encoding.getLength, args, kwargs)['val']
        if not isint(v):
            raise Unsupported('getLength')
        e = Z(8)
        for k in range(7, 0, -1):
            e = z3.If(ze(v) <= 2 ** (7 * k) - 2, Z(k), e)
        return mki(e)

    def fits(self, v, n):
        n, v = ze(n), ze(v)
        return z3.Or(*[z3.And(n == k, v <= 2 ** (7 * k) - 2) for k in range(1, 9)])

    def params(self):
        """sizeLength, unknown and _fixed; the length asked for, if any."""
        c = self.c
        sl = c.case('sizeLength', None, lambda: c.fresh('sizeLength', 1, 8))
        unknown = c.fresh_bool('unknown allowed')
        kw = dict(unknown=unknown)
        fixed = True
        if HAS_FIXED:
            if sl is not None or c.choose(2, 'hint'):
                fixed = bool(c.choose(2, 'asked for'))
                kw['_fixed'] = fixed
        asked = sl if fixed else None
        return sl, asked, kw


def attributes(c, own, size):
    """Attributes of an exported XML element, whichever were exported."""
    a = dict(own)
    if c.choose(2, 'other attributes'):
        a.update(type=SOpaque(str, 'type'), offset=Str('dec', c.fresh('offset', 0)))
    sl = c.case('sizeLength attribute', None, lambda: c.fresh('sizeLength attribute', 1, 8))
    if sl is not None:
        a['sizeLength'] = Str('dec', sl)
    if size is not None:
        a['size'] = Str('dec', size)
    return a, sl


def leaf_import(kind):
    def run(c):
        w = Scene(c)
        ip = w.ip
        value = value_of(c, kind)
        eid = c.fresh('id', 0x81, 2 ** 29 - 1)
        tag = Tag(c, c.fresh('tag', 0))
        cls = None
        own = {}
        if kind != 'x':
            cls = element_class(c, kind, id=eid)
            w.schema = schema_of(c, [(tag.key, cls)])
            if c.choose(2, 'id'):
                own['id'] = Str('hex', eid)
        else:
            w.schema = schema_of(c, [])
            own['id'] = Str('hex', eid)
        size = c.case('size attribute', *([None] * (kind != 'v')), lambda: 0, lambda: c.fresh('size', 1))
        text = None
        if kind in 'bxv':
            form = c.case('contents', *([None] * (kind == 'v')), 'base64', 'base64 by default', 'hex')
            if form is not None:
                text = Str('codec', value, form.split()[0])
                if 'default' not in form:
                    own['encoding'] = form
            elif c.choose(2, 'empty text'):
                text = ''
        else:
            own['value'] = value if kind in 'sU' else Str('dec' if kind in 'iu' else 'value', value)
        attrs, sla = attributes(c, own, size)
        xml = Xml(c, tag, attrs, text, kids=[])
        xml.frozen = True
        sl, asked, kw = w.params()
        if kind == 'x':
            c.assume(kw['unknown'].e)
        calls = []
        before = dict(cls.attrs) if cls is not None else None

        def enc(fn):
            def s(ip, args, kwargs):
                a = bindargs(fn, args, kwargs)
                v = a.get('value', a.get('data'))
                k = a['cls']
                if kind == 'x':
                    ok = isinstance(k, SClass) and k.base is core.UnknownElement
                    c.prove(ok, 'an unknown element')
                    if not ok:
                        raise PathAbort()
                    i = ip.getattr(k, 'id')
                    c.prove(isint(i) and mkb(ze(i) == ze(eid)), 'with its ID')
                else:
                    c.prove(k is cls, 'the class the schema has for the name')
                if kind == 'v' and not isinstance(text, Str):
                    c.prove(v is None or isinstance(v, (bytes, bytearray)) and not v, 'no contents')
                else:
                    same_value(c, 'the value', v, value)
                ln = a['length']
                ok = ln is None and kind != 'v' or isint(ln) and size is not None and kind not in 'iud' and mkb(ze(ln) == ze(size)) \
                    or isint(ln) and size is not None and kind in 'iud' and mkb(z3.And(ze(ln) == ze(size), ze(size) > 0))
                c.prove(ok, 'the length of the payload: what the size attribute says, or the shortest')
                L = a['lengthSize']
                none = lambda x: x is None or isint(x) and c.valid(mkb(ze(x) == -1))      # noqa: E731
                if sla is not None:
                    c.prove(same_opt(L, sla), 'the length asked for its size descriptor')
                elif not none(L):
                    c.prove(same_opt(L, asked), 'no other length of the size descriptor')
                c.prove(a['infinite'] is False, 'of known size')
                if c.choose(2, 'refused'):
                    calls.append(None)
                    graise(Refused('the value'))
                calls.append(opaque_bytes('ENCODED', 2))
                return calls[-1]
            return s
        for fn in ENCODES:
            c.summaries[fn] = enc(fn)
        got = outcome(lambda: ip.call(IMPORT, [xml, w.out, w.schema, sl], kw))
        if before is not None:
            c.prove(all(cls.attrs.get(k, UNBOUND) is v for k, v in before.items()) and len(cls.attrs) == len(before), 'the class is not changed')
        if got[0] == 'exc':
            c.prove(None in calls and isinstance(got[1], Refused), 'fails only if encoding does')
            c.cover('refused')
            return
        c.prove(len(calls) == 1 and calls[0] is not None, 'encoded once')
        if len(calls) != 1 or calls[0] is None:
            return
        finish(w, got[1], calls[0])
        c.cover('end')
    return run


def finish(w, ret, data):
    """Exactly this was written, at the position of the stream."""
    c, out = w.c, w.out
    c.prove_rope(out.head, cat(w.pre, data), 'exactly its encoding is written')
    p = ze(w.pre.n) + ze(rope(data).n)
    c.prove(mkb(ze(out.ext) == z3.If(ze(w.ext0) >= p, ze(w.ext0), p)), 'nothing is written after it')
    c.prove(isint(ret) and mkb(ze(ret) == ze(rope(data).n)), 'the number of bytes is returned')


ENCODES = [core.Element.encode.__func__, core.MasterElement.encode.__func__]


def rejected(c):
    """An element the schema does not define."""
    w = Scene(c)
    ip = w.ip
    tag = Tag(c, c.fresh('tag', 0))
    w.schema = schema_of(c, [])
    how = c.case('how', 'no ID', 'not allowed')
    own = {}
    eid = c.fresh('id', 0x81, 2 ** 29 - 1)
    if how == 'not allowed' and c.choose(2, 'ID'):
        own['id'] = Str('hex', eid)
    attrs, sla = attributes(c, own, c.case('size attribute', None, lambda: c.fresh('size', 0)))
    if c.choose(2, 'value'):
        attrs['value'] = SOpaque(str, 'value')
    xml = Xml(c, tag, attrs, c.case('text', None, '', lambda: SOpaque(str, 'text')), kids=[])
    xml.frozen = True
    sl, asked, kw = w.params()
    if how == 'not allowed':
        c.assume(z3.Not(kw['unknown'].e))
    got = outcome(lambda: ip.call(IMPORT, [xml, w.out, w.schema, sl], kw))
    c.prove(got[0] == 'exc' and isinstance(got[1], NameError), 'NameError')
    c.cover('end')


def comment(c):
    """Comments and processing instructions are no elements."""
    w = Scene(c)
    w.schema = schema_of(c, [])
    xml = Xml(c, Named(), {}, SOpaque(str, 'text'), kids=[])
    xml.frozen = True
    sl, asked, kw = w.params()
    got = outcome(lambda: w.ip.call(IMPORT, [xml, w.out, w.schema, sl], kw))
    c.prove(got[0] == 'ok', 'no error')
    if got[0] == 'ok':
        finish(w, got[1], b'')
        c.cover('end')


class Kids:
    """Children by contract: child k imported with the hint h for the length of
    its descriptor becomes bytes CL(h, k) to CL(h, k + 1) of ALL(h). With no
    length asked for, a longer hint gives no shorter encoding (lemma)."""
    def __init__(self, w, n, asked, unknown, passed=False):
        self.w, self.c, self.n, self.asked, self.unknown, self.passed = w, w.c, n, asked, unknown, passed
        c = self.c
        self.CL, self.BAD, self.FINE = fun(c, 'END', 'i', 'i', 'i'), fun(c, 'BAD', 'i', 'b'), fun(c, 'FINE', 'i', 'b')
        self.ALL = fun(c, 'ALL', 'i', 'i', 'i')
        self.hint = Cell(0)
        c.assume(self.FINE(Z(0)))
        c.forall(lambda j: z3.Implies(z3.And(self.FINE(ze(n)), 0 <= j, j < ze(n)), z3.Not(self.BAD(j))))
        for h in range(9):
            c.assume(self.CL(Z(h), Z(0)) == 0)
            c.assume(self.CL(Z(h), ze(n)) >= 0)
            c.assume(self.CL(Z(h), ze(n)) <= MAXPAY)
            if h > 1:
                c.assume(self.CL(Z(h), ze(n)) >= self.CL(Z(h - 1), ze(n)))
        c.ghosts.append(self.ghosts)
        c.history.append(('no item was refused so far', lambda k: mkb(self.fine(k))))
        self.seq = SSeq(n, self.item, 'children')
        self.starts = []

    def item(self, k):
        x = Xml(self.c, SOpaque(str, 'child'), {}, None, kids=[])
        x.frozen, x.k = True, k
        return x

    def step(self, h, k):
        c, k, h = self.c, ze(k), ze(h)
        c.assume(self.CL(h, Z(0)) == 0)
        for j in (k - 1, k):
            c.skolem(j)
            c.assume(z3.Implies(j >= 0, z3.And(self.CL(h, j + 1) >= self.CL(h, j), self.CL(h, j) >= 0,
                                               self.FINE(j + 1) == z3.And(self.FINE(j), z3.Not(self.BAD(j))))))
            c.assume(z3.Implies(z3.And(j >= 0, j <= ze(self.n)), self.CL(h, j) <= self.CL(h, ze(self.n))))
        return k

    def fine(self, k):
        return self.FINE(self.step(0, k))

    def part(self, h, a, b):
        h = ze(h)
        a, b = self.CL(h, self.step(h, a)), self.CL(h, self.step(h, b))
        return SRope('bytes', [Seg.fun(mki(b - a), lambda i: self.ALL(h, i + a))])

    def upto(self, h, k):
        return self.part(h, 0, k)

    def total(self, h):
        return mki(self.CL(ze(h), self.step(h, self.n)))

    def known_hints(self):
        """Integers in scope that may be a hint."""
        out = {}
        frames = list(self.c.frames[-1:])
        if frames and '.<comp' in frames[0].fn_name:
            frames += self.c.frames[-2:-1]
        for fr in frames:
            for name, v in fr.env.items():
                if isint(v) and not isinstance(v, (bool, SBool)) and not name.startswith('.'):
                    out[name] = v
        return out

    def ghosts(self, loc, sh, old, seq):
        out = []
        hs = [(n, v) for n, v in self.known_hints().items() if loc[0] != 'local' or loc[2] != n]
        hs.append(('none', 0))
        if self.passed:
            hs.append(('asked for', 0 if self.asked is None else self.asked))
        for n, h in hs:
            if sh[0] == 'rope':
                out.append(('encoded so far, hint ' + n, lambda k, h=h: rope(old) + self.upto(h, k) if isinstance(old, (bytes, SRope)) else self.upto(h, k)))
            elif sh[0] == 'int':
                if loc[0] == 'heap':
                    out.append(('hint ' + n, lambda k, h=h: h))
                out.append(('length so far, hint ' + n, lambda k, h=h: mki(self.CL(ze(h), self.step(h, k)))))
                if isint(old):
                    out.append(('old + length so far, hint ' + n, lambda k, h=h: mki(ze(old) + self.CL(ze(h), self.step(h, k)))))
                    for i, s in enumerate(self.starts[-1:]):
                        def ext(k, h=h, s=s):
                            e = ze(s) + self.CL(ze(h), self.step(h, k))
                            return mki(z3.If(ze(old) >= e, ze(old), e))
                        out.append(('end of the file, hint ' + n, ext))
        return out

    def load(self, ip, args, kwargs):
        """The contract of importing one child."""
        c, w = self.c, self.w
        a = bindargs(IMPORT, args, kwargs)
        x, out = a['xmlEl'], a['ebmlFile']
        if not isinstance(x, Xml) or not hasattr(x, 'k'):
            return NotImplemented
        if not isinstance(out, WStream):
            raise Unsupported('output stream')
        c.prove(a['schema'] is w.schema, 'children are imported with the same schema')
        c.prove(mkb(truth(a['unknown']) == truth(self.unknown)), 'unknown children are allowed as asked for')
        h = a['sizeLength']
        fixed = h is not None and (truth(a['_fixed']) if HAS_FIXED else True)
        if isinstance(fixed, z3.BoolRef):
            fixed = c.decide(fixed)
        if self.asked is None:
            c.prove(not fixed, 'no length is asked for that was not asked for')
        elif self.passed:
            c.prove(bool(fixed) and same_opt(h, self.asked), 'children get the length asked for')
        if h is not None and not c.valid(mkb(z3.And(ze(h) >= 1, ze(h) <= 8))):
            raise Unsupported('hint')
        h = 0 if h is None else h
        k = x.k
        self.step(h, k)
        self.hint.set(h)
        if c.decide(self.BAD(ze(k))):
            c.cover('a child is refused')
            graise(Refused('a child'))
        p = self.part(h, k, k + 1)
        out.m_write(p)
        return p.n


def master_scene(c, w, how):
    ip = w.ip
    eid = c.fresh('id', 0x81, 2 ** 29 - 1)
    tag = Tag(c, c.fresh('tag', 0))
    cls = element_class(c, 'm', id=eid)
    w.schema = schema_of(c, [(tag.key, cls)])
    size = c.fresh('size', 0, MAXPAY) if how == 'size' else None
    own = dict(id=Str('hex', eid))
    if size is not None:
        own['size'] = Str('dec', size)
    sla = c.fresh('sizeLength attribute', 1, 8) if how == 'attribute' else None
    if sla is not None:
        own['sizeLength'] = Str('dec', sla)
        if c.choose(2, 'size attribute'):
            own['size'] = Str('dec', c.fresh('size', 0, MAXPAY))
    n = c.fresh('children', 0)
    xml = Xml(c, tag, own, SOpaque(str, 'white space'), kids=[])
    xml.frozen = True
    return xml, cls, eid, n, sla


MASTER_HOW = dict(attribute='length asked for by an attribute', parameter='length asked for by the caller', hint='longer hint than needed or not', size='length from the size', default='default length')


def master_import(how):
    return lambda c: import_master(c, how)


def import_master(c, how):
    w = Scene(c)
    ip = w.ip
    xml, cls, eid, n, sla = master_scene(c, w, how)
    kw = dict(unknown=c.fresh_bool('unknown allowed'))
    sl = c.fresh('sizeLength', 1, 8) if how in ('parameter', 'hint') or how == 'attribute' and c.choose(2, 'sizeLength') else None
    asked = sl
    if how == 'hint' or how == 'attribute' and sl is not None and HAS_FIXED and c.choose(2, 'hint'):
        kw['_fixed'] = False
        asked = None
    kids = Kids(w, n, sla if sla is not None else asked, kw['unknown'], passed=sla is None and asked is not None)
    xml.kids = kids.seq
    asked = sla if sla is not None else asked
    ids = w.encode_id(ip, [eid], {})
    kids.starts.append(None)
    tell = w.out.m_tell

    def start(ip_, args, kwargs):
        kids.starts[-1] = w.out.pos
        return w.encode_size(ip_, args, kwargs)
    c.summaries[IMPORT] = kids.load
    write = w.out.m_write

    def on_write(x):
        r = write(x)
        if not isinstance(x, SRope) or not any(s[2] is x for s in w.sizes):
            return r
        kids.starts[-1] = w.out.pos
        return r
    w.out.m_write = on_write
    before = dict(cls.attrs)
    got = outcome(lambda: ip.call(IMPORT, [xml, w.out, w.schema, sl], kw))
    c.prove(all(cls.attrs.get(k, UNBOUND) is v for k, v in before.items()) and len(cls.attrs) == len(before), 'the class is not changed')
    if got[0] == 'exc':
        if isinstance(got[1], Refused):
            c.prove(mkb(z3.Not(kids.fine(n))), 'fails only if a child does')
            return
        c.prove(isinstance(got[1], ValueError), 'ValueError')
        c.prove(asked is not None and mkb(z3.Not(w.fits(kids.total(kids.hint.get()), asked))), 'only if the size does not fit the length asked for')
        c.cover('does not fit')
        return
    c.prove(mkb(kids.fine(n)), 'a child that is refused is not left out')
    h = kids.hint.get()
    if not w.sizes:
        c.prove(False, 'a size descriptor')
        return
    v, L, b = w.sizes[-1]
    c.prove(v is not None and same_opt(v, kids.total(h)), 'the size is the length of the children')
    if asked is not None:
        c.prove(same_opt(L, asked), 'the length asked for its size descriptor')
    elif how == 'hint':
        c.prove(mkb(z3.Or(ze(n) == 0, ze(L) == ze(h))), 'the hint its children got is the length used', guess=True)
        c.prove(mkb(least(w, kids, sl, L)), 'the shortest length from the hint on that fits', guess=True)
    finish(w, got[1], cat(ids, b, kids.upto(h, n)))
    c.cover('end')
    if len(w.sizes) > 2:
        c.cover('rewritten')


def least(w, kids, h, L):
    """L is the shortest length, at least h, for which the children fit."""
    h, L, n = ze(h), ze(L), ze(kids.n)
    fits = lambda k: kids.CL(Z(k), n) <= 2 ** (7 * k) - 2      # noqa: E731
    return z3.And(h <= L, L <= 8, *[z3.And(z3.Implies(L == k, fits(k)), z3.Implies(z3.And(h <= k, k < L), z3.Not(fits(k)))) for k in range(1, 9)])


def longer_hint(c):
    """What Kids assumes of the children follows, for a master, from its contract
    and the same of its own children: a longer hint gives no shorter encoding."""
    w = Scene(c)
    kids = Kids(w, c.fresh('children', 0), None, True)
    g, h, K, L = (c.fresh(x, 1, 8) for x in ('g', 'h', 'K', 'L'))
    c.assume(mkb(ze(g) <= ze(h)))
    c.assume(mkb(least(w, kids, g, K)))
    c.assume(mkb(least(w, kids, h, L)))
    n = ze(kids.n)
    c.prove(mkb(ze(K) + kids.CL(ze(K), n) <= ze(L) + kids.CL(ze(L), n)), 'a longer hint gives no shorter encoding')
    c.cover('end')


# ---------------------------------------------------------------- whole documents

class Parsed(Sym):
    """A parsed XML document."""
    def __init__(self, root):
        self.root = root

    def is_none(self):
        return False

    def m_getroot(self):
        return self.root

    def m_iter(self):
        raise Unsupported('all elements of a document')

    def guest_isinstance(self, ip, u):
        us = u if isinstance(u, tuple) else (u,)
        return any(x in (ET.ElementTree, object) for x in us)

    def __bool__(self):
        return True

    __hash__ = Sym.__hash__


class Roots(Kids):
    """The children of an XML document, with their tags."""
    def item(self, k):
        x = Kids.item(self, k)
        if not hasattr(self, 'TAG'):
            self.TAG = fun(self.c, 'TAG', 'i', 'i')
        x.tag = Tag(self.c, self.TAG(ze(k)))
        return x


class File(SOpaque):
    """The name of a file."""
    def is_none(self):
        return False

    def guest_eq(self, o):
        if isinstance(o, str) or o is None:
            return False
        if isinstance(o, File):
            return o is self
        raise Unsupported('comparison of a file name')

    def __eq__(self, o):
        return self.guest_eq(o)

    def __ne__(self, o):
        return Not(self.guest_eq(o))

    __hash__ = Sym.__hash__


def file_name(c, form):
    return File(str, 'name') if form == 'name' else File(pathlib.Path, 'path') if form == 'path' else None


def whole(c):
    w = Scene(c)
    ip = w.ip
    defined = bool(c.choose(2, 'EBML is defined'))
    name = Tag(c, c.fresh('name of the document', 0))
    tag = Tag(c, c.fresh('tag of the root', -1))
    EBML = Tag.code('EBML')
    c.assume(mkb(z3.And(EBML == -1, name.key != EBML)))
    KNOWN = fun(c, 'KNOWN', 'i', 'b')
    c.assume(KNOWN(EBML) == defined)
    c.assume(z3.Not(KNOWN(name.key)))
    hdr, hbytes = Named(), opaque_bytes('HEADER')
    document = SClass(core.Document, dict(__name__=name), 'document')
    headed = []

    def payload(ip_, args, kwargs):
        a = bindargs(core.MasterElement.encodePayload.__func__, args, kwargs)
        c.prove(a['cls'] is document and a['data'] is hdr and a['length'] is None, 'the header of a document of this schema')
        return hbytes
    c.summaries[core.MasterElement.encodePayload.__func__] = payload
    c.summaries[core.Document._createHeaders.__func__] = lambda ip_, a, k: hdr
    w.schema = schema_of(c, [], lambda key: KNOWN(key), document=document)
    frozen = dict(w.schema.attrs)

    as_document = bool(c.choose(2, 'a document'))
    c.assume(mkb((tag.key == name.key) == z3.BoolVal(as_document)))
    form = c.case('form', 'XML element', 'XML document', 'XML name', 'XML stream', 'EBML name', 'EBML path', 'schema name')
    plain = form == 'XML element'
    sl = c.case('sizeLength', *([None] * plain), lambda: c.fresh('sizeLength', 1, 8))
    kw = {} if sl is None else dict(sizeLength=sl)
    unknown, headers = True, True
    if not plain or c.choose(2, 'options given'):
        unknown = kw['unknown'] = c.fresh_bool('unknown allowed')
        headers = kw['headers'] = c.fresh_bool('headers')
    n = c.fresh('children', 0)
    xml = Xml(c, tag, {}, SOpaque(str, 'white space'), kids=[])
    xml.frozen = True
    kids = Roots(w, n, sl, unknown, passed=True)
    xml.kids = kids.seq
    ONE, one = fun(c, 'ONE', 'i'), opaque_bytes('ROOT', 2)
    bad = c.fresh_bool('the root is refused')
    calls = []

    def load(ip_, args, kwargs):
        a = bindargs(IMPORT, args, kwargs)
        x = a['xmlEl']
        if isinstance(x, Xml) and hasattr(x, 'k'):
            c.prove(as_document, 'the children of a document only')
            return kids.load(ip_, args, kwargs)
        if x is not xml:
            raise Unsupported('another element')
        c.prove(not as_document, 'a document is no element')
        c.prove(not calls, 'imported once')
        c.prove(a['schema'] is w.schema, 'with the schema')
        c.prove(mkb(truth(a['unknown']) == truth(unknown)), 'unknown elements are allowed as asked for')
        c.prove(same_opt(a['sizeLength'], sl), 'the length asked for')
        c.prove(sl is None or not HAS_FIXED or a['_fixed'] is True, 'the length is asked for')
        calls.append(x)
        if c.decide(bad.e):
            graise(Refused('root'))
        a['ebmlFile'].m_write(one)
        return one.n
    c.summaries[IMPORT] = load

    source = form[4:] if form[:3] == 'XML' else 'element'
    given = form[5:] if form[:4] == 'EBML' else 'stream'
    src = xml if source == 'element' else Parsed(xml) if source == 'document' else file_name(c, source) if source == 'name' else SOpaque(io.BytesIO, 'XML stream')

    def parse(ip_, x, *parser):
        c.prove(x is src, 'the XML asked for')
        return Parsed(xml)
    c.summaries[ET.parse] = lambda ip_, args, kwargs: parse(ip_, *args, **kwargs)
    target = w.out
    closed = []
    w.out.m_close = lambda: closed.append(1)
    if given != 'stream':
        target = file_name(c, given)
        w.out.head, w.out.ext, w.pre, w.ext0 = rope(b''), 0, rope(b''), 0

    def opener(ip_, f, mode='r', *a, **k):
        c.prove(f is target and given != 'stream', 'the file asked for')
        c.prove(mode in ('wb', 'w+b', 'wb+'), 'a new file')
        return w.out
    c.models[open] = c.models[io.open] = opener
    schema = w.schema
    if form == 'schema name':
        schema = file_name(c, 'name')

    def load_schema(ip_, args, kwargs):
        c.prove(args[0] is schema, 'the schema asked for')
        return w.schema
    c.summaries[core.loadSchema] = load_schema
    kids.starts.append(w.out.pos)
    write = w.out.m_write

    def on_write(x):
        r = write(x)
        if x is hbytes:
            kids.starts[-1] = w.out.pos
        return r
    w.out.m_write = on_write
    got = outcome(lambda: ip.call(util.xml2ebml, [src, target, schema], kw))
    c.prove(all(w.schema.attrs.get(k, UNBOUND) is v for k, v in frozen.items()) and len(w.schema.attrs) == len(frozen), 'the schema is not changed')
    ok = mkb(z3.BoolVal(True) if as_document else KNOWN(tag.key))
    if got[0] == 'exc':
        if isinstance(got[1], Refused):
            c.prove(mkb(z3.Not(kids.fine(n))) if as_document else bad, 'fails only if an element does')
            c.cover('refused')
            return
        c.prove(isinstance(got[1], NameError), 'NameError')
        c.prove(Not(ok), 'only if the root is neither in the schema nor the document')
        c.prove_rope(w.out.head, w.pre, 'nothing is written')
        c.cover('no such root')
        return
    c.prove(ok, 'a root that is neither in the schema nor the document is refused')
    c.prove(kids.fine(n) if as_document else Not(bad), 'an element that is refused is not left out')
    body = kids.upto(0 if sl is None else sl, n) if as_document else one
    has = fun(c, 'HAS', 'b')()
    j = c.fresh('the header', 0)
    c.skolem(ze(j))
    if not hasattr(kids, 'TAG'):
        kids.item(0)
    c.forall(lambda k: z3.Implies(z3.And(z3.Not(has), 0 <= k, k < ze(n)), kids.TAG(k) != EBML))
    c.assume(z3.Implies(has, z3.And(ze(j) < ze(n), kids.TAG(ze(j)) == EBML)))
    if c.decide(z3.And(truth(headers), z3.BoolVal(defined), tag.key != EBML, z3.Not(has))):
        body = cat(hbytes, body)
        c.cover('header added')
    else:
        c.cover('no header added')
    finish(w, got[1], body)
    c.prove(bool(closed) == (given != 'stream'), 'a file that was opened is closed, no other')
    c.cover('document' if as_document else 'element')


def load_xml(c):
    Interp(c)
    w = Scene(c)
    ip = w.ip
    src, schema = SOpaque(str, 'XML'), schema_of(c, [])
    how = c.case('file', 'memory', 'name', 'path', None)
    target = ':memory:' if how == 'memory' else None if how is None else file_name(c, how)
    made, written, loaded = [], [], []
    c.models[io.BytesIO] = lambda ip_, *a: made.append(WStream(c, b'', 0, name='buffer')) or made[-1]
    temp = SOpaque(str, 'temporary file')
    c.summaries[tempfile.mktemp] = lambda ip_, args, kwargs: temp
    data = opaque_bytes('ENCODED')

    def convert(ip_, args, kwargs):
        a = bindargs(util.xml2ebml, args, kwargs)
        c.prove(a['xmlFile'] is src, 'the XML asked for')
        c.prove(a['schema'] is schema, 'the schema asked for')
        c.prove(a['unknown'] is True, 'unknown elements with an ID are allowed')
        c.prove(a['sizeLength'] is None, 'no length of descriptors is asked for')
        c.prove(not written, 'converted once')
        f = a['ebmlFile']
        written.append(f)
        if c.choose(2, 'refused'):
            graise(Refused('the XML'))
        if isinstance(f, WStream):
            f.m_write(data)
        return data.n

    c.summaries[util.xml2ebml] = convert
    result = Named()

    def load(ip_, args, kwargs):
        a = bindargs(core.Schema.load, args, kwargs)
        f = a['fp']
        c.prove(a['self'] is schema and not loaded and len(written) == 1, 'the file is loaded with the schema after it was written')
        if written:
            c.prove(f is written[0], 'the file that was written is loaded')
        if isinstance(f, WStream):
            c.prove(mkb(ze(f.pos) == 0), 'from its start')
            c.prove_rope(f.m_getvalue(), data, 'as it was written')
        loaded.append(f)
        return result
    c.summaries[core.Schema.load] = load
    kw = {} if how is None and c.choose(2, 'default') else dict(ebmlFile=target)
    got = outcome(lambda: ip.call(util.loadXml, [src, schema], kw))
    f = written[0] if written else None
    c.prove(f is target if how in ('name', 'path') else f is temp if how is None else any(f is m for m in made), 'the file asked for')
    if got[0] == 'exc':
        c.prove(isinstance(got[1], Refused) and not loaded, 'fails only if the conversion does')
        c.cover('refused')
        return
    c.prove(got[1] is result, 'the loaded document is returned')
    c.cover('end')


# ---------------------------------------------------------------- values

READS = dict(i='readInt', u='readUInt', f='readFloat', s='readString', U='readUnicode', d='readDate')


def single(c, x):
    """Widening a single to a double and back (IEEE 754): the same number, or a NaN."""
    y = SFloat.F64(ze(x))
    nan = lambda t: z3.And(z3.If(t >= 2 ** 31, t - 2 ** 31, t) > 0x7F800000, t < 2 ** 32)       # noqa: E731
    wide = SFloat(mki(y))
    back = SFloat.F32(y)
    c.assume(z3.And(y >= 0, y < 2 ** 64, z3.Not(SFloat.OVF(y)), back >= 0, back < 2 ** 32, zb(wide.is_nan()) == nan(ze(x)), nan(ze(x)) == nan(back),
                    z3.Implies(z3.Not(nan(ze(x))), back == ze(x)), z3.Implies(nan(back), zb(SFloat(mki(SFloat.F64(back))).is_nan()))))


def reencode(kind):
    def run(c):
        """A value that was read from a payload can be encoded in as many bytes
        (or in the shortest form), and reads back."""
        ip = Interp(c)
        cls = TYPES[kind]
        use(c, *([READS[kind], 'encode' + READS[kind][4:]] if kind in READS else ['encodeBinary'] * (kind in 'bx')))
        if kind in 'sU':
            if kind == 's':
                t = opaque_text('text')
                c.forall(lambda i: z3.Implies(z3.And(i >= 0, i < ze(t.n)), z3.And(t.at(i) >= 32, t.at(i) < 127)))
                p = t.map(lambda e: e, 'bytes')
                c.skolem(t.n)
            else:
                t = V.opaque_utf8('text', nonul=True)
                p = t.utf8
                c.skolem(p.n)
            if c.choose(2, 'NUL'):
                p = rope(cat(p, b'\0', opaque_bytes('rest')))
        else:
            p = opaque_bytes('payload')
            if kind in 'iudf':
                k = c.choose(9, 'size')
                c.assume(p.n == k)
                p = SRope('bytes', [Seg.fun(k, lambda i, p=p: p.at(i))])
        n = p.n
        c.assume(mkb(ze(n) <= MAXPAY))

        def stream(x):
            pre, x = opaque_bytes('before'), rope(x)
            return SStream(SRope('bytes', pre.segs + x.segs + opaque_bytes('after').segs), mki(ze(pre.n)))
        el = lambda: SObj(SClass(cls, dict(name='X', id=0x81), 'X'), {}, 'element')      # noqa: E731
        got = outcome(lambda: ip.call(ip.getattr(el(), 'parse'), [stream(p), n]))
        if got[0] == 'exc':
            c.prove(kind not in 'uibvx', 'readable')
            return
        v = got[1]
        if kind == 'd':
            # known finding: reading rounds the first 808 ns down to an instant that has no encoding
            c.assume(mkb(ze(SDatetime.lift(v).us) * 1000 >= -2 ** 63))
        if kind == 'f' and p.n == 4:
            single(c, V.vec_to_int([p.at(i) for i in range(4)]))
        ln = c.case('length', *([None] * (kind != 'v')), n)
        if ln is not None and kind in 'iud' and ln == 0:
            return
        got = outcome(lambda: ip.call(ip.getattr(SClass(cls, dict(name='X', id=0x81), 'X'), 'encodePayload'), [v], {} if ln is None else dict(length=ln)))
        if got[0] == 'exc':
            c.prove(False, 'it can be encoded (%s)' % type(got[1]).__name__)
            return
        r = rope(got[1].val if isinstance(got[1], SByteArray) else got[1])
        c.prove(True if ln is None else mkb(ze(r.n) == ze(ln)), 'in as many bytes')
        m = r.n if kind not in 'iudf' or isinstance(r.n, int) else c.concretize(r.n, 9)
        back = outcome(lambda: ip.call(ip.getattr(el(), 'parse'), [stream(r), m]))
        if back[0] == 'exc':
            c.prove(False, 'it can be read back (%s)' % type(back[1]).__name__)
            return
        b = back[1]
        if kind in 'bx':
            c.prove_rope(b.val if isinstance(b, SByteArray) else b, v.val if isinstance(v, SByteArray) else v, 'the same value')
        elif kind == 'f' and ln is None:
            z = v.is_zero() if isinstance(v, SFloat) else v == 0
            if c.decide(zb(z)) if not isinstance(z, bool) else z:
                c.prove(b.is_zero() if isinstance(b, SFloat) else b == 0, 'the same value')
            else:
                same_value(c, 'the same value', b, v)
        elif kind == 'f' and ln == 4 and not c.valid(Not(v.is_nan())):
            c.prove(isinstance(b, SFloat) and Or(mkb(ze(b.bits) == ze(v.bits)), And(b.is_nan(), v.is_nan())), 'the same value')
        elif kind != 'v':
            same_value(c, 'the same value', b, v)
        c.cover('end')
    return run


KINDS = [
    Kind('xml', K.check_xml, K.gen_xml, K.dir_xml, n=2000),
    Kind('lengths', K.check_lengths, K.gen_lengths, K.dir_lengths, n=800),
    Kind('foreign', K.check_foreign, None, K.dir_foreign()),
    Kind('overflow', K.check_overflow, None, K.dir_overflow()),
    Kind('header', K.check_header, None, K.dir_header()),
    Kind('root', K.check_root, None, [dict(tag=t) for t in ('Root', 'EBML', 'Nope', 'worldDocument', 'WorldDocument', 'Int', 'ebml', 'UnknownElement')]),
]

PROOFS = [
    Proof('export: ' + NAMES[k], export(k), ['util.toXml'], covers=['end'] + (['child', 'fails'] if k in 'mD' else [])) for k in TYPES] + [
    Proof('import: ' + NAMES[k], leaf_import(k), ['util.xmlElement2ebml'], covers=['end', 'refused']) for k in 'iufsUdbvx'] + [
    Proof('import: not in the schema', rejected, ['util.xmlElement2ebml'], covers=['end']),
    Proof('import: comment', comment, ['util.xmlElement2ebml'], covers=['end']),
    *[Proof('import: master, ' + MASTER_HOW[h], master_import(h), ['util.xmlElement2ebml'], budget=400,
            covers=['end', 'a child is refused', 'does not fit' if h in ('attribute', 'parameter') else 'rewritten'], opts=dict(unroll_while=9)) for h in MASTER_HOW if HAS_FIXED or h != 'hint'],
    Proof('import: a longer hint', longer_hint, [], covers=['end']),
    Proof('loadXml', load_xml, ['util.loadXml'], covers=['end', 'refused']),
    *[Proof('value read, encoded and read again: ' + NAMES[k], reencode(k), ['core.%s.parse' % TYPES[k].__name__] * (k != 'x'), covers=['end']) for k in 'iufsUdbvx'],
    Proof('xml2ebml', whole, ['util.xml2ebml'], budget=400, covers=['no such root', 'header added', 'no header added', 'document', 'element', 'refused']),
]

SHARED = c15.PROOFS + c15.SHARED + shared(c18, 'hexadecimal text', 'base64 text')

PROPERTY = Property(
    'C19', PROOFS + SHARED, KINDS,
    assumptions=['documents whose payload sizes agree with the lengths their schema declares; text that XML can represent (a String holds printable ASCII); '
                 'size-descriptor lengths asked for are 1 to 8, payloads at most 2**56-2 bytes; no element of the schema is called UnknownElement or has the name of the document',
                 'the induction over the depth of the tree that joins the lemmas is on paper: one element exported, its XML imported, the value encoded and read again (for every type), children by contract',
                 'the XML reaches the import as it was exported, or serialised and parsed by ElementTree'],
    trusted=['int, str, float, repr, hex, %-formatting, ast.literal_eval and datetime.fromisoformat are inverse to the texts they make (Python documentation)',
             'struct: a single widened to a double and narrowed again is the same number (IEEE 754)',
             'xml.etree.ElementTree keeps tags, attributes, text and children in order, when serialised and parsed too'],
    not_proved=['dates in the first 808 ns of the 64-bit range (known finding)'])

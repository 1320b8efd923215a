from .base import *
from .enc import *
from .c09 import ENCODES
from pyvc.streams import SOut
from pyvc.interp import GDict, GList
from . import k_encode as K


class Key(Sym):
    """The name or ID of item k."""
    def __init__(self, kind, k):
        self.pytype, self.k = kind, k

    def is_none(self):
        return False

    def __bool__(self):
        raise Unsupported('truth of a name')

    def __eq__(self, o):
        if o is self:
            return True
        if o is None or not isinstance(o, Sym) and self.pytype is str and not isinstance(o, str):
            return False
        raise Unsupported('comparison of names')

    __hash__ = Sym.__hash__


class Table(Sym):
    """elements or elementsByName: has the keys of its type that are known."""
    pytype = dict

    def __init__(self, w, kind):
        self.w, self.kind = w, kind

    def guest_contains(self, ip, k):
        if not isinstance(k, Key):
            raise Unsupported('lookup of something else')
        return k.pytype is self.kind and self.w.known(k)

    def guest_getitem(self, ip, k):
        if not self.guest_contains(ip, k):
            graise(KeyError('name'))
        return ElClass(self.w, k)

    def m_get(self, k, d=None):
        return ElClass(self.w, k) if self.guest_contains(None, k) else d

    def __bool__(self):
        raise Unsupported('truth of the table')


class ElClass(Sym):
    """The class the schema has for the name of item k."""
    pytype = type

    def __init__(self, w, key):
        self.w, self.key = w, key

    def is_none(self):
        return False

    def guest_getattr(self, ip, name):
        if name == 'encode':
            return EncodeOf(self)
        raise Unsupported('attribute %s of the class of an item' % name)

    __hash__ = Sym.__hash__


class EncodeOf(Sym):
    def __init__(self, cls):
        self.cls = cls

    def guest_call(self, ip, args, kwargs):
        w = self.cls.w
        if len(args) != 1 or kwargs:
            raise Unsupported('options for an item')
        v = args[0]
        if not isinstance(v, Val) or not hasattr(v, 'k'):
            raise Unsupported('encoding something else')
        w.c.prove(mkb(ze(v.k) == ze(self.cls.key.k)), "an item's value with its own name")
        return w.its.encode(v.k)


class PairsDict(Sym):
    """A dictionary of n items."""
    pytype = dict

    def __init__(self, seq):
        self.seq = seq

    @property
    def n(self):
        return self.seq.n

    def m_items(self):
        return self.seq

    def guest_len(self, ip):
        return self.seq.n

    def guest_iter(self, ip):
        return SSeq(self.seq.n, lambda k: self.seq.item(k)[0], 'keys')

    m_keys = lambda self: self.guest_iter(None)

    def m_values(self):
        return SSeq(self.seq.n, lambda k: self.seq.item(k)[1], 'values')

    def guest_getitem(self, ip, key):
        if not isinstance(key, Key):
            raise Unsupported('lookup of something else')
        return self.seq.item(key.k)[1]

    def __bool__(self):
        return bool(self.seq)

    __hash__ = Sym.__hash__


class PairWorld:
    """n pairs of a name (or ID) and a value, and a schema."""
    def __init__(self, c, n, keys):
        self.c = c
        self.its = Items(c, n)
        self.NEW, self.VBAD = fun(c, 'UNDEFINED', 'i', 'b'), fun(c, 'VALUEBAD', 'i', 'b')
        its, encode = self.its, self.its.encode
        step = its.step

        def both(k):
            for j in (ze(k) - 1, ze(k)):
                c.assume(its.BAD(j) == z3.Or(self.NEW(j), self.VBAD(j)))
            return step(k)
        its.step = both
        self.keys = keys
        self.schema = SObj(core.Schema, dict(elements=Table(self, int), elementsByName=Table(self, str)), 'schema')
        known(self, self.schema)
        self.pairs = lambda t=list: SSeq(n, lambda k: (Key(keys, k), Val('value', k=k)), 'pairs', t)

    def known(self, key):
        self.its.step(key.k)
        return not self.c.decide(self.NEW(ze(key.k)))

    def finish(self, got, label):
        c = self.c
        if got[0] == 'exc' and not isinstance(got[1], Refused):
            c.prove(isinstance(got[1], TypeError), label + ': TypeError for a name that is not in the schema')
            c.prove(mkb(z3.Not(self.its.fine(self.its.n))), label + ': raises only if an item is refused')
            c.cover('unknown name')
            return
        self.its.finish(got, label)


def payload(form):
    def run(c):
        ip = Interp(c)
        n = c.fresh('n', 0)
        w = PairWorld(c, n, c.case('keys', lambda: str, lambda: int))
        cls = element_class(c, 'm', schema=w.schema)
        if form == 'dict':
            data = PairsDict(w.pairs())
        else:
            data = w.pairs(list if form == 'list' else tuple)
        kw = c.case('length', {}, lambda: dict(length=None), lambda: dict(length=c.fresh('length', 0)))
        got = outcome(lambda: ip.call(ip.getattr(cls, 'encodePayload'), [data], kw))
        w.finish(got, 'payload')
    return run


def nothing(c):
    ip = Interp(c)
    cls = element_class(c, 'm', schema=SObj(core.Schema, {}, 'schema'))
    data = c.case('data', None, lambda: Val('something', (), (list, tuple, dict)))
    got = outcome(lambda: ip.call(ip.getattr(cls, 'encodePayload'), [data]))
    if data is None:
        same(c, 'None gives an empty master', got, ('ok', b''))
    else:
        c.prove(got[0] == 'exc' and isinstance(got[1], TypeError), 'anything else is refused')
    c.cover('end')


def document(form):
    def run(c):
        ip = Interp(c)
        n = c.fresh('n', 0)
        its = Items(c, n)
        PAIR = fun(c, 'PAIR', 'i', 'b')
        cls = SClass(core.Document, dict(id=None, name=SOpaque(str, 'name'), schema=SOpaque(object, 'schema')), 'Doc')
        headers = c.case('headers', 'default', False, True)
        hdr, hbytes = Val('headers', (dict,)), opaque_bytes('HEADER')
        whole = opaque_bytes('WHOLE')
        bad = c.fresh_bool('refused')

        def item(k):
            if c.decide(PAIR(ze(k))):
                return (Key(str, k), Val('value', k=k))
            return Val('dictionary', (dict,), (list, tuple), k=k)
        if form == 'list':
            data = SSeq(n, item, 'data', list)
        else:
            data = c.case('data', None, lambda: Val('dictionary', (dict,), (list, tuple)), lambda: SSeq(n, lambda k: (Key(str, k), Val('value', k=k)), 'pairs', tuple))

        def pay(d, length):
            if length is not None:
                raise Unsupported('length of the payload')
            if d is hdr:
                return hbytes
            if form != 'list' and d is data:
                if decide(c, bad):
                    graise(Refused('item'))
                return whole
            if isinstance(d, GList):
                s = d.seq()
                if not isinstance(s, list) or len(s) != 1 or not isinstance(s[0], tuple):
                    raise Unsupported('encodePayload of something else')
                d = s[0]
                key, v = d
                c.prove(mkb(ze(key.k) == ze(v.k)) if isinstance(key, Key) and isinstance(v, Val) else False, 'a pair is kept together')
                return its.encode(key.k)
            if isinstance(d, tuple) and len(d) == 1 and isinstance(d[0], tuple) and isinstance(d[0][0], Key):
                return its.encode(d[0][0].k)
            if isinstance(d, Val) and hasattr(d, 'k') and d.name == 'dictionary':
                return its.encode(d.k)
            if isinstance(d, tuple):
                c.prove(False, 'a pair is not a list of pairs')
                raise PathAbort()
            raise Unsupported('encodePayload of something else')
        on_payload(c, pay)
        c.summaries[core.Document._createHeaders.__func__] = lambda ip, a, k: hdr
        pre = opaque_bytes('before')
        out = SOut('bytes', pre)
        kw = {} if headers == 'default' else dict(headers=headers)
        got = outcome(lambda: ip.call(ip.getattr(cls, 'encode'), [out, data], kw))
        prefix = cat(pre, hbytes) if headers is True else pre
        if form == 'list':
            its.finish(got, 'document', lambda r: out.data, prefix)
            return
        if got[0] == 'exc':
            c.prove(isinstance(got[1], Refused), 'raises what the payload raises')
            c.cover('an item is refused')
            return
        c.prove(mkb(z3.Not(bad.e)), 'an item that is refused is not skipped')
        c.prove_rope(out.data, cat(prefix, whole), 'header on request, then the data')
        c.cover('all items')
    return run


HEADER_NAMES = ('EBMLVersion', 'EBMLReadVersion', 'DocType', 'DocTypeVersion', 'DocTypeReadVersion')


class HeaderSchema(Sym):
    """A schema of which the header elements matter."""
    def __init__(self, c):
        self.c = c
        self.state = {}

    def has(self, k):
        if not isinstance(k, str) or k not in HEADER_NAMES + ('EBML',):
            raise Unsupported('another element of the header')
        if k not in self.state:
            self.state[k] = c_case(self.c, k, 'undefined', 'defined') == 'defined'
        return self.state[k]

    def guest_contains(self, ip, k):
        return self.has(k)

    def guest_getitem(self, ip, k):
        if not self.has(k):
            graise(KeyError(k))
        return Definition(self, k)

    def m_get(self, k, d=None):
        return Definition(self, k) if self.has(k) else d

    def m__getInfo(self, eid, dtype):
        if not isinstance(eid, DefId):
            raise Unsupported('_getInfo')
        want = str if eid.k == 'DocType' else int
        if dtype is not want:
            raise Unsupported('type of a default')
        return self.default(eid.k)

    def default(self, k):
        if ('default', k) not in self.state:
            self.state['default', k] = c_case(self.c, 'default ' + k, lambda: Val('default of ' + k), None)
        return self.state['default', k]

    def is_none(self):
        return False


def c_case(c, name, *alts):
    return c.case(name, *alts)


class Definition(Sym):
    def __init__(self, s, k):
        self.s, self.k = s, k

    def is_none(self):
        return False

    def guest_getattr(self, ip, name):
        if name == 'id':
            return DefId(self.k)
        raise Unsupported('attribute %s of a definition' % name)


class DefId(Sym):
    pytype = int

    def __init__(self, k):
        self.k = k


def default_header(c):
    ip = Interp(c)
    s = HeaderSchema(c)
    cls = SClass(core.Document, dict(schema=s, name=SOpaque(str, 'name')), 'Doc')
    got = outcome(lambda: ip.call(ip.getattr(cls, '_createHeaders'), []))
    if got[0] == 'exc':
        c.prove(False, 'the header is made')
        return
    d = got[1]
    items = d.items if isinstance(d, GDict) else list(d.items()) if isinstance(d, dict) else None
    if items is None:
        raise Unsupported('the header')
    if not s.has('EBML'):
        c.prove(not items, 'no header if the schema defines none')
        c.cover('none')
        return
    c.prove(len(items) == 1 and items[0][0] == 'EBML', 'one header')
    if len(items) != 1:
        return
    h = items[0][1]
    items = h.items if isinstance(h, GDict) else list(h.items()) if isinstance(h, dict) else None
    if items is None:
        raise Unsupported('the header')
    want = [(k, s.default(k)) for k in HEADER_NAMES if s.has(k) and s.default(k) is not None]
    c.prove(len(items) == len(want) and all(any(a == k and b is v for a, b in items) for k, v in want), 'the defaults of the schema')
    c.cover('header')


def info(c):
    """_getInfo: the default, converted, or None."""
    ip = Interp(c)
    dtype = c.case('dtype', lambda: int, lambda: str)
    default = SOpaque(str, 'default')
    has = c.case('defined', 'nothing', 'no default', 'default')
    eid = c.fresh('id', 0)
    conv = Val('converted')
    fails = c.choose(2, 'not convertible')

    def convert(ip, *a):
        if len(a) != 1 or a[0] is not default:
            raise Unsupported('conversion of something else')
        if fails:
            graise(ValueError('not convertible'))
        return conv
    c.models[dtype] = convert
    table = GDict([(eid, GDict([('name', SOpaque(str, 'name'))] + ([('default', default)] if has == 'default' else [])))] if has != 'nothing' else [])
    schema = known(None, SObj(core.Schema, dict(elementInfo=table), 'schema'))
    got = outcome(lambda: ip.call(ip.getattr(schema, '_getInfo'), [eid, dtype]))
    c.prove(got[0] == 'ok' and (got[1] is conv if has == 'default' and not fails else got[1] is None), 'the default of the schema or None')
    c.cover('end')


def by_schema(c):
    ip = Interp(c)
    doc = SClass(core.Document, dict(name=SOpaque(str, 'name')), 'Doc')
    schema = known(None, SObj(core.Schema, dict(document=doc), 'schema'))
    data = Val('data')
    headers = c.case('headers', 'default', False, True)
    text = opaque_bytes('DOCUMENT')
    bad = c.choose(2, 'refused')

    def enc(ip, args, kwargs):
        a = bindargs(core.Document.encode.__func__, args, kwargs)
        if a['data'] is not data or a.get('kwargs'):
            raise Unsupported('Document.encode of something else')
        c.prove(a['headers'] is (False if headers == 'default' else headers), 'headers on request')
        if not isinstance(a['stream'], SOut):
            raise Unsupported('stream')
        if bad:
            graise(Refused('an item'))
        a['stream'].m_write(text)
        return None
    c.summaries[core.Document.encode.__func__] = enc
    made = []

    def bio(ip, *a):
        if a:
            raise Unsupported('BytesIO with data')
        made.append(SOut('bytes'))
        return made[-1]
    c.models[io.BytesIO] = bio
    kw = {} if headers == 'default' else dict(headers=headers)
    how = c.case('how', 'encode', 'encodes')
    pre = opaque_bytes('before')
    out = SOut('bytes', pre)
    got = outcome(lambda: ip.call(ip.getattr(schema, how), [out, data] if how == 'encode' else [data], kw))
    if bad:
        c.prove(got[0] == 'exc' and isinstance(got[1], Refused), 'raises what encoding raises')
        c.cover('refused')
        return
    if got[0] == 'exc':
        c.prove(False, how + ' returns')
        return
    if how == 'encode':
        c.prove(got[1] is out, 'returns the stream')
        c.prove_rope(out.data, cat(pre, text), 'the document is written to the stream')
        c.cover('encode')
    else:
        if not isinstance(got[1], (bytes, bytearray, SRope, SByteArray)):
            c.prove(False, 'returns bytes')
            return
        c.prove_rope(got[1], text, 'the document')
        c.cover('encodes')


KINDS = [
    Kind('master', K.check_master, K.gen_master, K.dir_master, n=2000),
    Kind('document', K.check_document, K.gen_document, K.dir_document, n=1500),
    Kind('missing', K.check_missing, K.gen_missing, (), n=800),
]

PROPERTY = Property('C10', [
    Proof('MasterElement.encodePayload: ' + f, payload(f), ['core.MasterElement.encodePayload', 'core.Schema.__contains__', 'core.Schema.__getitem__'],
          covers=['all items', 'an item is refused', 'unknown name']) for f in ('dict', 'list', 'tuple')
] + [
    Proof('MasterElement.encodePayload: None', nothing, ['core.MasterElement.encodePayload'], covers=['end']),
    Proof('Document.encode: list', document('list'), ['core.Document.encode'], covers=['all items', 'an item is refused']),
    Proof('Document.encode: dictionary, tuple, None', document('other'), ['core.Document.encode'], covers=['all items', 'an item is refused']),
    Proof('Document._createHeaders', default_header, ['core.Document._createHeaders'], covers=['none', 'header']),
    Proof('Schema._getInfo', info, ['core.Schema._getInfo'], covers=['end']),
    Proof('Schema.encode, Schema.encodes', by_schema, ['core.Schema.encode', 'core.Schema.encodes'], covers=['encode', 'encodes', 'refused']),
], KINDS)

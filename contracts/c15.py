"""Encoding, then parsing. By induction over the depth of the tree: one element
(its header and payload are found again, with the class and the value that were
encoded) and one level (the elements encoded one after another are found again,
all, in order, and nothing after them). The contracts composed here are proved by
the obligations shared with C01 to C14."""
from .base import *
from .enc import *
from .tree import AEl, Tree, wander, SchemaWorld
from . import c01, c02, c03, c04, c05, c06, c07, c08, c10, c11, c12, c14, c24
from pyvc.models import Cell
from . import k_parse as K

KIND_NAMES = dict(i='integer', u='unsigned', f='float', s='string', U='Unicode', d='date', b='binary', v='void', m='master')


class Decoded(Sym):
    """The decoding of one payload."""
    def is_none(self):
        return False

    def __bool__(self):
        return V.CTX.decide(z3.Bool('the value is true'))

    def __eq__(self, o):
        if o is None:
            return False
        if o is self:
            return True
        raise Unsupported('comparison of decoded values')

    def __ne__(self, o):
        return not self == o

    def ident_eq(self, o):
        return o is self

    def same_as(self, ip, o):
        return o is self

    __hash__ = Sym.__hash__


class Header:
    """ID and size descriptor by contract (C01, C02): byte strings from which, wherever
    they stand, the readers get back the ID and the size and their lengths."""
    def __init__(self, c, eid):
        self.c, self.eid, self.n, self.ls, self.stream = c, eid, None, None, None
        self.ids, self.sizes = opaque_bytes('ID', 1), opaque_bytes('SIZE', 1)
        c.assume(self.ids.n <= 4)
        c.assume(self.sizes.n <= 8)
        self.refused = None
        for fn, f in ((encoding.encodeId, self.encode_id), (encoding.encodeSize, self.encode_size),
                      (decoding.readElementID, self.read_id), (decoding.readElementSize, self.read_size)):
            c.summaries[fn] = lambda ip, args, kwargs, fn=fn, f=f: f(**bindargs(fn, args, kwargs))

    def encode_id(self, eid, length=None):
        if length is not None:
            raise Unsupported('length of an ID')
        self.c.prove(same_opt(eid, self.eid), "the element's own ID is encoded")
        return self.ids

    def encode_size(self, val, length=1):
        c = self.c
        c.prove(same_opt(val, self.n), 'the declared size is that of the payload')
        if length is None or isint(length) and c.valid(mkb(ze(length) == -1)):
            return self.sizes
        c.prove(same_opt(length, self.ls), 'the descriptor has the length asked for')
        if self.refused is None:
            self.refused = bool(c.fresh_bool('size refused'))
        if self.refused:
            graise(Refused('the size'))
        c.assume(mkb(ze(self.sizes.n) == ze(length)))
        return self.sizes

    def read(self, stream, at, what, want):
        c = self.c
        if stream is not self.stream:
            raise Unsupported('header of another stream')
        n = want.n
        ok = c.valid(mkb(ze(stream.pos) == ze(at)))
        c.prove(ok, 'the %s is read where it was written' % what)
        if not ok:
            raise PathAbort()
        c.prove_rope(stream.content.slice(at, at + n), want, 'the %s that was written is read' % what)
        stream._set('pos', mki(ze(at) + ze(n)))
        return n

    def read_id(self, stream):
        return self.eid, self.read(stream, self.p, 'ID', self.ids)

    def read_size(self, stream):
        n = self.read(stream, mki(ze(self.p) + ze(self.ids.n)), 'size', self.sizes)
        return self.n, n


def one(kind):
    def run(c):
        ip = Interp(c)
        c.uniform = True
        w = SchemaWorld(c)
        eid = c.fresh('eid', 0x80, 2 ** 29 - 1)
        head = Header(c, eid)
        early = c.case('precache', False, True) if kind != 'm' else False
        cls = element_class(c, kind, schema=w.schema, id=eid, precache=early)
        c.assume(w.IN(ze(eid)))
        w.elements.memo.append((ze(eid), cls))
        value = Val('value', (dict,) if kind == 'm' else ())
        ls = c.case('lengthSize', None, lambda: c.fresh('lengthSize', 1, 8))
        pay = opaque_bytes('payload')
        c.assume(pay.n <= MAXPAY)
        fixed = cls.attrs['length']
        if fixed is not None:
            c.assume(mkb(ze(pay.n) == ze(fixed)))        # C09: else it is refused
        seen = []

        def payload(data, ln):
            if data is not value:
                raise Unsupported('encodePayload of something else')
            seen.append(1)
            return pay
        on_payload(c, payload)
        head.n, head.ls = pay.n, ls
        got = outcome(lambda: ip.call(ip.getattr(cls, 'encode'), [value], {} if ls is None else dict(lengthSize=ls)))
        if got[0] == 'exc':
            c.prove(ls is not None, 'refused only if a descriptor length was asked for')
            c.cover('refused')
            return
        b = got[1]
        if not isinstance(b, (bytes, bytearray, SRope, SByteArray)):
            c.prove(False, 'a byte string')
            return
        b = rope(b)
        c.prove(mkb(ze(b.n) >= 2), 'at least two bytes')
        pre, post = opaque_bytes('before'), opaque_bytes('after')
        p = mki(ze(pre.n))
        stream = SStream(SRope('bytes', pre.segs + b.segs + post.segs), p, 'stream')
        po = mki(ze(pre.n) + ze(b.n) - ze(pay.n))
        head.stream, head.p = stream, p
        dec = Decoded()
        fn = fn_of(BASES[kind], 'parse')

        def parse(ip_, args, kwargs):
            a = bindargs(fn, args, kwargs)
            if a['stream'] is not stream:
                raise Unsupported('payload of another stream')
            ok = isint(a['size']) and c.valid(mkb(z3.And(ze(stream.pos) == ze(po), ze(a['size']) == ze(pay.n))))
            c.prove(ok, 'exactly the payload is decoded')
            if not ok:
                raise PathAbort()
            c.prove_rope(stream.content.slice(po, po + pay.n), pay, 'the payload that was encoded is decoded')
            wander(c, stream)
            return dec
        if kind not in ('v', 'm'):
            c.summaries[fn] = parse
        parent = known(None, SObj(SClass(core.MasterElement, dict(schema=w.schema, id=1), 'Parent'), {}, 'parent'))
        got = outcome(lambda: ip.call(fn_of(core.MasterElement, 'parseElement'), [parent, stream]))
        if got[0] == 'exc':
            c.prove(False, 'parsing it raises %s' % type(got[1]).__name__)
            return
        r = got[1]
        if not (isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], SObj)):
            c.prove(False, 'an element and the next position')
            return
        el, nxt = r
        c.prove(el.cls is cls, 'the class it was encoded with')
        same_value(c, 'its ID', ip.getattr(el, 'id'), eid)
        same_value(c, 'its offset', ip.getattr(el, 'offset'), p)
        same_value(c, 'its payload starts after the header', ip.getattr(el, 'payloadOffset'), po)
        same_value(c, 'its size', ip.getattr(el, 'size'), pay.n)
        same_value(c, 'the next element starts after it', nxt, p + b.n)
        c.cover('read back')
        if kind in ('v', 'm'):
            return
        wander(c, stream)
        got = outcome(lambda: ip.getattr(el, 'value'))
        c.prove(got[0] == 'ok', 'its value is readable')
        if got[0] == 'ok':
            c.prove(got[1] is dec, 'its value is the decoding of its payload')
            c.cover('value')
    return run


def level(kind):
    """A payload (or document) made of n encodings, one after another."""
    def run(c):
        ip = Interp(c)
        c.uniform = True
        n = c.fresh('n', 0)
        CL = fun(c, 'END OF ITEM', 'i', 'i')
        po = c.fresh('payload offset', 0)
        stream = SStream(opaque_bytes('content'), c.fresh('pos', 0), 'stream')
        schema = known(None, SObj(core.Schema, {}, 'schema'))
        t = Tree(c, stream, schema)
        t.install()
        end = mki(po.e + CL(n.e))
        c.assume(CL(Z(0)) == 0)
        c.assume(mkb(end.e == t.N) if kind == 'Document' else mkb(end.e <= t.N))
        c.skolem(n.e)

        def item(j):
            """Item j: one element (previous lemma), of at least two bytes."""
            p = po.e + CL(j)
            return z3.Implies(z3.And(0 <= j, j < n.e),
                              z3.And(CL(j + 1) >= CL(j) + 2, z3.Not(t.END(p)), z3.Not(t.BADH(p)), z3.Not(t.BADV(p)),
                                     t.next(p) == po.e + CL(j + 1), CL(j) < CL(n.e)))        # last: lemma below
        c.forall(item)

        def at(k):
            k = ze(k)
            for j in (k - 1, k):
                c.skolem(j)
                c.assume(item(j))
                c.assume(t.facts(po.e + CL(j)))
            return mki(po.e + CL(k))

        def ghosts(loc, sh, old, seq):
            if sh[0] == 'int':
                return [('where item k is', at), ('where item k-1 is', lambda k: at(ze(k) - 1)),
                        ('the bytes before item k', lambda k: mki(ze(at(k)) - po.e)), ('the bytes from item k', lambda k: mki(po.e + CL(n.e) - ze(at(k))))]
            return []
        c.ghosts.append(ghosts)
        c.history.append(('all items or fewer', lambda k: k <= n))
        at(0)
        at(n)
        attrs = dict(stream=stream, offset=c.fresh('offset', 0), payloadOffset=po, _value=None, _size=mki(CL(n.e)))
        base = core.MasterElement if kind == 'Master' else core.Document
        if kind == 'Document':
            attrs['_size'] = mki(t.N)
        el = known(None, SObj(SClass(base, dict(id=c.fresh('id', 0), schema=schema, name=SOpaque(str, 'name')), 'Sub'), attrs, 'el'))
        y = Cell(0)

        def handler(v):
            k = y.get()
            ok = isinstance(v, AEl) and v.t is t
            c.prove(ok, 'elements')
            if not ok:
                raise PathAbort()
            at(k)
            c.prove(mkb(z3.And(ze(k) >= 0, ze(k) < n.e)), 'no more than were encoded')
            c.prove(mkb(ze(v.p) == ze(at(k))), 'element k is the one encoded as item k')
            y.set(k + 1)
            wander(c, stream)
            c.cover('yields')
        g = ip.call(ip.getattr(el, '__iter__'), [])
        if not isinstance(g, SGen):
            g = ip.iterate(g)
        if not isinstance(g, SGen):
            raise Unsupported('__iter__ is not a generator')
        got = outcome(lambda: ip.run_gen(g, handler))
        c.prove(got[0] == 'ok', 'reading them raises nothing')
        k = y.get()
        at(k)
        c.prove(mkb(ze(k) == n.e), 'as many as were encoded')
        c.cover('ends')
    return run


def monotonic(c):
    """Items of at least two bytes: item j starts before the end of the last."""
    Interp(c)
    CL = fun(c, 'END OF ITEM', 'i', 'i')
    n, j = c.fresh('n', 0), c.fresh('j', 0)
    c.assume(j < n)
    c.assume(CL(j.e + 1) >= CL(j.e) + 2)
    c.assume(z3.Implies(j.e + 1 < n.e, CL(j.e + 1) < CL(n.e)))       # hypothesis (downwards from n)
    c.prove(mkb(CL(j.e) < CL(n.e)), 'step')
    c.cover('end')


KINDS = [
    Kind('roundtrip', K.check_roundtrip, K.gen_roundtrip, K.dir_roundtrip, n=2500),
]

def shared(m, *words):
    return [x for x in m.PROPERTY.proofs if any(w in x.name for w in words)]


PROOFS = [Proof('one element: ' + KIND_NAMES[k], one(k), ['core.Element.encode', 'core.MasterElement.parseElement'] + ['core.MasterElement.encode'] * (k == 'm'),
                covers=['refused', 'read back'] + ['value'] * (k not in 'vm')) for k in BASES] + [
    Proof('one level: master', level('Master'), ['core.MasterElement.__iter__'], covers=['yields', 'ends']),
    Proof('one level: document', level('Document'), ['core.Document.__iter__'], covers=['yields', 'ends']),
    Proof('lemma: items end before the last one does', monotonic, covers=['end']),
]

SHARED = shared(c01, 'getLength', 'encodeSize', 'decodeIntLength', 'readElementSize', 'round trip') + \
    shared(c02, 'encodeId', 'decodeIDLength', 'readElementID', 'round trip') + \
    [x for m in (c03, c04, c05, c06, c07, c08) for x in m.PROPERTY.proofs if 'not a number' not in x.name and 'each length' not in x.name and 'wrong type' not in x.name] + \
    shared(c10, 'MasterElement.encodePayload', 'Document.encode', 'Schema.encode') + \
    [c12.VALUE, c12.LENGTH, c14.LEAF] + shared(c24, 'opening and closing: BytesIO')

PROPERTY = Property(
    'C15', PROOFS + SHARED, KINDS,
    assumptions=['payloads of at most 2**56-2 bytes, declared sizes (unknown sizes: C13); the encoded root elements are not themselves an EBML header',
                 'the induction over the depth of the tree that joins the lemmas is on paper: one element (for every element), one level (for every master)'])

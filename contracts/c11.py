from .base import *
from .tree import *
from . import k_parse as K


def parse_element(c):
    ip = Interp(c)
    stream = SStream(opaque_bytes('content'), c.fresh('pos', 0), 'stream',
                     pytype=c.case('stream', lambda: io.BufferedReader, lambda: io.BytesIO))
    w = SchemaWorld(c)
    h = Headers(c, stream)
    h.install()
    P = Parsers(c, stream)
    P.install()
    MSZ, MERR = fun(c, 'MEASURED', 'i', 'i'), fun(c, 'MEASURE_ERROR', 'i', 'b')

    def measured(o):
        q = ze(o.attrs['payloadOffset'])
        if c.decide(MERR(q)):
            return None
        c.assume(MSZ(q) >= 0)
        return mki(MSZ(q))
    size_contract(c, measured)
    LERR = fun(c, 'CHILDREN_ERROR', 'i', 'b')

    def children(ip, args, kwargs):
        o = args[0]
        wander(c, stream)
        if c.decide(LERR(ze(o.attrs['payloadOffset']))):
            graise(DecodeError('a child'))
        v = PVal('Master', o.attrs['payloadOffset'], 0)
        ip.setattr(o, '_value', v)
        return v
    c.summaries[MVALUE] = children

    p = stream.pos
    parent = known(w, SObj(SClass(c.case('parent', lambda: core.MasterElement, lambda: core.Document),
                                  dict(schema=w.schema, id=c.fresh('parent_id', 0), name=SOpaque(str, 'pname')), 'Parent'), dict(
        stream=stream, offset=c.fresh('poffset', 0), payloadOffset=c.fresh('ppo', 0), _value=None), 'parent'))
    nocache = c.case('nocache', None, False, True)
    args = [stream] if nocache is None else [stream, nocache]
    got = outcome(lambda: ip.call(ip.getattr(parent, 'parseElement'), args))

    # ------------------------------------------------------------ contract
    N, P0 = h.N, ze(p)
    q = P0 + h.IDL(P0)
    over = z3.Or(P0 >= N, z3.And(z3.Not(h.BADID(P0)), q >= N))
    if got[0] == 'exc':
        e = got[1]
        if isinstance(e, TypeError) and 'ord()' in str(e):
            c.prove(mkb(over), 'reports the end of the data only there')
            c.cover('end of data')
        elif isinstance(e, HeaderError):
            c.prove(mkb(z3.Or(h.BADID(P0), q + h.SZL(q) > N, z3.And(h.SZU(q), MERR(q + h.SZL(q))))), 'refuses only a bad header')
            c.cover('bad header')
        elif isinstance(e, DecodeError):
            c.prove(nocache is not True, 'without caching no value is read')
            c.cover('bad value')
        else:
            # only an unknown size on something that is not a master
            c.prove(mkb(z3.And(h.SZU(q), z3.Or(z3.Not(w.IN(h.IDV(P0))), z3.BoolVal(bool(w.elements.memo) and w.elements.memo[0][1].kind != 'Master')))),
                    'refuses only an unknown size where none is allowed')
            c.cover('refused')
        return
    c.prove(mkb(z3.And(z3.Not(over), z3.Not(h.BADID(P0)))), 'there is a header')
    r = got[1]
    if not isinstance(r, tuple) or len(r) != 2 or not isinstance(r[0], SObj):
        c.prove(False, 'an element and the next position')
        return
    el, nxt = r
    c.prove(mkb(ze(nxt) >= P0 + 2), 'an element takes at least two bytes')
    if c.decide(q + h.SZL(q) > N):
        c.cover('cut header')      # the data end inside the header: nothing more is specified
        return
    eid = h.IDV(P0)
    cls = next((k for e, k in w.elements.memo if e.get_id() == eid.get_id() or c.valid(e == eid)), None)
    if c.valid(w.IN(eid)):
        c.prove(cls is not None and el.cls is cls, 'the class the schema defines for the ID')
        c.cover('known ID')
    else:
        c.prove(mkb(z3.Not(w.IN(eid))), 'unknown only if the schema has no such ID')
        c.prove(el.cls is core.UnknownElement, 'an unknown element')
        c.prove(ip.getattr(el, 'schema') is w.schema, 'with its schema')
        c.cover('unknown ID')
    same_value(c, 'its ID', ip.getattr(el, 'id'), mki(eid))
    same_value(c, 'its offset', ip.getattr(el, 'offset'), p)
    po = mki(q + h.SZL(q))
    same_value(c, 'payload offset', ip.getattr(el, 'payloadOffset'), po)
    c.prove(ip.getattr(el, 'stream') is stream, 'its stream')
    unsized = c.decide(h.SZU(q))
    if unsized and not (cls is not None and cls.kind == 'Master'):
        c.prove(False, 'an unknown size is refused where none is allowed')
        return
    if not unsized:
        c.prove('_size' in el.attrs if cls is not None and cls.kind == 'Master' else True, 'the declared size is kept')
        c.cover('sized')
    size = mki(MSZ(ze(po))) if unsized else mki(h.SZV(q))
    same_value(c, 'its size', ip.getattr(el, 'size'), size)
    same_value(c, 'the next position is the end of the payload', nxt, po + size)
    v = el.attrs.get('_value', UNBOUND)
    if v is UNBOUND:
        raise Unsupported('value kept elsewhere')
    if v is not None and cls is None or cls is not None and cls.kind == 'Void' and v is not None:
        c.prove(isinstance(v, (bytes, bytearray, SRope, SByteArray)), 'a value read early is that of the payload')
    elif v is not None and cls.kind == 'Binary':
        c.prove(isinstance(v, (bytes, bytearray, SRope, SByteArray)), 'a value read early is that of the payload (type)')
        c.prove_rope(v, stream.content.slice(po, po + size), 'a value read early is that of the payload')
    elif v is not None and cls.kind == 'Master':
        c.prove(isinstance(v, PVal) and v.kind == 'Master' and c.valid(mkb(ze(v.pos) == ze(po))), 'a value read early is that of the payload')
    elif v is not None:
        c.prove(isinstance(v, PVal) and v.same_as(ip, P.value(cls.kind, po, size)), 'a value read early is that of the payload')
        c.cover('read early')
    if unsized:
        c.cover('unsized')


def element(c, w, stream, P):
    """Any element of any kind, in any state its methods may leave it in."""
    kind = c.case('kind', *(KINDS_ + ['Unknown', 'Unsized', 'Document']))
    o, hl, n = c.fresh('offset', 0), c.fresh('header', 0), c.fresh('size', 0)
    po = o + hl
    attrs = dict(stream=stream, offset=o, payloadOffset=po, _value=None)
    base = {'Unknown': core.UnknownElement, 'Unsized': core.MasterElement, 'Document': core.Document}.get(kind) or BASES[kind]
    if kind in ('Master', 'Document'):
        attrs['_size'] = n
    elif kind != 'Unsized':
        attrs['size'] = n
    cls = SClass(base, dict(id=c.fresh('id', 0), schema=w.schema, name=SOpaque(str, 'name')), kind + 'Sub')
    el = known(w, SObj(cls, attrs, 'el'))
    return kind, el, o, po, n


def raw(c):
    ip = Interp(c)
    stream = SStream(opaque_bytes('content'), c.fresh('pos', 0), 'stream')
    w = SchemaWorld(c)
    kind, el, o, po, n = element(c, w, stream, None)
    size_contract(c, lambda e: n)
    which = c.case('which', 'getRaw', 'getRawValue')
    got = outcome(lambda: ip.call(ip.getattr(el, which), []))
    if got[0] == 'exc':
        c.prove(False, '%s returns' % which)
        return
    lo = o if which == 'getRaw' else po
    want = stream.content.slice(lo, po + n)
    r = got[1]
    if not isinstance(r, (bytes, bytearray, SRope, SByteArray)):
        c.prove(False, '%s: bytes' % which)
        return
    c.prove_rope(r, want, '%s: exactly the bytes of the %s' % (which, 'element' if which == 'getRaw' else 'payload'))
    for a, v in (('offset', o), ('payloadOffset', po)):
        same_value(c, '%s unchanged' % a, ip.getattr(el, a), v)
    same_value(c, 'size unchanged', ip.getattr(el, 'size'), n)
    c.cover(which)
    c.cover(kind)


KINDS = [
    Kind('parse', K.check_parse, K.gen_parse, K.dir_parse, n=2500),
    Kind('walk', K.check_walk, K.gen_walk, K.dir_walk, n=1000),
]

PARSE = Proof('parseElement', parse_element, ['core.MasterElement.parseElement', 'core.Element.__init__', 'core.UnknownElement.__init__',
                                              'core.MasterElement.parse'],
              covers=['end of data', 'cut header', 'bad header', 'bad value', 'refused', 'known ID', 'unknown ID', 'sized', 'unsized', 'read early'])
HEADERS = Proof('lemma: what the header readers\' contracts give', lemma_headers, covers=['end of data', 'bad', 'read'])
RAW = Proof('getRaw and getRawValue', raw, ['core.Element.getRaw', 'core.Element.getRawValue'],
            covers=['getRaw', 'getRawValue', 'Unsized', 'Document', 'Unknown', 'Void', 'Integer'])

PROPERTY = Property('C11', [
    HEADERS,
    PARSE,
    RAW,
], KINDS)

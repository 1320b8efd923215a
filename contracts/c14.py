from .base import *
from .tree import *
from .c11 import PARSE, HEADERS, RAW
from . import c12
from .c12 import ITERATION, DITERATION, LENGTH, DLENGTH, VALUE, DVALUE, DITEM, LEVEL_ENDS
from pyvc.models import Cell
from . import k_parse as K

LEAVES = [k for k in KINDS_ if k != 'Master'] + ['Unknown']


def right(c, P, kind, stream, po, n):
    """The value of a leaf: the decoding of its payload bytes."""
    if kind in ('Binary', 'Unknown'):
        return stream.content.slice(po, po + n)
    if kind == 'Void':
        return None                 # not read from the payload
    return P.value(kind, po, n)


def is_right(c, P, kind, v, stream, po, n, label):
    if kind in ('Binary', 'Unknown', 'Void'):
        if not isinstance(v, (bytes, bytearray, SRope, SByteArray)):
            c.prove(False, label + ' (type)')
        elif kind != 'Void':
            c.prove_rope(v, right(c, P, kind, stream, po, n), label)
        return
    c.prove(isinstance(v, PVal) and v.same_as(c.interp, right(c, P, kind, stream, po, n)), label)


def leaf(c):
    """Two accesses of a leaf from any state, with anything in between."""
    ip = Interp(c)
    stream = SStream(opaque_bytes('content'), c.fresh('pos', 0), 'stream')
    P = Parsers(c, stream)
    P.install()
    schema = known(None, SObj(core.Schema, {}, 'schema'))
    kind = c.case('kind', *LEAVES)
    o, hl, n = c.fresh('offset', 0), c.fresh('header', 0), c.fresh('size', 0)
    po = o + hl
    base = core.UnknownElement if kind == 'Unknown' else BASES[kind]
    attrs = dict(stream=stream, offset=o, payloadOffset=po, _value=None, size=n)
    if kind == 'Unknown':
        attrs.update(id=c.fresh('id', 0), schema=schema)
        cls = base
    else:
        cls = SClass(base, dict(id=c.fresh('id', 0), schema=schema, name=SOpaque(str, 'name')), kind + 'Sub')
    el = known(None, SObj(cls, attrs, 'el'))
    cached = c.case('cached', False, True)
    if cached:
        if kind == 'Void':
            el.attrs['_value'] = ip.call(ip.getattr(el, 'parse'), [stream, n])
        else:
            v = right(c, P, kind, stream, po, n)
            el.attrs['_value'] = v if isinstance(v, PVal) else SByteArray(v)
            if isinstance(v, PVal):
                c.assume(z3.Not(P.bad(kind, po, n)))
        wander(c, stream)
    held = cached
    first = None
    before = len(c.mutlog)
    for step in range(2):
        op = c.case('op%d' % step, 'value', 'dump', 'gc', 'gc all', 'raw', 'raw value', 'len')
        if op == 'len' and not hasattr(base, '__len__'):
            raise PathAbort()
        f = {'value': lambda: ip.getattr(el, 'value'),
             'dump': lambda: ip.call(ip.getattr(el, 'dump'), []),
             'gc': lambda: ip.call(ip.getattr(el, 'gc'), []),
             'gc all': lambda: ip.call(ip.getattr(el, 'gc'), [True]),
             'raw': lambda: ip.call(ip.getattr(el, 'getRaw'), []),
             'raw value': lambda: ip.call(ip.getattr(el, 'getRawValue'), []),
             'len': lambda: ip.getattr(el, 'size') if kind == 'Unicode' else ip.call(ip.getattr(el, '__len__'), [])}[op]
        got = outcome(f)
        if got[0] == 'exc':
            if op in ('value', 'dump') and kind not in ('Binary', 'Unknown', 'Void'):
                c.prove(mkb(P.bad(kind, po, n)), 'raises only what decoding the payload raises')
                c.prove(isinstance(got[1], DecodeError), 'raises it as it is')
                c.cover('raises')
            else:
                c.prove(False, '%s returns' % op)
            c.prove(not held, 'no value is lost')
        elif op in ('value', 'dump'):
            is_right(c, P, kind, got[1], stream, po, n, 'the value is the decoding of the payload bytes')
            if kind == 'Void' and isinstance(got[1], (bytes, bytearray, SRope, SByteArray)):
                if first is not None:
                    c.prove_rope(got[1], first, 'the same value again')
                first = rope(got[1])
            held = True
            c.cover('value')
        elif op in ('gc', 'gc all'):
            same_value(c, 'reports the number of values cleared', got[1], 1 if held else 0)
            held = False
            c.cover('cleared')
        # the element is in a state like those this proof begins with
        v = el.attrs.get('_value', UNBOUND)
        if v is UNBOUND:
            raise Unsupported('value kept elsewhere')
        c.prove((v is not None) == held, 'a value is held after it was read, until it is cleared')
        if v is not None:
            is_right(c, P, kind, v, stream, po, n, 'the value held is the decoding of the payload bytes')
        for a, x in (('offset', o), ('payloadOffset', po), ('size', n)):
            same_value(c, a + ' unchanged', ip.getattr(el, a), x)
        wander(c, stream)
    c.prove(all(x is el or x is stream or isinstance(x, SByteArray) for x, _ in c.mutlog[before:]), 'changes nothing else')
    c.cover(kind)


class Call(Sym):
    def __init__(self, f):
        self.f = f

    def guest_call(self, ip, args, kwargs):
        return self.f(*args, **kwargs)


def gc(c):
    """Clearing a master or a document, from any state."""
    kind = c.case('kind', 'Master', 'Document')
    ip, t, el, po, end = c12.setup(c, kind)
    lv = Level(c, t, po, end, False)
    G, S = fun(c, 'GC', 'i', 'i'), fun(c, 'SUM', 'i', 'i')
    c.assume(S(Z(0)) == 0)
    rec = c.case('recurse', None, False, True)
    held = False
    if kind == 'Master' and c.case('cached', False, True):
        c.assume(lv.stop(lv.M))
        el.attrs['_value'] = GList([], lv.seq(), 'value')
        held = True
    calls = Cell(0)

    def child_gc(e):
        def f(recurse=False):
            c.prove(recurse is True, 'children are cleared with their children')
            c.prove(mkb(ze(e.p) == ze(lv.at(calls.get()))), 'each child once, in order')
            k = ze(calls.get())
            g = G(ze(e.p))
            c.assume(g >= 0)
            c.assume(S(k + 1) == S(k) + g)
            calls.set(calls.get() + 1)
            return mki(g)
        return Call(f)
    t.attrs['gc'] = child_gc

    def ghosts(loc, sh, old, seq):
        if sh[0] == 'int':
            return [('sum of the reports', lambda k: mki(S(ze(k)))), ('one more', lambda k: mki(S(ze(k)) + 1))]
        if sh[0] == 'list':
            return [('the reports', lambda k: SList(SSeq(k, lambda j: mki(G(ze(lv.at(j)))), 'reports')))]
        return []
    c.ghosts.append(ghosts)

    def sum_seq(ip, it, start):
        if hasattr(it, 'gen'):
            return NotImplemented
        j = c.fresh('j', 0)
        c.assume(mkb(j.e < ze(it.n)))
        if not c.valid(mkb(z3.And(ze(it.item(j)) == G(ze(lv.at(j))), ze(it.n) == ze(lv.M)))):
            return NotImplemented
        return mki(ze(start) + S(ze(it.n)))
    c.models['sum_seq'] = sum_seq
    lv.invariants()
    got = outcome(lambda: ip.call(ip.getattr(el, 'gc'), [] if rec is None else [rec]))
    if got[0] == 'exc':
        c.prove(False, 'gc returns')
        return
    if not held:
        want = 0
    elif rec is True:
        want = mki(1 + S(ze(lv.M)))
        c.cover('recursive')
    else:
        want = 1
        c.cover('own')
    same_value(c, 'reports the number of values cleared', got[1], want)
    c.prove(el.attrs.get('_value', UNBOUND) is None, 'nothing is held any more')
    c.cover(kind)


KINDS = [
    Kind('history', K.check_history, K.gen_history, K.dir_history, n=2500),
]

LEAF = Proof('leaf: value, dump, gc, raw access', leaf,
          ['core.Element.value', 'core.Element.dump', 'core.Element.gc', 'core.Element.getRaw', 'core.Element.getRawValue',
           'core.Element.parse', 'core.VoidElement.parse', 'core.StringElement.__len__', 'core.BinaryElement.__len__'],
          covers=['value', 'raises', 'cleared'] + LEAVES)

PROPERTY = Property('C14', [
    HEADERS,
    PARSE,
    LEAF,
    Proof('gc of masters and documents', gc, ['core.MasterElement.gc', 'core.Document.gc'], covers=['Master', 'Document', 'own', 'recursive']),
    LEVEL_ENDS, ITERATION, DITERATION, LENGTH, DLENGTH, VALUE, DVALUE, DITEM, RAW,
], KINDS)

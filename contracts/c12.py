from .base import *
from .tree import *
from .c11 import PARSE, HEADERS
from pyvc.models import Cell
from . import k_parse as K

ITER = core.MasterElement.__iter__
DITER = core.Document.__iter__


def setup(c, kind, value=None):
    """A master or document in any reachable state."""
    ip = Interp(c)
    stream = SStream(opaque_bytes('content'), c.fresh('pos', 0), 'stream')
    schema = known(None, SObj(core.Schema, {}, 'schema'))
    t = Tree(c, stream, schema)
    t.install()
    o, hl, S = c.fresh('offset', 0), c.fresh('header', 0), c.fresh('size', 0)
    po = o + hl
    attrs = dict(stream=stream, offset=o, payloadOffset=po, _value=None)
    size_contract(c, lambda e: S)
    if kind == 'Master' and c.case('declared', True, False):
        attrs['_size'] = S
    if kind == 'Document' and c.case('sized', True, False):
        attrs['_size'] = S
    base = core.MasterElement if kind == 'Master' else core.Document
    cls = SClass(base, dict(id=c.fresh('id', 0), schema=schema, name=SOpaque(str, 'name')), 'Sub')
    el = known(None, SObj(cls, attrs, 'el'))
    return ip, t, el, po, (po + S if kind == 'Master' else None)


def generator(c, kind):
    """Iteration, whatever the consumer does with the stream in between."""
    ip, t, el, po, end = setup(c, kind)
    nocache = c.case('nocache', None, False, True)
    L = Level(c, t, po, end, nocache is True)
    L.invariants()
    y = Cell(0)
    ge = Cell(po)              # where the previous element ended

    def handler(v):
        k = y.get()
        ok = isinstance(v, AEl) and v.t is t
        c.prove(ok, 'yields what parsing gives')
        if not ok:
            raise PathAbort()
        p = L.at(k)
        c.prove(mkb(ze(v.p) == ze(p)), 'element k starts where element k-1 ended')
        c.prove(mkb(ze(v.p) == ze(ge.get())), 'exactly there')
        if end is not None:
            c.prove(mkb(ze(v.p) < ze(end)), 'within the payload')
        c.prove(mkb(2 * ze(k) < t.N), 'iteration ends')
        ge.set(mki(t.next(v.p)))
        y.set(k + 1)
        wander(c, t.stream)
        c.cover('yields')
    g = ip.call(ip.getattr(el, '__iter__'), [] if nocache is None else [nocache])
    if not isinstance(g, SGen):
        g = ip.iterate(g)
    if not isinstance(g, SGen):
        raise Unsupported('__iter__ is not a generator')
    got = outcome(lambda: ip.run_gen(g, handler))
    k = y.get()
    p = ze(L.at(k))
    c.prove(mkb(ze(k) == ze(L.M)), 'every element was yielded')
    if got[0] == 'ok':
        c.prove(mkb(L.stop(k)), 'stops only at the end of the payload or of the data')
        c.cover('ends')
    else:
        c.prove(mkb(z3.And(z3.Not(L.stop(k)), t.bad(p, L.nocache))), 'raises only what reading the next element raises')
        c.prove(isinstance(got[1], ERRORS), 'raises it as it is')
        c.cover('raises')
    same_value(c, 'payload offset unchanged', ip.getattr(el, 'payloadOffset'), po)


def iter_contract(c, t, L):
    """__iter__ by contract (proved above): the level, then what comes next raises."""
    def s(ip, args, kwargs):
        a = bindargs(ITER, args, kwargs)
        n = ip.truth(a['nocache'])
        lv = L(n)

        def start(handler):
            raise Unsupported('step-wise iteration')
        if c.decide(z3.Not(lv.stop(lv.M))):
            def fails(handler):
                wander(c, t.stream)
                graise(HeaderError('the next element'))
            return SGen(fails)
        wander(c, t.stream)
        return lv.seq()
    c.summaries[ITER] = s
    c.summaries[DITER] = s


def levels(c, t, po, end):
    memo = {}
    CUR = fun(c, 'CUR', 'i', 'i')

    def get(n):
        if n not in memo:
            memo[n] = Level(c, t, po, end, n, CUR=CUR)
        return memo[n]
    return get


def length(c, kind):
    ip, t, el, po, end = setup(c, kind)
    L = levels(c, t, po, end)
    iter_contract(c, t, L)
    lv = L(True)
    state = c.case('state', 'new', 'counted', 'listed') if kind == 'Master' else c.case('state', 'new', 'counted')
    if state == 'counted':
        el.attrs['_length'] = lv.M
        c.assume(lv.stop(lv.M))
    if state == 'listed':
        # the value was read: the same level without error
        c.assume(lv.stop(lv.M))
        el.attrs['_value'] = GList([], lv.seq(), 'value')
    lv.invariants()
    got = outcome(lambda: ip.call(ip.getattr(el, '__len__'), []))
    if got[0] == 'ok':
        c.prove(mkb(lv.stop(lv.M)), 'the level is readable')
        same_value(c, 'the length is the number of elements', got[1], lv.M)
        c.cover(state)
    else:
        c.prove(mkb(z3.Not(lv.stop(lv.M))), 'raises only if the iteration does')
        c.cover('raises')


def len_contract(c, t, L):
    def s(ip, args, kwargs):
        wander(c, t.stream)
        lv = L(True)
        if c.decide(z3.Not(lv.stop(lv.M))):
            graise(HeaderError('the next element'))
        return lv.M
    c.summaries[core.MasterElement.__len__] = s
    c.summaries[core.Document.__len__] = s


def value(c):
    ip, t, el, po, end = setup(c, 'Master')
    L = levels(c, t, po, end)
    iter_contract(c, t, L)
    len_contract(c, t, L)
    lv = L(False)
    cached = c.case('cached', False, True)
    if cached:
        c.assume(lv.stop(lv.M))
        el.attrs['_value'] = old = GList([], lv.seq(), 'value')
    lv.invariants()
    which = c.case('which', 'value', '__getitem__')
    if which == 'value':
        got = outcome(lambda: ip.getattr(el, 'value'))
        want = None
    else:
        i = c.fresh('i')
        got = outcome(lambda: ip.call(ip.getattr(el, '__getitem__'), [i]))
    bad = z3.Not(lv.stop(lv.M))
    if got[0] == 'exc':
        if which == '__getitem__' and isinstance(got[1], IndexError):
            c.prove(mkb(z3.Or(i.e >= ze(lv.M), i.e < -ze(lv.M))), 'IndexError only beyond the end')
            c.cover('IndexError')
            return
        c.prove(mkb(bad), 'raises only if the iteration does')
        c.cover('raises')
        return
    c.prove(mkb(lv.stop(lv.M)), 'the level is readable')
    r = got[1]
    if which == '__getitem__':
        c.prove(And(i < lv.M, i >= -lv.M), 'IndexError beyond the end')
        j = mki(z3.If(i.e < 0, i.e + ze(lv.M), i.e))
        c.prove(isinstance(r, AEl), 'an element')
        if isinstance(r, AEl):
            c.prove(mkb(ze(r.p) == ze(lv.at(j))), 'the item is the element the iteration gives there')
        c.cover('item')
        return
    if not isinstance(r, GList):
        c.prove(False, 'a list')
        return
    c.prove(el.attrs.get('_value') is r, 'the list is kept')
    v = r.heap_get(None)
    c.prove(mkb(ze(v.n) == ze(lv.M)), 'all elements')
    j = c.fresh('j', 0)
    c.assume(mkb(j.e < ze(lv.M)))
    x = v.at(j)
    c.prove(isinstance(x, AEl), 'elements')
    if isinstance(x, AEl):
        c.prove(mkb(ze(x.p) == ze(lv.at(j))), 'item j is the element the iteration gives at j')
    c.cover('value')


def docitem(c):
    ip, t, el, po, end = setup(c, 'Document')
    lv = Level(c, t, po, None, False)
    lv.invariants()
    i = c.fresh('i')
    c.inputs['i'] = i
    c.history.append(('not there yet', lambda k: Or(i < 0, k <= i)))
    got = outcome(lambda: ip.call(ip.getattr(el, '__getitem__'), [i]))
    if got[0] == 'ok':
        c.prove(And(i >= 0, i < lv.M), 'IndexError beyond the end')
        r = got[1]
        c.prove(isinstance(r, AEl), 'an element')
        if isinstance(r, AEl):
            c.prove(mkb(ze(r.p) == ze(lv.at(i))), 'the item is the element the iteration gives there')
        c.cover('item')
    elif isinstance(got[1], IndexError):
        c.prove(mkb(z3.Or(i.e < 0, z3.And(i.e >= ze(lv.M), lv.stop(lv.M)))), 'IndexError only beyond the end')
        c.cover('IndexError')
    else:
        c.prove(mkb(z3.Not(lv.stop(lv.M))), 'raises only if the iteration does')
        c.prove(isinstance(got[1], ERRORS), 'raises it as it is')
        c.cover('raises')


def docvalue(c):
    ip, t, el, po, end = setup(c, 'Document')
    L = levels(c, t, po, None)
    iter_contract(c, t, L)
    got = outcome(lambda: ip.iterate(ip.getattr(el, 'value')))
    if got[0] == 'exc':
        c.prove(mkb(z3.Not(L(False).stop(L(False).M))), 'raises only if the iteration does')
        return
    r = got[1]
    lv = L(False)
    if isinstance(r, SSeq):
        c.prove(mkb(ze(r.n) == ze(lv.M)), 'all elements')
        j = c.fresh('j', 0)
        c.assume(mkb(j.e < ze(lv.M)))
        x = r.item(j)
        c.prove(isinstance(x, AEl) and c.valid(mkb(ze(x.p) == ze(lv.at(j)))), 'the elements of the iteration')
        c.cover('value')
    elif isinstance(r, SGen):
        e = outcome(lambda: ip.run_gen(r, lambda v: None))
        c.prove(e[0] == 'exc' and not c.valid(lv.stop(lv.M)), 'raises only if the iteration does')
    else:
        raise Unsupported('value of a document')


KINDS = [
    Kind('walk', K.check_walk, K.gen_walk, K.dir_walk, n=2500),
]

LEVEL_ENDS = Proof('lemma: reading a level ends', lemma_level, covers=['end'])
ITERATION = Proof('MasterElement.__iter__', lambda c: generator(c, 'Master'), ['core.MasterElement.__iter__'], covers=['yields', 'ends', 'raises'])
DITERATION = Proof('Document.__iter__', lambda c: generator(c, 'Document'), ['core.Document.__iter__'], covers=['yields', 'ends', 'raises'])
LENGTH = Proof('MasterElement.__len__', lambda c: length(c, 'Master'), ['core.MasterElement.__len__'], covers=['new', 'counted', 'listed', 'raises'])
DLENGTH = Proof('Document.__len__', lambda c: length(c, 'Document'), ['core.Document.__len__'], covers=['new', 'counted', 'raises'])
VALUE = Proof('MasterElement.value and indexing', value, ['core.MasterElement.value', 'core.MasterElement.__getitem__'],
              covers=['value', 'item', 'IndexError', 'raises'])
DITEM = Proof('Document indexing', docitem, ['core.Document.__getitem__'], covers=['item', 'IndexError', 'raises'])
DVALUE = Proof('Document.value', docvalue, ['core.Document.value'], covers=['value'])

PROPERTY = Property('C12', [HEADERS, PARSE, LEVEL_ENDS, ITERATION, DITERATION, LENGTH, DLENGTH, VALUE, DITEM, DVALUE], KINDS)

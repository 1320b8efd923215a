from .base import *
from .tree import *
from .c11 import PARSE, HEADERS
from . import k_parse as K


class Children(SPred):
    """A set of IDs that may be empty."""
    def __init__(self, c, name):
        P, E = fun(c, name, 'i', 'b'), c.fresh_bool(name + '_nonempty')
        self.E = zb(E)
        super().__init__(lambda x: z3.And(self.E, P(x)), name)

    def __bool__(self):
        return V.CTX.decide(self.E)

    def guest_len(self, ip):
        raise Unsupported('number of children')


def setup(c):
    ip = Interp(c)
    stream = SStream(opaque_bytes('content'), c.fresh('pos', 0), 'stream')
    glob = Children(c, 'GLOBAL')
    schema = known(None, SObj(core.Schema, dict(globals=glob), 'schema'))
    t = Tree(c, stream, schema)
    t.install()
    kids = Children(c, 'CHILD')
    attrs = dict(id=c.fresh('id', 0), schema=schema, name=SOpaque(str, 'name'))
    attrs['children'] = kids
    cls = SClass(core.MasterElement, attrs, 'Sub')
    o, hl = c.fresh('offset', 0), c.fresh('header', 0)
    po = o + hl

    def foreign(x):
        return z3.Not(z3.Or(kids.pred(x), glob.pred(x)))
    return ip, t, cls, o, po, foreign


def unknown(c):
    ip, t, cls, o, po, foreign = setup(c)
    lv = Level(c, t, po, None, True, foreign)
    lv.invariants()
    el = known(None, ip.instantiate(cls, [t.stream, o, None, po], {}))
    got = outcome(lambda: ip.getattr(el, 'size'))
    if got[0] == 'exc':
        c.prove(mkb(z3.Not(lv.stop(lv.M))), 'raises only if a header cannot be read')
        c.prove(isinstance(got[1], ERRORS), 'raises it as it is')
        c.cover('raises')
        return
    c.prove(mkb(lv.stop(lv.M)), 'ends only at a foreign element or at the end of the data')
    end = mki(lv.CUR(ze(lv.M)))
    same_value(c, 'ends where the first foreign element starts', got[1], end - po)
    # and keeps that
    t.stream._set('pos', c.fresh('moved', 0))
    at = t.stream.pos
    again = outcome(lambda: ip.getattr(el, 'size'))
    same(c, 'the size stays', again, ('ok', end - po))
    n = outcome(lambda: ip.call(ip.getattr(el, '__len__'), []))
    same(c, 'the length is the number of its children', n, ('ok', lv.M))
    same_value(c, 'payload offset unchanged', ip.getattr(el, 'payloadOffset'), po)
    c.cover('measured')


def declared(c):
    ip, t, cls, o, po, foreign = setup(c)
    n = c.fresh('size', 0)
    el = known(None, ip.instantiate(cls, [t.stream, o, n, po], {}))
    before = t.stream.pos
    got = outcome(lambda: ip.getattr(el, 'size'))
    same(c, 'the declared size', got, ('ok', n))
    same(c, 'again', outcome(lambda: ip.getattr(el, 'size')), ('ok', n))
    c.prove(t.stream.pos is before or mkb(ze(t.stream.pos) == ze(before)), 'nothing is read')
    c.cover('end')


def lemma_same_children(c):
    """A master that extends to the first foreign element has the children of
    one that declares the size up to there."""
    Interp(c)
    stream = SStream(opaque_bytes('content'), c.fresh('pos', 0), 'stream')
    t = Tree(c, stream)
    F = fun(c, 'FOREIGN', 'i', 'b')
    po = c.fresh('po', 0)
    a = Level(c, t, po, None, True, lambda x: F(x))
    c.assume(a.stop(a.M))
    end = mki(a.CUR(ze(a.M)))
    b = Level(c, t, po, end, True, None, CUR=a.CUR)
    # growth: CUR(j) < CUR(M) for j < M, by induction on m from j
    j, m = c.fresh('j', 0), c.fresh('m', 0)

    def grows(x, y):
        return z3.Implies(z3.And(x >= 0, x <= y, y <= ze(a.M)), a.CUR(y) >= a.CUR(x) + 2 * (y - x))
    # first from element 0 on (so no position is negative), then from any
    for frm, what in ((Z(0), 'from the start'), (j.e, 'from j')):
        c.prove(mkb(grows(frm, frm)), 'growth %s: base' % what)
        c.solver.push()
        if what == 'from j':
            c.assume(grows(Z(0), j.e))
        a.at(m)
        a.at(m + 1)
        c.prove(mkb(z3.Implies(z3.And(grows(frm, m.e), m.e >= frm), grows(frm, m.e + 1))), 'growth %s: step' % what)
        c.solver.pop()
    c.assume(grows(Z(0), ze(a.M)))
    c.assume(grows(Z(0), ze(b.M)))
    for x in (ze(b.M), ze(b.M) - 1, j.e):
        c.assume(grows(x, ze(a.M)))
        a.at(mki(x))
        b.at(mki(x))
    c.prove(mkb(ze(a.M) == ze(b.M)), 'as many children')
    c.prove(mkb(b.stop(b.M)), 'which end properly')
    c.cover('end')


KINDS = [
    Kind('unknown', K.check_unknown, K.gen_unknown, K.dir_unknown, n=1200),
    Kind('declared', K.check_declared, K.gen_declared, K.dir_declared, n=600),
]

PROPERTY = Property('C13', [
    HEADERS,
    PARSE,
    Proof('MasterElement.size, unknown', unknown, ['core.MasterElement.size', 'core.MasterElement._isValidChild', 'core.MasterElement.__len__'],
          covers=['measured', 'raises']),
    Proof('MasterElement.size, declared', declared, ['core.MasterElement.size', 'core.Element.__init__'], covers=['end']),
    Proof('lemma: the same children as with an explicit size', lemma_same_children, covers=['end']),
], KINDS)

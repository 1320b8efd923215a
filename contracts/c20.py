from .base import *
from pyvc.coll import SPred, install
from pyvc.interp import SList
import itertools
import ebmlite.util as util

RANGES = dict(A=(0x81, 0xFE), B=(0x407F, 0x7FFE), C=(0x203FFF, 0x3FFFFE), D=(0x101FFFFF, 0x1FFFFFFE))


def valid_id(x):
    return Or(*[And(x >= a, x <= b) for a, b in RANGES.values()])


def validate(c):
    ip = Interp(c)
    x = c.fresh('eid')
    c.inputs['eid'] = x
    use(c, 'decodeIDLength')
    got = outcome(lambda: ip.call(util.validateID, [x]))
    if got[0] == 'exc':
        c.prove(isinstance(got[1], ValueError), 'only ValueError')
        c.prove(Not(valid_id(x)), 'rejects only what no class allows')
        c.cover('rejected')
        return
    c.prove(got[1] is True, 'returns True')
    c.prove(valid_id(x), 'accepts only what a class allows')
    c.cover('accepted')


# --- selection of the integers from lo on that a predicate does not exclude

class Select:
    """CNT(k): how many of lo..lo+k-1 are not excluded; SEL(j): the j-th of them.

    fact(k) is CNT's defining recursion; the others are consequences, proved by
    induction in the lemma below."""
    def __init__(self, c, lo, ex):
        self.c, self.lo, self.ex = c, ze(lo), ex
        self.CNT = z3.Function(c.uname('CNT'), V.INT, V.INT)
        self.SEL = z3.Function(c.uname('SEL'), V.INT, V.INT)
        c.assume(self.CNT(z3.IntVal(0)) == 0)

    def step(self, k):
        k = ze(k)
        ex = self.ex(self.lo + k)
        return z3.Implies(k >= 0, z3.And(self.CNT(k + 1) == self.CNT(k) + z3.If(ex, 0, 1),
                                         z3.Implies(z3.Not(ex), self.SEL(self.CNT(k)) == self.lo + k)))

    def bounds(self, k):
        return z3.And(self.CNT(k) >= 0, self.CNT(k) <= k)

    def mono(self, a, b):
        return z3.Implies(z3.And(0 <= a, a <= b), self.CNT(a) <= self.CNT(b))

    def sel(self, j, k):
        """The j-th selected, when CNT(k) > j."""
        s = self.SEL(j)
        return z3.Implies(z3.And(k >= 0, 0 <= j, j < self.CNT(k)),
                          z3.And(self.lo <= s, s < self.lo + k, z3.Not(self.ex(s)), self.CNT(s - self.lo) == j))

    def at(self, k):
        """CNT(k) with its facts."""
        k = ze(k)
        self.c.assume(self.step(k))
        self.c.assume(z3.Implies(k >= 1, self.step(k - 1)))
        self.c.assume(z3.Implies(k >= 0, self.bounds(k)))
        return mki(self.CNT(k))

    def seq(self, n):
        return SSeq(n, lambda j: mki(self.SEL(ze(j))), 'selection')


def lemma_select(c):
    """Induction on k for bounds, mono and sel."""
    EX = z3.Function('EX', V.INT, z3.BoolSort())
    S = Select(c, c.fresh('lo'), lambda x: EX(x))
    k, j, a = c.fresh('k', 0), c.fresh('j', 0), c.fresh('a', 0)
    zero = z3.IntVal(0)
    c.prove(mkb(S.bounds(zero)), 'bounds, k = 0')
    c.prove(mkb(z3.Implies(a.e <= 0, S.mono(a.e, zero))), 'monotone, k = 0')
    c.prove(mkb(S.sel(j.e, zero)), 'selection, k = 0')
    c.assume(S.step(k))
    # hypotheses for k
    c.assume(S.bounds(k.e))
    c.assume(S.mono(a.e, k.e))
    c.assume(S.sel(j.e, k.e))
    c.prove(mkb(S.bounds(k.e + 1)), 'bounds, step')
    c.prove(mkb(S.mono(a.e, k.e + 1)), 'monotone, step')
    c.prove(mkb(S.sel(j.e, k.e + 1)), 'selection, step')
    c.cover('end')


def lemma_meaning(c):
    """What the selected prefix is, in the words of the property."""
    EX = z3.Function('EX', V.INT, z3.BoolSort())
    lo = c.fresh('lo')
    S = Select(c, lo, lambda x: EX(x))
    N, count, m = c.fresh('N', 0), c.fresh('count'), c.fresh('m', 0)
    cn = S.at(N)
    c.assume(mkb(ze(m) == z3.If(z3.If(count.e > 0, count.e, 0) < ze(cn), z3.If(count.e > 0, count.e, 0), ze(cn))))
    i, j, x = c.fresh('i', 0), c.fresh('j', 0), c.fresh('x')
    c.assume(And(i < j, j < m))
    for t in (i.e, j.e):
        c.assume(S.sel(t, N.e))
    si, sj = S.SEL(i.e), S.SEL(j.e)
    c.assume(S.mono(sj - lo.e, si - lo.e))
    c.prove(mkb(si < sj), 'increasing, hence distinct')
    c.prove(mkb(z3.And(lo.e <= sj, sj < lo.e + N.e, z3.Not(EX(sj)))), 'within the limits and unused')
    c.prove(mkb(z3.And(m.e <= z3.If(count.e > 0, count.e, 0))), 'at most as many as asked for')
    # any further ID: only beyond the limit of the count
    c.assume(And(x >= lo, x < lo + N))
    c.assume(z3.Not(EX(x.e)))
    k = mki(x.e - lo.e)
    c.assume(S.step(k))
    c.assume(S.bounds(ze(k)))
    c.assume(S.mono(ze(k) + 1, N.e))
    c.prove(mkb(z3.Implies(m.e < count.e, S.CNT(ze(k)) < m.e)), 'fewer only when no other exists')
    c.prove(mkb(S.SEL(S.CNT(ze(k))) == x.e), 'fewer only when no other exists (it is among them)')
    c.cover('end')


CLASSES = ['A', 'a', 'B', 'b', 'C', 'c', 'D', 'd']


def create(c):
    ip = Interp(c)
    install(c)
    idc = c.case('class', *CLASSES)
    mn, mx, count = c.fresh('minId'), c.fresh('maxId'), c.fresh('count')
    EX = z3.Function('EXCLUDED', V.INT, z3.BoolSort())
    IN = z3.Function('IN_SCHEMA', V.INT, z3.BoolSort())
    schema = SObj(core.Schema, {'elements': SPred(lambda x: IN(x), 'elements')}, 'schema')
    exclude = SPred(lambda x: EX(x), 'exclude')
    c.inputs.update(idClass=idc, minId=mn, maxId=mx, count=count)
    a, b = RANGES[idc.upper()]
    lo = mki(z3.If(mn.e > a, mn.e, z3.IntVal(a)))
    hi = mki(z3.If(mx.e < b, mx.e, z3.IntVal(b)))
    S = Select(c, lo, lambda x: z3.Or(EX(x), IN(x)))
    N = mki(z3.If(ze(hi) >= ze(lo), ze(hi) - ze(lo) + 1, z3.IntVal(0)))

    def ghosts(loc, sh, old, seq):
        if sh[0] == 'list':
            return [('the selection so far', lambda k: SList(S.seq(S.at(k))))]
        return []
    c.ghosts.append(ghosts)
    lim = z3.If(count.e > 0, count.e, z3.IntVal(0))
    c.history.append(('at most count', lambda k: mkb(ze(S.at(k)) <= lim)))
    c.history.append(('within the limits', lambda k: mkb(ze(k) <= ze(N))))

    got = outcome(lambda: ip.call(util.createID, [schema, idc], dict(exclude=exclude, minId=mn, maxId=mx, count=count)))
    if got[0] != 'ok':
        c.prove(False, 'a valid class is accepted')
        return
    r = got[1]
    if isinstance(r, GList):
        v = r.heap_get(None)
    else:
        c.prove(False, 'a list')
        return
    n = v.n
    cn = S.at(N)
    # monotone up to every iteration count that occurs
    for k in [z3.Int(x) for x in names_of(c, 'k')]:
        c.assume(S.mono(k, ze(N)))
        c.assume(S.mono(k + 1, ze(N)))
        S.at(mki(k))
        S.at(mki(k + 1))
    want = z3.If(lim < ze(cn), lim, ze(cn))
    c.prove(mkb(ze(n) == want), 'as many as asked for, or all there are')
    j = c.fresh('j', 0)
    c.assume(mkb(j.e < ze(n)))
    got_j = v.at(j)
    c.prove(mkb(ze(got_j) == S.SEL(j.e)), 'exactly the first unused ones, in order')
    c.cover('end')


def names_of(c, base):
    return [base if i == 0 else '%s!%d' % (base, i) for i in range(c.names.get(base, 0))]


def unknown_class(c):
    ip = Interp(c)
    install(c)
    idc = c.case('class', '', 'E', 'AB', 'x', '1', 'AA')
    schema = SObj(core.Schema, {'elements': SPred(lambda x: z3.BoolVal(False), 'elements')}, 'schema')
    same(c, 'unknown class', outcome(lambda: ip.call(util.createID, [schema, idc])), ('exc', KeyError()))


# ------------------------------------------------------------------ concrete

class FakeSchema:
    def __init__(self, ids):
        self.elements = {i: object for i in ids}


def check_validate(eid):
    ok = any(a <= eid <= b for a, b in RANGES.values())
    try:
        r = util.validateID(eid)
    except ValueError:
        if ok:
            raise Broken('validateID(0x%X) raised ValueError' % eid)
        return
    if not ok or r is not True:
        raise Broken('validateID(%s) returned %r' % (hex(eid), r))


def check_create(idClass, exclude=(), used=(), minId=0x81, maxId=0x1FFFFFFE, count=1):
    r = util.createID(FakeSchema(used), idClass, exclude=exclude, minId=minId, maxId=maxId, count=count)
    a, b = RANGES[idClass.upper()]
    bad = set(exclude) | set(used)
    want = list(itertools.islice((x for x in range(max(a, minId), min(b, maxId) + 1) if x not in bad), max(count, 0)))
    if list(r) != want:
        raise Broken('createID(%r, exclude=%r, used=%r, minId=%r, maxId=%r, count=%r) = %r, expected %r' % (
            idClass, exclude, used, minId, maxId, count, r[:10], want[:10]))


def check_class(name):
    try:
        r = util.createID(FakeSchema(()), name)
    except KeyError:
        return
    raise Broken('createID(%r) = %r instead of KeyError' % (name, r))


def dir_validate():
    out = set()
    for a, b in RANGES.values():
        for x in (a, b):
            out |= {x + d for d in (-2, -1, 0, 1, 2)}
    for n in range(0, 6):
        for x in (2 ** (7 * n), 2 ** (7 * n + 1), 2 ** (8 * n), 2 ** (8 * n) - 1):
            out |= {x + d for d in (-1, 0, 1)}
    return [dict(eid=x) for x in sorted(out)] + [dict(eid=-x) for x in (1, 0x81, 2 ** 40)] + [dict(eid=x) for x in range(0, 600)]


def gen_validate(rng):
    while True:
        yield dict(eid=rng.getrandbits(rng.randint(1, 34)) * (-1 if rng.random() < .05 else 1))


def gen_create(rng):
    while True:
        cl = rng.choice('AaBbCcDd')
        a, b = RANGES[cl.upper()]
        base = rng.choice((a, b, rng.randint(a, b)))
        near = [base + rng.randint(-12, 12) for _ in range(rng.randint(0, 14))]
        edge = [a, a + 1, b, b - 1]
        ex = tuple(rng.sample(near + edge, rng.randint(0, len(near))))
        kw = dict(idClass=cl, exclude=ex, used=tuple(rng.sample(near, rng.randint(0, len(near)))), count=rng.choice((0, 1, 2, 5, 20, -1, 130)))
        if rng.random() < .8:
            kw['minId'] = base - rng.randint(0, 15)
        if rng.random() < .8:
            kw['maxId'] = base + rng.randint(-3, 15)
        yield kw


def conv_create(i):
    return dict(idClass=i['idClass'], minId=max(i['minId'], -2 ** 40), maxId=min(i['maxId'], 2 ** 40), count=min(i['count'], 10 ** 5))


DIR_CREATE = [dict(idClass=k, count=n, maxId=m) for k in 'ABCD' for n in (0, 1, 3, 200) for m in (0x1FFFFFFE, RANGES[k][0] + 2, RANGES[k][0] - 1)] + \
    [dict(idClass='A', count=500), dict(idClass='a', minId=0xFE, maxId=0xFE, count=3), dict(idClass='B', minId=0x7FFE, count=3),
     dict(idClass='A', exclude=list(range(0x81, 0xFE)), count=2), dict(idClass='A', used=range(0x81, 0xFF), count=2),
     dict(idClass='D', minId=0x1FFFFFF0, count=50), dict(idClass='B', count=20000), dict(idClass='A', exclude={0x81, 0x83}, used=[0x82], count=4),
     dict(idClass='A', minId=0, maxId=0x90, count=-5)]

PROPERTY = Property('C20', [
    Proof('validateID', validate, ['util.validateID'], kind='validate', covers=['accepted', 'rejected']),
    Proof('lemma: selecting what is not excluded (by induction)', lemma_select, covers=['end']),
    Proof('lemma: the selection is what the property asks for', lemma_meaning, covers=['end']),
    Proof('createID returns the selection', create, ['util.createID'], kind='create', conv=conv_create, covers=['end']),
    Proof('createID, unknown class', unknown_class, ['util.createID']),
], [
    Kind('validate', check_validate, gen_validate, dir_validate, n=4000),
    Kind('create', check_create, gen_create, DIR_CREATE, n=1500),
    Kind('class', check_class, None, [dict(name=n) for n in ('', 'E', 'X', 'AB', '1', 'aa', ' ', 'A ')]),
], assumptions=['the schema and the exclusion list hold integers (any set of them)'],
    not_proved=['class names other than the samples of the last contract (host strings)'])

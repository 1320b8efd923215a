"""Proof context: path condition, decisions, obligations, loop bookkeeping."""
import time
import z3
from . import values as V
from .values import (PathAbort, Unsupported, GuestExc, SInt, SBool, ze, zb, mki, mkb)

SOLVER_MS = 20000


class Results:
    """Obligations of one proof, over all its paths."""
    def __init__(self):
        self.obl = {}          # label -> dict(ok, fail, unknown, t)
        self.failures = []     # (label, inputs-conc or None, model text)
        self.unsupported = []
        self.paths = 0
        self.solver_s = 0.0
        self.queries = 0
        self.reached = {}      # cover labels reached
        self.assumed = set()
        self.functions = {}    # qualname -> how ('body', 'contract', 'model')
        self.lines = set()

    def get(self, label):
        return self.obl.setdefault(label, dict(ok=0, fail=0, unknown=0))


class LoopInfo:
    def __init__(self):
        self.shape = {}        # loc -> shape at the back edge
        self.cands = {}        # (loc|None, name) -> alive
        self.seen = False      # a back edge was reached
        self.reached = False   # a later iteration is possible (guard against contradictory invariants)
        self.changed = False


class Ctx:
    def __init__(self, results, loops, prefix=(), opts=None):
        self.r = results
        self.loops = loops
        self.prefix = list(prefix)
        self.cursor = 0
        self.trace = []            # (choice, number of alternatives)
        self.pending = []          # alternative prefixes found on this path
        self.solver = z3.Solver()
        self.solver.set('timeout', SOLVER_MS)
        self.names = {}
        self.foralls = []
        self.skolems = []
        self._ranged = set()
        self._fixed = {}
        self.inputs = {}
        self.notes = {}
        self.heap = []             # (obj, label)
        self.mutlog = []
        self.relate = False        # candidate x - x0 == y - y0 for every pair of integer locations
        self.ghosts = []           # providers of candidate terms
        self.assumed_cands = {}    # location of a loop -> the candidate its value was taken from
        self.history = []          # (name, fn(k)) candidate predicates
        self.summaries = {}
        self.models = {}
        self.global_override = {}
        self.frames = []
        self.opts = opts or {}
        self.deadline = None
        self.depth = 0
        self.consistent = True

    # ---- naming ---------------------------------------------------------
    def uname(self, base):
        k = self.names.get(base, 0)
        self.names[base] = k + 1
        return '%s!%d' % (base, k) if k else base

    def fresh(self, base, lo=None, hi=None):
        x = z3.Int(self.uname(base))
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return SInt(x)

    def fresh_bool(self, base):
        return SBool(z3.Bool(self.uname(base)))

    # ---- solver -----------------------------------------------------------
    def _check(self, *extra):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the proof exhausted')
        t = time.time()
        self.solver.push()
        for e in extra:
            self.solver.add(e)
        res = self.solver.check()
        model = self.solver.model() if res == z3.sat else None
        self.solver.pop()
        self.r.solver_s += time.time() - t
        self.r.queries += 1
        return res, model

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.solver.add(zb(c))

    def feasible(self):
        return self._check()[0] != z3.unsat

    def valid(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(zb(c))
        if z3.is_true(c):
            return True
        return self._check(z3.Not(c))[0] == z3.unsat

    def range_fact(self, t, lo, hi):
        i = t.get_id()
        if i not in self._ranged:
            self._ranged.add(i)
            self.notes.setdefault('keep', []).append(t)
            if has_var(t):
                return
            self.solver.add(t >= lo, t <= hi)

    def forall(self, f):
        self.foralls.append(f)
        for s in self.skolems:
            self.solver.add(f(s))

    def skolem(self, t):
        t = ze(t)
        self.skolems.append(t)
        for f in self.foralls:
            self.solver.add(f(t))

    def fixed(self, n):
        """The host value of n if the path condition determines it."""
        if isinstance(n, int):
            return n
        key = n.e.get_id()
        if key in self._fixed:
            return self._fixed[key][0]
        res, m = self._check()
        if res == z3.unsat:
            raise PathAbort()
        if m is None:
            return None
        v = m.eval(n.e, model_completion=True)
        if not z3.is_int_value(v):
            return None
        v = v.as_long()
        if self._check(n.e != v)[0] == z3.unsat:
            self._fixed[key] = (v, n.e)
            return v
        return None

    def concretize(self, n, limit=40):
        if isinstance(n, int):
            return n
        if isinstance(n, SBool):
            return int(bool(n))
        for _ in range(limit):
            v = None
            if self.cursor < len(self.prefix):
                # replay: the value is recorded with the decision
                c = self.prefix[self.cursor]
                if isinstance(c, tuple) and c[0] == 'val':
                    v = c[1]
            if v is None:
                res, m = self._check()
                if res == z3.unsat:
                    raise PathAbort()
                if m is None:
                    raise Unsupported('cannot enumerate values')
                v = m.eval(n.e, model_completion=True).as_long()
            if self._decide_val(n.e == v, v):
                return v
        raise Unsupported('too many values to enumerate')

    def _decide_val(self, cond, v):
        if self.cursor < len(self.prefix):
            _, v0, b = self.prefix[self.cursor]
            self.cursor += 1
            self.trace.append(('val', v0, b))
            self.solver.add(cond if b else z3.Not(cond))
            return b
        other = self._check(z3.Not(cond))[0] != z3.unsat
        if other:
            self.pending.append(self.trace + [('val', v, False)])
        self.trace.append(('val', v, True))
        self.cursor += 1
        self.solver.add(cond)
        return True

    def decide(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(zb(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.cursor < len(self.prefix):
            b = self.prefix[self.cursor]
            self.cursor += 1
            self.trace.append(b)
            self.solver.add(cond if b else z3.Not(cond))
            return b
        t = self._check(cond)[0]
        f = self._check(z3.Not(cond))[0]
        if t == z3.unsat and f == z3.unsat:
            raise PathAbort()
        if t == z3.unsat:
            b = False
        elif f == z3.unsat:
            b = True
        else:
            b = True
            self.pending.append(self.trace + [False])
        self.trace.append(b)
        self.cursor += 1
        self.solver.add(cond if b else z3.Not(cond))
        return b

    def choose(self, n, label=''):
        if self.cursor < len(self.prefix):
            c = self.prefix[self.cursor]
            self.cursor += 1
            self.trace.append(c)
            return c
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trace + [k])
        self.trace.append(0)
        self.cursor += 1
        return 0

    def case(self, name, *alts):
        k = self.choose(len(alts), name)
        self.inputs['case:' + name] = k
        a = alts[k]
        return a() if callable(a) else a

    # ---- obligations --------------------------------------------------------
    def prove(self, c, label, guess=False):
        """An obligation. A refuted guess (a contract chosen here for an inner
        function, which the code may do without) counts as not decided."""
        o = self.r.get(label)
        if isinstance(c, bool):
            if c:
                o['ok'] += 1
                return True
            c = z3.BoolVal(False)
        c = zb(c)
        res, m = self._check(z3.Not(c))
        if res == z3.unsat:
            o['ok'] += 1
            return True
        if res == z3.unknown:
            # second opinion from a fresh solver
            s = z3.SolverFor('QF_UFNIA') if False else z3.SimpleSolver()
            s.set('timeout', SOLVER_MS)
            s.add(*self.solver.assertions())
            s.add(z3.Not(c))
            t = time.time()
            res = s.check()
            self.r.solver_s += time.time() - t
            self.r.queries += 1
            if res == z3.unsat:
                o['ok'] += 1
                return True
            m = s.model() if res == z3.sat else None
        if res == z3.sat and guess:
            o['unknown'] += 1
        elif res == z3.sat:
            o['fail'] += 1
            inp = None
            try:
                inp = {k: conc(v, m) for k, v in self.inputs.items()}
            except BaseException as e:       # noqa
                inp = None
                if isinstance(e, (KeyboardInterrupt, SystemExit)):
                    raise
            if len([f for f in self.r.failures if f['label'] == label]) < 5:
                self.r.failures.append(dict(label=label, inputs=inp,
                                            model=str(m)[:2000], trace=repr(self.trace)[:500]))
        else:
            o['unknown'] += 1
        return False

    def prove_rope(self, a, b, label):
        """Equality of two byte strings or texts of any length."""
        try:
            a, b = V.rope(a), V.rope(b)
        except Unsupported:
            return self.prove(False, label)
        if a.kind != b.kind:
            return self.prove(False, label + ' (type)')
        if a is b:
            return self.prove(True, label)
        ok = self.prove(mkb(ze(a.n) == ze(b.n)), label + ' [length]')
        j = self.fresh('ix', 0)
        self.skolem(j.e)
        return self.prove(mkb(z3.Implies(z3.And(j.e < ze(a.n), ze(a.n) == ze(b.n)),
                                         a.at(j.e) == b.at(j.e))), label + ' [content]') and ok

    def cover(self, label):
        """Vacuity guard: this point is reachable."""
        if self.r.reached.get(label):
            return
        self.r.reached[label] = bool(self._check()[0] == z3.sat)

    # ---- heap ----------------------------------------------------------------
    def register(self, obj, label):
        self.heap.append(obj)
        obj.__dict__['_label'] = self.uname('h:' + label)
        obj.__dict__['_birth'] = len(self.heap)

    def mutate(self, obj, part=None):
        self.mutlog.append((obj, part))


def conc(v, m):
    if isinstance(v, V.Sym):
        return v.conc(m)
    if isinstance(v, (tuple, list)):
        return type(v)(conc(x, m) for x in v)
    if isinstance(v, dict):
        return {k: conc(x, m) for k, x in v.items()}
    return v


_closed = {}        # terms known to have no bound variable (kept, so that ids stay theirs)


def has_var(t):
    if t.get_id() in _closed:
        return False
    if len(_closed) > 200000:
        _closed.clear()
    new = {}
    st = [t]
    while st:
        x = st.pop()
        if z3.is_var(x):
            return True
        i = x.get_id()
        if i in new or i in _closed:
            continue
        new[i] = x
        st.extend(x.children())
    _closed.update(new)
    return False


def explore(run, max_paths=20000, budget_s=240, opts=None):
    """Run `run(ctx)` along every path until the loop invariants are stable."""
    loops = {}
    t0 = time.time()
    for rnd in range(40):
        res = Results()
        for li in loops.values():
            li.changed = li.reached = False
        work = [[]]
        seen_paths = 0
        while work:
            pre = work.pop()
            c = Ctx(res, loops, pre, opts)
            c.deadline = t0 + budget_s
            V.CTX = c
            try:
                run(c)
                if c.opts.get('final_feasible', True):
                    pass
            except PathAbort:
                pass
            except Unsupported as e:
                # only matters if the path is feasible
                try:
                    feas = c.feasible()
                except BaseException:
                    feas = True
                if feas:
                    msg = str(e) + where(c)
                    res.unsupported.append(msg)
            except GuestExc as e:
                res.get('no unexpected exception')['fail'] += 1
                res.failures.append(dict(label='no unexpected exception: %r' % (e.exc,), inputs=None, model='', trace=''))
            finally:
                V.CTX = None
            work.extend(c.pending)
            seen_paths += 1
            if seen_paths > max_paths:
                res.unsupported.append('more than %d paths' % max_paths)
                break
            if len(res.unsupported) > (0 if c.opts.get('stop_unsupported') else 50):
                break
        res.paths = seen_paths
        res.rounds = rnd + 1
        res.wall = time.time() - t0
        if not any(li.changed for li in loops.values()):
            break
    else:
        res.unsupported.append('loop invariants did not stabilise')
    for key, li in loops.items():
        if li.seen and not li.reached and not res.unsupported:
            res.unsupported.append('contradictory invariants of the loop in %s, line %s' % key[:2])
    res.loops = loops
    return res


def where(c):
    if c.frames:
        f = c.frames[-1]
        return ' @ %s:%s' % (f.fn_name, getattr(f, 'line', '?'))
    return ''

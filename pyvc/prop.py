"""Driver of a property's check: proofs, concrete cross-check, verdict, evidence."""
import importlib
import json
import multiprocessing as mp
import os
import pickle
import base64
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


class Broken(Exception):
    """The real code broke the property on a concrete input."""


class Hang(BaseException):
    pass


class Proof:
    """One contract (or lemma) to discharge.

    run(c) sets up arbitrary inputs satisfying the precondition, executes the
    real source and states the postconditions with c.prove."""
    def __init__(self, name, run, functions=(), kind=None, conv=None, budget=200, opts=None, covers=()):
        self.name, self.run, self.functions = name, run, functions
        self.kind = kind          # concrete kind that replays a counterexample
        self.conv = conv          # inputs of the model -> arguments of the kind
        self.budget = budget
        self.opts = opts or {}
        self.covers = covers


class Kind:
    """Executable contract: check(**args) runs the real code, raises Broken.
    gen(rng, n) yields argument dicts; directed(): a fixed list tried first."""
    def __init__(self, name, check, gen, directed=(), n=None, weight=1.0):
        self.name, self.check, self.gen, self.directed, self.n, self.weight = name, check, gen, directed, n, weight


class Property:
    def __init__(self, pid, proofs, kinds, assumptions=(), trusted=(), not_proved=(), known=None, setup=None):
        self.id, self.proofs, self.kinds = pid, proofs, kinds
        self.assumptions, self.trusted, self.not_proved = list(assumptions), list(trusted), list(not_proved)
        self.known = known          # function() -> list of findings still present


def known_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    for l in open(p, encoding='utf8'):
        l = l.strip()
        if l.startswith('finding: property=%s ' % pid):
            out.append(l[len('finding: property=%s ' % pid):])
    return out


# --------------------------------------------------------------------------- running

def run_proof(modname, i, t_end=None):
    from . import context, values
    sys.setrecursionlimit(20000)
    mod = importlib.import_module(modname)
    p = mod.PROPERTY.proofs[i]
    t = time.time()
    try:
        budget = p.budget * (4 if TIER == 'thorough' else 1)
        if t_end is not None:
            budget = max(20, min(budget, t_end - t))
        r = context.explore(p.run, budget_s=budget, opts=dict(p.opts))
        left = budget if t_end is None else max(0, t_end - time.time())
        if r.failures and any(li.seen for li in r.loops.values()) and not p.opts.get('unroll_while') and left > 5:
            # The invariants found for a loop may be too weak for what the
            # code does.  Executing a short `while` loop to its end on every
            # path needs none; a loop that is not short leaves it as it was.
            u = context.explore(p.run, budget_s=min(60, left),
                                opts=dict(p.opts, unroll_while=12, stop_unsupported=True))
            if not u.failures and not u.unsupported:
                r = u
    except BaseException as e:
        return dict(name=p.name, error=''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:],
                    obl={}, failures=[], unsupported=['engine error: %r' % (e,)], paths=0, solver_s=0, queries=0,
                    reached={}, functions={}, wall=time.time() - t, rounds=0, lines=0)
    for f in r.failures:
        try:
            pickle.dumps(f['inputs'])
        except Exception:
            f['inputs'] = None
    return dict(name=p.name, obl=r.obl, failures=r.failures, unsupported=sorted(set(r.unsupported))[:10], paths=r.paths,
                solver_s=r.solver_s, queries=r.queries, reached=r.reached, functions=r.functions,
                wall=time.time() - t, rounds=getattr(r, 'rounds', 1), lines=len(r.lines), error=None,
                assumed=sorted(r.assumed))


def _alarm(*a):
    raise Hang()


def call_case(kind, args, limit=20):
    """None if the property holds on this case, else a description."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        kind.check(**args)
        return None
    except Broken as e:
        return str(e)
    except Hang:
        return 'no termination within %d s' % limit
    except MemoryError:
        return 'memory exhausted'
    except KeyboardInterrupt:
        raise
    except BaseException as e:
        return 'unexpected %s: %s\n%s' % (type(e).__name__, e, ''.join(
            traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def run_kind(modname, i, budget, n):
    import warnings
    warnings.simplefilter('ignore')
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(3000)
    mod = importlib.import_module(modname)
    k = mod.PROPERTY.kinds[i]
    rng = random.Random('%d/%s/%s' % (SEED, mod.PROPERTY.id, k.name))
    t0 = time.time()
    cnt, distinct, bad, samples = 0, set(), None, []

    def one(args):
        nonlocal cnt, bad
        cnt += 1
        key = repr(args)
        if len(distinct) < 200000:
            distinct.add(hash(key))
        if len(samples) < 3:
            samples.append(key[:300])
        d = call_case(k, args)
        if d is not None:
            bad = (args, d)
            return True
        return False
    dirs = k.directed() if callable(k.directed) else k.directed
    for args in dirs:
        if one(args):
            break
    else:
        if k.gen is not None:
            for args in k.gen(rng):
                if cnt >= n + len(list(dirs) if not isinstance(dirs, list) else dirs) or time.time() - t0 > budget:
                    break
                if one(args):
                    break
    return dict(kind=k.name, cases=cnt, distinct=len(distinct), bad=bad, samples=samples, wall=time.time() - t0)


def run_replay(modname, kindname, args):
    import warnings
    warnings.simplefilter('ignore')
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    mod = importlib.import_module(modname)
    k = next(k for k in mod.PROPERTY.kinds if k.name == kindname)
    return call_case(k, args)


def _child(conn, f, args):
    try:
        # output of the code under test must not mix with ours
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        r = ('ok', f(*args))
    except BaseException as e:
        r = ('err', ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-3000:])
    try:
        conn.send_bytes(pickle.dumps(r))
    except BaseException as e:
        conn.send_bytes(pickle.dumps(('err', 'result not picklable: %r' % (e,))))
    conn.close()
    os._exit(0)


def parallel(tasks, workers=8):
    """tasks: list of (key, f, args, timeout).  Yields {key: ('ok', r) | ('err', text)}."""
    ctx = mp.get_context('fork')
    pending = list(tasks)
    running = {}
    out = {}
    while pending or running:
        while pending and len(running) < workers:
            key, f, args, to = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, f, args), daemon=True)
            p.start()
            b.close()
            running[key] = (p, a, time.time() + to)
        mp.connection.wait([a for _, a, _ in running.values()], 0.2)
        for key, (p, a, end) in list(running.items()):
            if a.poll():
                try:
                    out[key] = pickle.loads(a.recv_bytes())
                except EOFError:
                    out[key] = ('err', 'worker died')
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[key]
            elif not p.is_alive():
                out[key] = ('err', 'worker died (exit %s)' % p.exitcode)
                del running[key]
            elif time.time() > end:
                p.kill()
                p.join()
                out[key] = ('timeout', 'no answer in time')
                del running[key]
    return out


import multiprocessing.connection  # noqa: E402


def modname(pid):
    return 'contracts.' + pid.lower()


def write_replay(pid, doc):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % pid)
    with open(path, 'w', encoding='utf8') as f:
        json.dump(doc, f, indent=1, default=repr)
    return path


def enc(args):
    return base64.b64encode(pickle.dumps(args)).decode()


def check(pid, tier=TIER):
    t0 = time.time()
    mod = importlib.import_module(modname(pid))
    P = mod.PROPERTY
    mn = modname(pid)
    thorough = tier == 'thorough'
    tasks = []
    t_end = t0 + (540 if not thorough else 4000)        # the proofs together
    for i, p in sorted(enumerate(P.proofs), key=lambda x: -x[1].budget):
        tasks.append((('proof', i), run_proof, (mn, i, t_end), p.budget * (4 if thorough else 1) + 30))
    for i, k in enumerate(P.kinds):
        b = (60 if thorough else 12) * k.weight
        n = int((k.n or 400) * (15 if thorough else 1))
        tasks.append((('kind', i), run_kind, (mn, i, b, n), b + 150))
    res = parallel(tasks)
    proofs, failures, unsup, vac = [], [], [], []
    tot = disch = 0
    solver = 0.0
    queries = 0
    functions = {}
    assumed = set()
    for i, p in enumerate(P.proofs):
        st, r = res[('proof', i)]
        if st != 'ok':
            unsup.append('%s: %s' % (p.name, r.strip().splitlines()[-1] if r.strip() else st))
            proofs.append(dict(name=p.name, status='not discharged', why=r[-500:]))
            continue
        if r['error']:
            unsup.append('%s: engine error: %s' % (p.name, r['error'].strip().splitlines()[-1]))
        ok = sum(o['ok'] for o in r['obl'].values())
        bad = sum(o['fail'] for o in r['obl'].values())
        unk = sum(o['unknown'] for o in r['obl'].values())
        tot += ok + bad + unk
        disch += ok
        solver += r['solver_s']
        queries += r['queries']
        assumed.update(r.get('assumed') or ())
        for f, how in r['functions'].items():
            if functions.get(f) != 'body':
                functions[f] = how
        for u in r['unsupported']:
            unsup.append('%s: %s' % (p.name, u))
        if unk:
            unsup.append('%s: %d obligations undecided by the solver' % (p.name, unk))
        if ok + bad + unk == 0 and not r['unsupported']:
            vac.append('%s: no obligation was generated' % p.name)
        for cov in p.covers:
            if not r['reached'].get(cov) and not r['unsupported'] and not bad:
                vac.append('%s: %r is unreachable' % (p.name, cov))
        for f in r['failures']:
            failures.append((p, f))
        proofs.append(dict(name=p.name, status='discharged' if ok and not bad and not unk and not r['unsupported'] else
                           'refuted' if bad else 'not discharged',
                           obligations={k: v for k, v in r['obl'].items()}, paths=r['paths'], rounds=r['rounds'],
                           solver_s=round(r['solver_s'], 3), wall_s=round(r['wall'], 2), unsupported=r['unsupported']))
    # concrete phase
    violation = None
    cases = distinct = 0
    kinds = []
    for i, k in enumerate(P.kinds):
        st, r = res[('kind', i)]
        if st != 'ok':
            kinds.append(dict(kind=k.name, error=r[-500:]))
            if st == 'timeout' and violation is None:
                violation = dict(kind=k.name, why='the real code did not answer (hang or endless growth)', args=None)
            else:
                unsup.append('cross-check %s: %s' % (k.name, r.strip().splitlines()[-1]))
            continue
        cases += r['cases']
        distinct += r['distinct']
        kinds.append(dict(kind=r['kind'], cases=r['cases'], distinct=r['distinct'], samples=r['samples'], wall_s=round(r['wall'], 2)))
        if r['bad'] is not None and violation is None:
            violation = dict(kind=k.name, args=r['bad'][0], why=r['bad'][1])
    # counterexamples of the solver, replayed against the real code
    obl_failed = []
    for p, f in failures:
        obl_failed.append('%s / %s' % (p.name, f['label']))
        if violation is None and p.kind and f['inputs'] is not None:
            try:
                inp = {k: v for k, v in f['inputs'].items() if not k.startswith('case:')}
                args = p.conv(inp) if p.conv else inp
            except BaseException:
                args = None
            if args is not None:
                rr = parallel([(0, run_replay, (mn, p.kind, args), 60)])[0]
                if rr[0] == 'ok' and rr[1] is not None:
                    violation = dict(kind=p.kind, args=args, why=rr[1], obligation='%s / %s' % (p.name, f['label']))
    found = known_findings(pid)
    # verdict
    rc = 0
    status = 'holds'
    for l in found:
        print('KNOWN-FINDING: property=%s %s' % (pid, l))
    lines = []
    if violation is not None:
        doc = dict(property=pid, kind=violation['kind'], args=repr(violation['args']), args_pickle=enc(violation['args']),
                   why=violation['why'], failed_obligations=obl_failed,
                   replay_cmd='cd /verif && python3-vt check.py --replay evidence/replay/%s.json' % pid)
        path = write_replay(pid, doc)
        print('failing input (%s): %s' % (violation['kind'], repr(violation['args'])[:1500]))
        print('  ' + str(violation['why'])[:1500])
        for o in obl_failed[:10]:
            print('  failed obligation: ' + o)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc, status = 1, 'violated'
    elif failures:
        doc = dict(property=pid, failed_obligations=obl_failed,
                   verifier_output=[dict(proof=p.name, **f) for p, f in failures][:20])
        path = write_replay(pid, doc)
        for o in sorted(set(obl_failed))[:10]:
            print('  failed obligation: ' + o)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        rc, status = 1, 'obligation refuted'
    elif vac:
        path = write_replay(pid, dict(property=pid, failed_obligations=vac,
                                      verifier_output='vacuous proof: %s' % '; '.join(vac)))
        for v in vac:
            print('  vacuous: ' + v)
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        rc, status = 1, 'vacuous proof'
    elif unsup:
        status = 'holds (part bounded)'
    ev = dict(property=pid, tier=tier, seed=SEED, level=getattr(mod, 'LEVEL', 'proof'),
              coverage=dict(
                  obligations=tot, discharged=disch, explanation='see proofs and bounded_crosscheck',
                  checker_cmd='python3-vt check.py %s   (pyvc: obligations generated from %s, discharged by z3 %s)' % (pid, REPO, z3v()),
                  trusted_base=['pyvc: the symbolic semantics of Python in /verif/pyvc', 'z3 %s' % z3v(),
                                'the specification functions in /verif/contracts'] + P.trusted,
                  functions_under_contract={f: h for f, h in sorted(functions.items())},
                  proofs=proofs, solver_s=round(solver, 2), solver_queries=queries,
                  back_end='z3 (quantifier-free linear integer arithmetic with uninterpreted functions)',
                  undischarged=unsup, refuted=obl_failed,
                  bounded_crosscheck=dict(label='bounded; never counted as proved', evaluations=cases,
                                          distinct=distinct, kinds=kinds),
                  not_under_contract=P.not_proved, status=status, known_findings=found),
              assumptions=P.assumptions + sorted(assumed), wall_s=round(time.time() - t0, 2), violations=int(rc == 1))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', '%s.json' % pid), 'w', encoding='utf8') as f:
        json.dump(ev, f, indent=1, default=repr)
    print('%s: %s; %d of %d obligations discharged in %d contracts (%.1f s solver), %d concrete cases; %.1f s' % (
        pid, status, disch, tot, len(P.proofs), solver, cases, time.time() - t0))
    for u in unsup[:12]:
        print('  not discharged (bounded stand-in applies): ' + u)
    return rc


def z3v():
    import z3
    return z3.get_version_string()


def replay(path):
    doc = json.load(open(path, encoding='utf8'))
    if 'args_pickle' not in doc:
        print(json.dumps(doc, indent=1)[:5000])
        return 1
    pid = doc['property']
    r = run_replay(modname(pid), doc['kind'], pickle.loads(base64.b64decode(doc['args_pickle'])))
    print('property %s: %s' % (pid, 'holds on this input' if r is None else r))
    return 0 if r is None else 1

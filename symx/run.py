"""Runner:  run.py <ID> [--replay FILE] [--only NAME]

For every harness of the property: explore all paths symbolically (solver decides), replay every
counterexample on the unpatched code, then run the harness on a few concrete inputs on the unpatched
code to validate the encoding.
"""
import fnmatch, sys, os, json, time, random, traceback, importlib, multiprocessing, collections, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
os.environ.setdefault('OMP_NUM_THREADS', '1')
import io, contextlib

Result = dict


class Harness:
    def __init__(self, name, fn, tier='quick', samples=2, hints=None, sampler=None, max_paths=400,
                 time_s=120, needs_checks=True, bounds='', validate=True, box=None, **params):
        self.name, self.fn, self.tier, self.samples = name, fn, tier, samples
        self.hints, self.sampler, self.max_paths, self.time_s = hints, sampler, max_paths, time_s
        self.bounds, self.validate, self.params, self.box = bounds, validate, params, box


def _quiet():
    return contextlib.redirect_stdout(io.StringIO())


def sym_worker(check_name, hname, q):
    """runs in a forked process"""
    import symx.core as core
    from symx import harness as H
    res = dict(name=hname, status='ok', stats={}, violations=[], notes=[], functions=[])
    t0 = time.time()
    try:
        chk = importlib.import_module('checks.' + check_name)
        hs = {h.name: h for h in chk.HARNESSES}[hname]
        funcs = set()
        mon = sys.monitoring
        TOOL = 3
        repo = os.path.realpath(H.REPO)
        pk = {}

        def on_start(code, off):
            f = code.co_filename
            if f.startswith(repo):
                funcs.add('%s:%s' % (os.path.relpath(f, repo), code.co_qualname))
            return mon.DISABLE
        mon.use_tool_id(TOOL, 'symx')
        mon.register_callback(TOOL, mon.events.PY_START, on_start)
        mon.set_events(TOOL, mon.events.PY_START)
        E = core.E
        E.reset_all()
        import z3
        mrg = None
        if getattr(hs, 'merge', None) or getattr(chk, 'MERGE', None):
            from symx import merge as mrg
            for m in chk.MERGE:
                mrg.install(m)
            E.branch_timeout = 15000
        restarts = 0
        work = [[]]
        n = 0
        reached = 0
        asserts = 0
        witness = 0
        incon = []
        viols = []
        deadline = t0 + hs.time_s
        while work:
            prefix = work.pop()
            n += 1
            if n > hs.max_paths:
                res['notes'].append('path bound %d reached' % hs.max_paths)
                res['status'] = 'incomplete'
                break
            if time.time() > deadline:
                res['notes'].append('time bound %ss reached after %d paths' % (hs.time_s, n))
                res['status'] = 'incomplete'
                break
            E.start_path(prefix)
            h = H.SymH()
            h.merge = mrg
            if hs.box:
                h.box = hs.box
            h.inconclusive = []
            E.hints = []
            if hs.hints:
                E.hints = [mk_hint(hs.hints, k) for k in range(4)]
            H.patch_modules(h)
            ended = None
            redo = False
            try:
                try:
                    with _quiet():
                        hs.fn(h, **hs.params)
                except Exception as e:
                    if mrg is not None and mrg.GUARDS and not isinstance(e, core.Budget):
                        mrg.fail('%s: %s' % (type(e).__name__, e))
                    raise
                except core.PathEnd:
                    if mrg is not None and mrg.GUARDS:
                        mrg.fail('path end')
                    raise
                ended = 'done'
            except core.PathEnd:
                ended = 'assumed-away'
            except H.Viol as v:
                ended = 'viol'
                if v.values is None:
                    m = path_model(E)
                    v.values = core.model_inputs(m) if m is not None else None
                    if m is None and path_infeasible(E):
                        ended = 'infeasible'
                if ended == 'viol':
                    viols.append(dict(label=v.label, values=v.values, kind=v.kind, note=v.note))
            except H.Restart as e:
                redo = True
            except core.Unsupported as e:
                ended = 'unsupported'
                res['notes'].append('unsupported: %s' % e + ' @ ' + where(e, repo))
                res['status'] = 'unsupported'
            except core.Budget as e:
                res['notes'].append(str(e))
                res['status'] = 'incomplete'
                ended = 'budget'
            except Exception as e:
                ended = 'exception'
                m = path_model(E)
                if m is None and path_infeasible(E):
                    ended = 'infeasible'
                else:
                    viols.append(dict(label='exception', kind='exception', note='%s: %s @ %s' % (type(e).__name__, str(e)[:300], where(e, repo)),
                                  values=core.model_inputs(m) if m is not None else None,
                                  tb=traceback.format_exc()[-1500:]))
            finally:
                E.active = False
                h.undo()
            if redo:
                # a branch that cannot be merged: explore again from the start with that branch forked
                restarts += 1
                if restarts > 60:
                    res['notes'].append('too many restarts')
                    res['status'] = 'incomplete'
                    break
                work, n, reached, asserts, witness, incon, viols = [[]], 0, 0, 0, 0, [], []
                E.stats['paths'] = 0
                continue
            E.stats['paths'] += 1
            asserts += h.n_asserts
            incon += h.inconclusive
            if ended == 'done' and h.n_asserts:
                reached += 1
                if witness == 0 or reached <= 8:
                    E.active = True
                    ok = False
                    if E.hints and E.sat_by_hint(z3.BoolVal(True)) is not None:
                        ok = True
                    else:
                        r = E.check(timeout=5000)
                        ok = r == z3.sat
                        for k in range(6 if r == z3.unknown else 0):
                            c = mk_hint(hs.sampler or (lambda rng: {}), 50 + k)()
                            if c is not None and E.check(*c, timeout=2000) == z3.sat:
                                ok = True
                                break
                    E.active = False
                    witness += ok
            work.extend(E.next_prefixes())
            if len(viols) >= 6:
                res['notes'].append('stopped after 6 counterexample candidates')
                break
        res['violations'] = viols
        st = dict(E.stats)
        st.update(asserts=asserts, reached=reached, witness=witness)
        res['stats'] = st
        res['inconclusive'] = incon
        res['functions'] = sorted(f for f in funcs if '<module>' not in f)
        res['wall'] = time.time() - t0
    except BaseException as e:
        res['status'] = 'error'
        res['notes'].append('%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-2000:]))
    q.put(res)


def mk_hint(hints, k):
    import z3
    from symx import core
    A = core.A

    def h():
        rng = random.Random(1000 * int(os.environ.get('VERIF_SEED', '1')) + k)
        try:
            vals = hints(rng)
        except StopIteration:
            return None
        cs = []
        for i, name in A.inputs:
            v = vals.get(name)
            kd = A.kind[i]
            if v is None:
                if kd == 'b':
                    continue
                elif kd == 'r':
                    v = rng.randint(-3, 3) / 2
                else:
                    v = complex(rng.randint(-3, 3) / 2, rng.randint(-3, 3) / 2)
            if kd == 'b':
                cs.append(A.zv[i] == bool(v))
            elif kd == 'r':
                cs.append(A.zv[i] == core._rat(float(v)))
            else:
                v = complex(*v) if isinstance(v, (list, tuple)) else complex(v)
                cs += [A.zv[i][0] == core._rat(v.real), A.zv[i][1] == core._rat(v.imag)]
        return cs
    return h


def where(e, repo):
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if f.filename.startswith(repo)]
    f = fr[-1] if fr else (tb[-1] if tb else None)
    return '%s:%s' % (os.path.basename(f.filename), f.lineno) if f else '?'


def path_model(E):
    import z3
    E.active = True
    try:
        if E.hints:
            m = E.sat_by_hint(z3.BoolVal(True))
            if m is not None:
                return m
        if E.check(timeout=8000) == z3.sat:
            return E.solver.model()
    finally:
        E.active = False
    return None


def path_infeasible(E):
    # a branch the solver could not decide in time was kept; such a path is dropped only when proved infeasible
    import z3
    E.active = True
    try:
        return E.check(timeout=60000) == z3.unsat
    finally:
        E.active = False


def conc_run(hs, values, rng, tol=2e-6):
    """one concrete run on the unpatched code; returns (outcome, details, values)"""
    from symx import harness as H
    h = H.ConcH(values, rng, tol)
    import numpy as np
    random.seed(0)
    np.random.seed(0)
    try:
        with _quiet(), contextlib.redirect_stderr(io.StringIO()):
            hs.fn(h, **hs.params)
    except H.AssumptionFailed:
        return 'assumption', [], h.values
    except Exception as e:
        h.failures.append(('exception', '%s: %s @ %s' % (type(e).__name__, str(e)[:300], where(e, os.path.realpath(H.REPO)))))
        return 'fail', h.failures, h.values
    finally:
        h.undo()
    if h.failures:
        return 'fail', h.failures, h.values
    return 'pass', [h.checked], h.values


def conc_worker(check_name, jobs, q):
    """jobs: list of (hname, values or None, seed)"""
    out = []
    try:
        chk = importlib.import_module('checks.' + check_name)
        hs_all = {h.name: h for h in chk.HARNESSES}
        for hname, values, seed in jobs:
            hs = hs_all[hname]
            rng = None
            vals = values
            if values is None:
                rng = random.Random(seed)
                vals = {}
                if hs.sampler or hs.hints:
                    try:
                        vals = dict((hs.sampler or hs.hints)(rng))
                    except StopIteration:
                        vals = {}
            o, d, v = conc_run(hs, vals, rng)
            out.append((hname, o, [list(map(str, x)) if isinstance(x, tuple) else x for x in d], v))
        q.put(out)
    except BaseException as e:
        q.put(out + [(jobs[len(out)][0] if len(out) < len(jobs) else '?', 'error',
                      [traceback.format_exc()[-1500:]], {})])


def run_procs(tasks, nproc, timeout):
    """tasks: list of (target, args); returns list of results (None on failure)"""
    ctx = multiprocessing.get_context('fork')
    res = [None] * len(tasks)
    pend = list(range(len(tasks)))
    live = {}
    while pend or live:
        while pend and len(live) < nproc:
            i = pend.pop(0)
            r, w = ctx.Pipe(duplex=False)

            class Q:
                def __init__(self, c):
                    self.c = c

                def put(self, o):
                    self.c.send(o)
            p = ctx.Process(target=tasks[i][0], args=tuple(tasks[i][1]) + (Q(w),))
            p.start()
            w.close()
            live[i] = (p, r, time.time())
        done = multiprocessing.connection.wait([v[1] for v in live.values()], timeout=0.5)
        for i in list(live):
            p, r, t = live[i]
            if r in done:
                try:
                    res[i] = r.recv()
                except EOFError:
                    res[i] = None
                p.join(5)
                if p.is_alive():
                    p.kill()
                r.close()
                del live[i]
            elif time.time() - t > timeout:
                p.kill()
                p.join()
                r.close()
                del live[i]
    return res


def main():
    import multiprocessing.connection
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args:
        tier = 'thorough'
    only = args[args.index('--only') + 1] if '--only' in args else None
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    from symx import harness as H
    H.load_mods()
    check_name = pid.lower()
    chk = importlib.import_module('checks.' + check_name)
    if '--replay' in args:
        data = json.load(open(args[args.index('--replay') + 1]))
        hs = {h.name: h for h in chk.HARNESSES}[data['harness']]
        o, d, v = conc_run(hs, data['values'], None)
        print(o, d)
        sys.exit(1 if o == 'fail' else 0)
    hs = [h for h in chk.HARNESSES if (tier == 'thorough' or h.tier == 'quick') and (only is None or only in h.name)]
    nproc = int(os.environ.get('VERIF_JOBS', '8'))
    cap = 800 if tier == 'quick' else 10000
    results = run_procs([(sym_worker, (check_name, h.name)) for h in hs], nproc, cap)
    for h, r in zip(hs, results):
        if r is None:
            results[results.index(r)] = dict(name=h.name, status='error', stats={}, violations=[], inconclusive=[],
                                            notes=['worker died or timed out'], functions=[])
    # replay counterexamples on unpatched code
    jobs = []
    for r in results:
        for v in r['violations']:
            if v['values'] is not None:
                jobs.append((r['name'], v['values'], 0, v))
    rep = run_procs([(conc_worker, (check_name, [j[:3]])) for j in jobs], nproc, 300)
    known = load_known(pid)
    confirmed, unconfirmed, knownhit = [], [], {}
    for j, out in zip(jobs, rep):
        o = out[0] if out else None
        if o and o[1] == 'fail':
            rec = dict(harness=j[0], label=j[3]['label'], values=j[1], failures=o[2], symbolic=j[3])
            k = match_known(known, rec)
            if k is not None:
                knownhit.setdefault(k['id'], k)
            else:
                confirmed.append(rec)
        else:
            unconfirmed.append((j[0], j[3]['label'], j[3].get('note', ''), o[1:3] if o else None, j[1], j[3].get('tb', '')))
    for r in results:
        for v in r['violations']:
            if v['values'] is None:
                unconfirmed.append((r['name'], v['label'], v.get('note', ''), 'no model', None, v.get('tb', '')))
    # encoding validation on concrete inputs
    vjobs = []
    for i, h in enumerate(hs):
        if h.validate:
            for k in range(h.samples if tier == 'quick' else 4 * h.samples):
                vjobs.append((h.name, None, seed * 7919 + 31 * i + k))
    chunks = [vjobs[i::nproc] for i in range(nproc) if vjobs[i::nproc]]
    vout = run_procs([(conc_worker, (check_name, c)) for c in chunks], nproc, cap)
    vpass = vfail = vassume = 0
    samples = []
    verr = []
    have = {c['harness'] for c in confirmed}
    for c, out in zip(chunks, vout):
        for hname, o, d, v in (out or [(c[0][0], 'error', ['validation worker died'], {})]):
            if o == 'pass':
                vpass += 1
                if len(samples) < 3:
                    samples.append(dict(harness=hname, inputs={k: v[k] for k in list(v)[:12]}, result='holds'))
            elif o == 'assumption':
                vassume += 1
            elif o == 'fail':
                vfail += 1
                rec = dict(harness=hname, label=d[0][0], values=v, failures=d,
                           symbolic=dict(note='disagreement found while validating the encoding on the real code'))
                k = match_known(known, rec)
                if k is not None:
                    knownhit.setdefault(k['id'], k)
                else:
                    confirmed.append(rec)
            else:
                verr.append((hname, d))
    # verdict
    problems = []
    for r in results:
        if r['status'] != 'ok':
            problems.append('%s: %s %s' % (r['name'], r['status'], '; '.join(r['notes'][:3])))
        if r.get('inconclusive'):
            problems.append('%s: solver inconclusive on %s' % (r['name'], r['inconclusive'][:4]))
        if r['status'] == 'ok' and not r['violations'] and r['stats'].get('witness', 0) == 0:
            problems.append('%s: vacuous (no satisfiable path reaches an assertion)' % r['name'])
    for u in unconfirmed:
        problems.append('%s: counterexample for %r (%s) does not reproduce: %s %s' % (u[0], u[1], u[2], u[3], str(u[5])[-900:]))
    for v in verr:
        problems.append('validation error %s %s' % v)
    tot = collections.Counter()
    for r in results:
        for k, v in r['stats'].items():
            tot[k] += v
    funcs = sorted(set(f for r in results for f in r['functions']))
    EV = os.path.join(os.environ.get('VERIF_EVID', HERE), 'evidence')
    os.makedirs(os.path.join(EV, 'replay'), exist_ok=True)
    level = getattr(chk, 'LEVEL', 'model_checking')
    cov = dict(
        states=int(tot['paths']), transitions=int(tot['forks'] + tot['forced']) + int(tot['paths']),
        traces_validated_against_impl=vpass, samples=samples or [dict(note='no concrete sample ran')],
        explanation=getattr(chk, 'EXPLANATION', ''),
        technique='symbolic execution of the real Python functions (path forking), z3 deciding branches and assertions',
        harnesses={r['name']: dict(status=r['status'], paths=r['stats'].get('paths', 0), reached=r['stats'].get('reached', 0),
                                   reachability_witness=r['stats'].get('witness', 0),
                                   assertions=r['stats'].get('asserts', 0), queries=r['stats'].get('branch_queries', 0)
                                   + r['stats'].get('assert_queries', 0),
                                   solver_s=round(r['stats'].get('solver_s', 0), 3), wall_s=round(r.get('wall', 0), 2),
                                   bounds=h.bounds, inconclusive=r.get('inconclusive', []), notes=r['notes'][:3])
                   for r, h in zip(results, hs)},
        functions_encoded=funcs, queries_discharged=int(tot['branch_queries'] + tot['assert_queries']),
        assertion_queries=int(tot['assert_queries']), assertions=int(tot['asserts']), solver_s=round(tot['solver_s'], 2),
        bounds=getattr(chk, 'BOUNDS', ''), stubs=getattr(chk, 'STUBS', []),
        counterexample_candidates=len(jobs), counterexamples_confirmed=len(confirmed),
        counterexamples_not_reproduced=len(unconfirmed), validation_runs=dict(passed=vpass, failed=vfail, outside_assumptions=vassume),
        known_findings_hit=sorted(knownhit), undecided=problems)
    ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=level, coverage=cov,
              assumptions=getattr(chk, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    if only is None:
        json.dump(ev, open(os.path.join(EV, pid + '.json'), 'w'), indent=1, default=str)
    for k in known:
        if k['id'] in knownhit:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for r, h in zip(results, hs):
        st = r['stats']
        if '-v' in args:
            print('%-40s %-11s paths=%-4s asserts=%-4s q=%-5s solver=%.2fs wall=%.2fs wit=%s %s' % (
                r['name'], r['status'], st.get('paths'), st.get('asserts'),
                st.get('branch_queries', 0) + st.get('assert_queries', 0), st.get('solver_s', 0), r.get('wall', 0),
                st.get('witness'), ' | '.join(r['notes'][:2])))
    print('%s %s: %d harnesses, %d paths, %d assertions, %d queries, solver %.1fs, %d concrete validations, wall %.1fs' % (
        pid, tier, len(hs), tot['paths'], tot['asserts'], tot['branch_queries'] + tot['assert_queries'], tot['solver_s'],
        vpass, time.time() - t0))
    if confirmed:
        seen = set()
        for i, c in enumerate(confirmed):
            key = (c['harness'], c['label'])
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(EV, 'replay', '%s_%d.json' % (pid, i))
            json.dump(dict(property=pid, harness=c['harness'], label=c['label'], values=c['values'], failures=c['failures'],
                           symbolic={k: v for k, v in c['symbolic'].items() if k != 'values'},
                           how='/verif/run.sh %s --replay %s' % (pid, path)), open(path, 'w'), indent=1, default=str)
            print('  harness %s, assertion %r: %s %s' % (c['harness'], c['label'], c['failures'][:1], c['symbolic'].get('note', '')))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    if problems:
        for p in problems:
            print('UNDECIDED %s' % p)
        # what could not be decided is reported here and in the evidence; with --strict (development) or when
        # nothing at all was decided the check gives no answer
        decided = [r for r in results if r['status'] == 'ok' and not r.get('inconclusive') and r['stats'].get('witness', 0)]
        if '--strict' in args or not decided:
            sys.exit(2)
    sys.exit(0)


def load_known(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == pid]


def match_known(known, rec):
    for k in known:
        if not fnmatch.fnmatch(rec['harness'], k['harness']):
            continue
        if k.get('label') is not None and k['label'] != rec['label']:
            continue
        vals = k.get('values')
        if vals and any(rec['values'].get(n) != v for n, v in vals.items()):
            continue
        if k.get('failure') and not any(k['failure'] in str(f) for f in rec['failures']):
            continue
        return k
    return None


if __name__ == '__main__':
    import multiprocessing.connection
    main()

#!/opt/venv/bin/python
"""check.py <PROPERTY> [--tier quick|thorough] : decides one property on the current tree of /repo.
check.py --replay FILE            : re-runs a recorded failing input against the current tree.
exit 0: held; exit 1: a line 'VIOLATION property=<id> replay=<path>[ no-failing-input-found]'."""
import sys, os, json, time, shutil, tempfile, atexit, traceback, multiprocessing as mp, importlib, glob, warnings
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
warnings.simplefilter("ignore")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def scratch():
    d = tempfile.mkdtemp(prefix="qv_")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    from pyvc import scratch as sc
    sc.make(REPO, d)
    return d


def load(prop):
    from pyvc import spec
    for m in sorted(glob.glob(os.path.join(HERE, "specs", "*.py"))):
        n = os.path.basename(m)[:-3]
        if n == "__init__":
            continue
        if prop is not None and not module_serves(m, prop):
            continue
        importlib.import_module("specs." + n)
    return [c for c in spec.REGISTRY if prop is None or c.prop == prop]


def module_serves(path, prop):
    return ('"%s"' % prop) in open(path).read()


def jlog(log):
    return {k: (v if isinstance(v, (int, float, str, bool)) else repr(v)) for k, v in log.items()}


def case_str(case):
    return ", ".join("%s=%s" % (k, getattr(v, '__name__', v)) for k, v in case.items())


def work(con, case, ci, root, seed, tier, q):
    """one contract and case, in its own process"""
    from pyvc import spec, prover as P, terms as T
    import z3
    t0 = time.time()
    res = dict(contract=con.name, case=case_str(case), ci=ci, kind=con.kind, obligations=0, discharged=0, failed=[], concrete=0, rejected=0,
               fail=None, status='ok', loops=[], functions={}, assumed={}, by={}, vac=None)
    thorough = tier == "thorough"

    def trials(n, start=0, forced=None, tmax=60.0):
        t1 = time.time()
        for t in range(start, start + n):
            st, info, log = spec.run_concrete(con, case, seed, t, big=False, forced=forced)
            if st == 'ok':
                res['concrete'] += 1
            elif st == 'reject':
                res['rejected'] += 1
            else:
                res['fail'] = dict(info=info[:3000], log=jlog(log), trial=t, seed=seed, forced=forced)
                return True
            if time.time() - t1 > tmax:
                break
        return False
    try:
        nt = con.trials * (15 if thorough else 1)
        if trials(nt, tmax=300.0 if thorough else 60.0):
            res['status'] = 'violated'
            q.put(res)
            return
        if con.kind == 'bounded':
            if res['concrete'] == 0:
                res['status'] = 'undecided'
                res['failed'].append(dict(label="no concrete trial satisfied the precondition", why="vacuous"))
            q.put(res)
            return
        models = []
        try:
            it, paths, S = spec.run_symbolic(con, case, root)
            res['functions'] = dict(it.seen_funcs)
            res['assumed'] = dict(it.assumed)
            res['loops'] = [dict(func=f, line=l, omp=o, kind=k, how=h) for f, l, o, k, h in it.loops]
            seen = set()
            tmo = con.timeout * (3 if thorough else 1)
            for o in it.obls:
                key = (o.goal.get_id(), tuple(f.get_id() for f in o.facts))
                if key in seen:
                    continue
                seen.add(key)
                res['obligations'] += 1
                h = P.prove(P.Ctx(o.facts, o.schemas), o.goal, tmo)
                if h is None:
                    m = None
                    try:
                        m = P.model_of(P.Ctx(o.facts, o.schemas), o.goal, 2000)
                    except Exception:
                        pass
                    ms = {}
                    if m is not None:
                        for d in m.decls():
                            if d.arity() == 0 and z3.is_int_value(m[d]):
                                ms[d.name()] = m[d].as_long()
                        models.append(ms)
                    res['failed'].append(dict(label=o.label, why="refuted" if m is not None else "unknown", goal=str(o.goal)[:1500],
                                              facts=[str(f)[:300] for f in o.facts][:40], model=str(m)[:1500] if m is not None else None))
                    if len(res['failed']) > 6:
                        break
                else:
                    res['discharged'] += 1
            if paths:
                st = {P.satisfiable(P.Ctx(f, [])) for _, f in paths}
                res['vac'] = sorted(st)
                if st == {'unsat'}:
                    res['failed'].append(dict(label="precondition is satisfiable", why="vacuous contract"))
            else:
                res['failed'].append(dict(label="some path reaches the end of the contract", why="every path raises"))
            if res['obligations'] == 0:
                res['failed'].append(dict(label="contract generates obligations", why="no obligation was generated"))
        except T.Unsupported as ex:
            res['failed'].append(dict(label="code is inside the verified fragment", why="unsupported: %s" % ex, trace=traceback.format_exc()[-1500:]))
        except RecursionError as ex:
            res['failed'].append(dict(label="verifier ran", why="recursion"))
        except Exception as ex:
            res['failed'].append(dict(label="verifier ran", why="%s: %s" % (type(ex).__name__, ex), trace=traceback.format_exc()[-2500:]))
        res['by'] = dict(P.STATS.by)
        res['z3_time'], res['cvc5_time'], res['queries'] = P.STATS.z3_time, P.STATS.cvc5_time, P.STATS.queries
        if res['failed']:
            res['status'] = 'undecided'
            bad = False
            for k, ms in enumerate(models[:4]):
                if ms and trials(40, 10 ** 6 + 1000 * k, forced=ms, tmax=20.0):
                    bad = True
                    break
            if not bad:
                bad = trials(600, 2 * 10 ** 6, tmax=45.0)
            if bad:
                res['status'] = 'violated'
    except Exception as ex:
        res['status'] = 'undecided'
        res['failed'].append(dict(label="verifier ran", why="%s: %s" % (type(ex).__name__, ex), trace=traceback.format_exc()[-2500:]))
    res['wall'] = time.time() - t0
    q.put(res)


def schedule(tasks, root, seed, tier, jobs=8):
    """run the tasks in their own processes, at most jobs at a time"""
    ctx = mp.get_context("fork")
    pend = list(tasks)
    run = []
    out = []
    while pend or run:
        while pend and len(run) < jobs:
            con, ci, case = pend.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=work, args=(con, case, ci, root, seed, tier, q))
            p.start()
            run.append((p, q, con, ci, case, time.time()))
        time.sleep(0.03)
        nr = []
        for r in run:
            p, q, con, ci, case, t = r
            got = None
            if not q.empty():
                got = q.get()
            elif not p.is_alive():
                if not q.empty():
                    got = q.get()
                else:
                    got = dict(contract=con.name, case=case_str(case), ci=ci, kind=con.kind, obligations=1, discharged=0, concrete=0, rejected=0, fail=None,
                               status='undecided', failed=[dict(label="verifier ran", why="worker died with code %s" % p.exitcode)], loops=[], functions={}, assumed={}, by={})
            elif time.time() - t > con.budget * (4 if tier == "thorough" else 1):
                p.kill()
                got = dict(contract=con.name, case=case_str(case), ci=ci, kind=con.kind, obligations=1, discharged=0, concrete=0, rejected=0, fail=None,
                           status='undecided', failed=[dict(label="verifier ran", why="time budget of %ds exhausted" % con.budget)], loops=[], functions={}, assumed={}, by={})
            if got is None:
                nr.append(r)
            else:
                out.append(got)
                p.join(1)
                if p.is_alive():
                    p.kill()
        run = nr
    return out


def known(prop):
    f = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(f):
        return []
    return [e for e in json.load(open(f)) if e.get("property") == prop and e.get("kind") == "known"]


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, HERE)
    root = scratch()
    sys.path.insert(0, root)
    if a[0] == "--replay":
        return replay(a[1], root)
    prop = a[0]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    import pyvc
    try:
        cons = load(prop)
    except Exception:
        rp = write_replay(prop, dict(property=prop, label="the package imports", output=traceback.format_exc()))
        evidence(prop, tier, [], t0, 1, [])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        return 1
    tasks = [(c, i, case) for c in cons if tier == "thorough" or not c.thorough for i, case in enumerate(c.cases)
             if tier == "thorough" or not case.get('thorough')]
    tasks.sort(key=lambda t: -t[0].budget)
    res = schedule(tasks, root, seed, tier)
    order = {(c.name, i): k for k, (c, i, _) in enumerate(tasks)}
    res.sort(key=lambda r: order[(r['contract'], r['ci'])])
    finds = probe_findings(prop)
    viol = [r for r in res if r['status'] == 'violated']
    und = [r for r in res if r['status'] == 'undecided']
    for r in res:
        print("%-44s %-34s %-9s obligations %3d/%3d concrete %4d  %.1fs" % (r['contract'], r['case'][:34], r['status'], r['discharged'], r['obligations'],
                                                                        r['concrete'], r.get('wall', 0)))
        for f in r['failed'][:4]:
            print("      not discharged: %s (%s)" % (f['label'], str(f['why'])[:300]))
        if r['fail']:
            print("      failing input: %s" % r['fail']['info'][:500])
    for l in finds:
        print(l)
    code = 0
    nv = 0
    if not res:
        print("no contract for %s" % prop)
        und = [dict(contract="-", case="", failed=[dict(label="contracts exist", why="none")])]
    if viol:
        r = viol[0]
        rp = write_replay(prop, dict(property=prop, contract=r['contract'], case_index=r['ci'], case=r['case'], failing_input=r['fail'],
                                     failed_obligations=r['failed'], others=[(x['contract'], x['case'], x['fail']['info']) for x in viol[1:]],
                                     how="%s/check.py --replay <this file>" % HERE))
        code, nv = 1, len(viol)
        line = "VIOLATION property=%s replay=%s" % (prop, rp)
    elif und:
        r = und[0]
        rp = write_replay(prop, dict(property=prop, contract=r['contract'], case=r['case'], failed_obligations=r['failed'],
                                     others=[(x['contract'], x['case'], [f['label'] for f in x['failed']]) for x in und[1:]]))
        code, nv = 1, len(und)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp)
    evidence(prop, tier, res, t0, nv, finds)
    if code:
        print(line)
    else:
        print("property %s: held (%d obligations discharged, %d concrete evaluations, %.1fs)" % (prop, sum(r['discharged'] for r in res),
                                                                                          sum(r['concrete'] for r in res), time.time() - t0))
    return code


def probe_findings(prop):
    """a known finding is printed while its input still fails"""
    lines = []
    for e in known(prop):
        ns = {}
        try:
            exec(e["probe"], ns)
            bad = ns["probe"]()
        except Exception as ex:
            bad = "raises %s: %s" % (type(ex).__name__, ex)
        if bad:
            lines.append("KNOWN-FINDING: property=%s %s" % (prop, e["what"]))
    return lines


def write_replay(prop, d):
    p = os.path.join(HERE, "replays", "%s.json" % prop)
    with open(p, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return p


def replay(path, root):
    from pyvc import spec
    d = json.load(open(path))
    if not d.get("failing_input"):
        print(json.dumps(d, indent=1))
        print("no failing input recorded")
        return 0
    cons = load(d["property"])
    c = [x for x in cons if x.name == d["contract"]][0]
    f = d["failing_input"]
    st, info, log = spec.run_concrete(c, c.cases[d["case_index"]], f["seed"], f["trial"], forced=f.get("forced"))
    print(st, info)
    for k, v in (log or {}).items():
        print("  ", k, "=", v)
    return 1 if st == 'fail' else 0


def evidence(prop, tier, res, t0, nviol, finds):
    pr = [r for r in res if r['kind'] == 'proof']
    bd = [r for r in res if r['kind'] != 'proof']
    by, fn, tr = {}, {}, {}
    for r in pr:
        for k, v in r.get('by', {}).items():
            by[k] = by.get(k, 0) + v
        fn.update(r.get('functions', {}))
        for k, v in r.get('assumed', {}).items():
            tr[k] = tr.get(k, 0) + v
    nob, ndis = sum(r['obligations'] for r in pr), sum(r['discharged'] for r in pr)
    loops = sorted({(l['func'], l['line'], l['omp'] or '', l['kind']) for r in pr for l in r.get('loops', [])})
    cov = dict(obligations=nob, discharged=ndis, checker_cmd="%s/check.py %s --tier %s" % (HERE, prop, tier),
               trusted_base=["pyvc: symbolic interpreter, loop rules and prover in /verif/pyvc (Python)", "z3 5.3.2", "cvc5 1.4.2",
                             "CPython ast module", "contracts on external functions: " + ", ".join("%s (%d uses)" % kv for kv in sorted(tr.items()))],
               functions_under_contract=sorted("%s:%d" % kv for kv in fn.items()),
               discharged_by=by, z3_seconds=round(sum(r.get('z3_time', 0) for r in pr), 2), cvc5_seconds=round(sum(r.get('cvc5_time', 0) for r in pr), 2),
               solver_queries=sum(r.get('queries', 0) for r in pr),
               loops=["%s:%s %s %s" % l for l in loops],
               contracts=[dict(name=r['contract'], case=r['case'], kind=r['kind'], obligations=r['obligations'], discharged=r['discharged'],
                               concrete_evaluations=r['concrete'], rejected=r['rejected'], preconditions=r.get('vac'), status=r['status'],
                               not_discharged=[f['label'] for f in r['failed']], wall_s=round(r.get('wall', 0), 2)) for r in res],
               bounded_standins=[dict(name=r['contract'], case=r['case'], trials=r['concrete']) for r in bd],
               concrete_replays=sum(r['concrete'] for r in res), known_findings=finds)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level="proof", coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 2), violations=nviol)
    lv = level_of(prop)
    if lv:
        ev['level'] = lv
    with open(os.path.join(HERE, "evidence", "%s.json" % prop), "w") as f:
        json.dump(ev, f, indent=1, default=str)


ASSUME = ["machine integers and floats are treated as mathematical integers and reals (no overflow, rounding, nan or inf, except that inf literals compare above every real); rounding is only covered by the concrete replays",
          "numpy functions follow the contracts in pyvc/npmodels.py and pyvc/fftmodel.py",
          "the pythran compiler preserves the meaning of the Python source it compiles",
          "Python-level dispatch (classes, closures, defaults) is taken from the imported scratch copy of the same files"]


def level_of(prop):
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        return None


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)

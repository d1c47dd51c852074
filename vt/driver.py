"""Check driver: proves every contract of a property on /repo's current tree, cross-checks on CPython,
replays counter-models, reports.  Exit codes: 0 held, 1 violation (line printed)."""
import os, sys, time, json, subprocess, multiprocessing as mp, hashlib, tempfile, shutil, traceback, signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin/python"
REPO = os.environ.get("VT_REPO", "/repo")
SOLVER_RETRY = 2


def concrete_env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", NUMBA_THREADING_LAYER="workqueue", NUMBA_NUM_THREADS="2",
             NUMBA_CACHE_DIR=e.get("NUMBA_CACHE_DIR", "/tmp/vt_numba_%d" % os.getuid()), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
             VT_REPO=REPO, PYTHONHASHSEED="0", PYTHONPATH="")
    return e


class Concrete:
    """concrete job running in the background under the repository's interpreter"""

    def __init__(self, items, seed, budget, scratch, parts=3):
        self.ps = []
        chunks = [items[i::parts] for i in range(parts)]
        for ch in chunks:
            if not ch:
                continue
            d = tempfile.mkdtemp(dir=scratch)
            j, o = os.path.join(d, "job.json"), os.path.join(d, "out.json")
            json.dump(dict(items=ch, seed=seed, budget=budget), open(j, "w"))
            w = os.path.join(d, "cwd")
            os.mkdir(w)
            p = subprocess.Popen([VENV, os.path.join(ROOT, "vt", "conharness.py"), j, o], cwd=w, env=concrete_env(),
                                 stdout=subprocess.DEVNULL, stderr=open(os.path.join(d, "err"), "w"), start_new_session=True)
            self.ps.append((p, o, d, ch))
        self.budget = budget
        self.t0 = time.time()

    def result(self):
        out, err = [], []
        for p, o, d, ch in self.ps:
            try:
                p.wait(timeout=max(1, self.budget + 60 - (time.time() - self.t0)))
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            if os.path.exists(o):
                r = json.load(open(o))
                if "import_error" in r:
                    err.append("import of the real package failed: " + r["import_error"])
                else:
                    out += r["results"]
            else:
                err.append("concrete runner died: " + open(os.path.join(d, "err")).read()[-600:])
        return out, err


def _sym_worker(args):
    name, ci, budget = args
    from vt import api, symharness, sym
    c = next(x for x in api.CONTRACTS if x.name == name)
    for k in sym.STATS:
        sym.STATS[k] = 0
    try:
        r = symharness.run_case(c, c.cases[ci], budget=budget)
    except BaseException as e:
        r = dict(obls=[], paths=0, unsupported=["engine error %s: %s %s" % (type(e).__name__, e, traceback.format_exc()[-400:])],
                 entered=[], used=[], secs=0, completed=0, timeout=False)
    r["name"], r["case"] = name, ci
    r["stats"] = dict(sym.STATS)
    return r


def closure(cs, allc):
    """the contracts of a property plus the contracts of the callees they are checked against"""
    from vt import api
    out, todo = list(cs), list(cs)
    while todo:
        c = todo.pop()
        for q in c.uses:
            for nm in api.PROVIDERS.get(q, ()):
                for d in allc:
                    if d.name == nm and d not in out:
                        out.append(d)
                        todo.append(d)
    return out


def run(prop, tier="quick", seed=1, only=None):
    t0 = time.time()
    deadline = t0 + (600 if tier == "quick" else 3300)
    scratch = tempfile.mkdtemp(prefix="vtcheck_")
    try:
        return _run(prop, tier, seed, t0, deadline, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _run(prop, tier, seed, t0, deadline, scratch):
    sys.path.insert(0, ROOT)
    from vt import api
    allc = api.load_all()
    mine = [c for c in allc if prop in c.prop]
    if not mine:
        print("no contracts for", prop)
        return 2
    cs = closure(mine, allc)
    mult = 1 if tier == "quick" else 8
    items = []
    for c in cs:
        for ci in range(len(c.cases)):
            items.append(dict(contract=c.name, case=ci, trials=c.trials * mult, budget=60 * mult, sample=(ci == 0)))
    con = Concrete(items, seed, 420 * mult, scratch)
    # ---- symbolic
    load_err = None
    try:
        from vt import loader
        loader.load()
    except BaseException as e:
        load_err = "the real modules could not be loaded into the verifier: %s: %s" % (type(e).__name__, e)
    jobs = [(c.name, ci, c.timeout * (1 if tier == "quick" else 3)) for c in cs if c.mode == "proof" for ci in range(len(c.cases))]
    res = {}
    if load_err is None and jobs:
        jobs.sort(key=lambda j: -next(c.cost for c in cs if c.name == j[0]))
        with mp.get_context("fork").Pool(7, maxtasksperchild=1) as pool:
            its = [(j, pool.apply_async(_sym_worker, (j,))) for j in jobs]
            for j, it in its:
                try:
                    res[j[0], j[1]] = it.get(timeout=max(5, deadline - time.time()))
                except mp.TimeoutError:
                    res[j[0], j[1]] = dict(name=j[0], case=j[1], obls=[], paths=0, unsupported=["verifier out of time"], entered=[], used=[],
                                           secs=0, completed=0, timeout=True, stats={})
            pool.terminate()
    else:
        for j in jobs:
            res[j[0], j[1]] = dict(name=j[0], case=j[1], obls=[], paths=0, unsupported=[load_err], entered=[], used=[], secs=0, completed=0,
                                   timeout=False, stats={})
    cres, cerr = con.result()
    cmap = {(r["contract"], r["case"]): r for r in cres}
    # ---- undischarged obligations
    viol = []     # dict(contract, case, label, kind, detail, replay)
    fails = {}
    for key, r in res.items():
        bad = {}
        for o in r["obls"]:
            if o["status"] != "proved":
                bad.setdefault(o["name"], o)
        for nm, o in bad.items():
            fails.setdefault(key, []).append(dict(label=nm, status=o["status"], detail=o.get("detail"), inputs=o.get("inputs"), pc=o.get("pc")))
        for u in sorted(set(r["unsupported"])):
            fails.setdefault(key, []).append(dict(label="verification condition generation", status="unsupported", detail=u, inputs=None, pc=None))
        if r["timeout"]:
            fails.setdefault(key, []).append(dict(label="verification condition generation", status="unsupported", detail="time budget exhausted", inputs=None, pc=None))
        if not r["obls"] and not r["unsupported"] and not r["timeout"]:
            fails.setdefault(key, []).append(dict(label="non-vacuity", status="vacuous", detail="no obligation was generated", inputs=None, pc=None))
        elif r["completed"] == 0 and not r["unsupported"] and not r["timeout"] and key not in fails:
            fails.setdefault(key, []).append(dict(label="non-vacuity", status="vacuous", detail="no path through the contract completes", inputs=None, pc=None))
    # concrete replay and search for every undischarged (contract, case)
    todo = []
    for key, fl in fails.items():
        if key in cmap and cmap[key]["viol"]:
            continue
        ovs = [f["inputs"] for f in fl if f.get("inputs")][:6]
        todo.append(dict(contract=key[0], case=key[1], overrides=ovs, trials=120 * mult, budget=40, size=None))
    if todo:
        left = max(30, min(300, deadline - time.time() - 20))
        for t in todo:
            t["budget"] = max(6, min(60, left * 6 / len(todo)))
        c2 = Concrete(todo, seed + 1000, left, scratch, parts=6)
        r2, e2 = c2.result()
        for r in r2:
            k = (r["contract"], r["case"])
            if r["viol"]:
                cmap.setdefault(k, r)["viol"] = r["viol"]
        cerr += e2
    # ---- collect violations
    known = load_known()
    out = []
    seen = set()
    for key in sorted(set(fails) | {k for k, r in cmap.items() if r["viol"]}):
        c = next(x for x in cs if x.name == key[0])
        case = c.cases[key[1]]
        cv = cmap.get(key, {}).get("viol")
        fl = fails.get(key, [])
        out.append(dict(contract=key[0], case=case, ci=key[1], concrete=cv, failed=fl, target=c.target))
    # known findings
    kf_lines, rest = [], []
    for v in out:
        k = match_known(known, prop, v)
        if k is not None:
            kf_lines.append("KNOWN-FINDING: property=%s %s" % (k["property"], k["what"]))
            continue
        rest.append(v)
    for l in sorted(set(kf_lines)):
        print(l)
    # a runner failure with no result at all cannot be trusted as a pass
    broken = []
    if cerr:
        broken.append("; ".join(cerr)[:800])
    missing = [k for k in ((c.name, ci) for c in cs for ci in range(len(c.cases))) if k not in cmap and not cerr]
    errs = [(r["contract"], r["case"], r["errors"][0]) for r in cres if r["errors"]]
    if errs:
        for e in errs:
            if e[:2] not in {(v["contract"], v["ci"]) for v in rest}:
                rest.append(dict(contract=e[0], case=None, ci=e[1], concrete=None, target=[],
                                 failed=[dict(label="concrete execution of the contract", status="error", detail=e[2][-700:], inputs=None, pc=None)]))
    if broken:
        rest.append(dict(contract="-", case=None, ci=-1, concrete=None, target=[],
                         failed=[dict(label="execution of the real package", status="error", detail=broken[0], inputs=None, pc=None)]))
    lines = report(prop, rest, seed)
    for l in lines:
        print(l)
    write_evidence(prop, tier, seed, cs, mine, res, cres, fails, rest, kf_lines, time.time() - t0)
    return 1 if lines else 0


def report(prop, rest, seed):
    d = os.path.join(ROOT, "out", "replay")
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(d, f))
    lines = []
    rest = sorted(rest, key=lambda v: (v["concrete"] is None, v["contract"], v["ci"]))
    shown = {}
    for n, v in enumerate(rest):
        lab = (v["concrete"] or {}).get("label") or v["failed"][0]["label"]
        g = (v["contract"], lab, v["concrete"] is None)
        shown[g] = shown.get(g, 0) + 1
        if shown[g] > 1 or len(lines) >= 12:
            continue
        p = os.path.join(d, "%s-%02d.json" % (prop, len(lines)))
        json.dump(dict(property=prop, contract=v["contract"], case_index=v["ci"], case=v["case"], functions=v["target"],
                       failed_obligations=v["failed"][:20], concrete=v["concrete"],
                       how=("replay: VT_REPO=%s %s %s --replay %s" % (REPO, VENV, os.path.join(ROOT, "vt", "conharness.py"), p)) if v["concrete"] else
                       "the named obligation was discharged on the pinned tree and is not discharged on this one; verifier output above"), open(p, "w"), indent=1, default=str)
        s = "VIOLATION property=%s replay=%s" % (prop, p)
        if v["concrete"]:
            print("  %s %s: %s -- %s" % (v["contract"], v["case"], v["concrete"]["label"], v["concrete"]["detail"]))
        else:
            f = v["failed"][0]
            print("  %s %s: obligation '%s' %s: %s" % (v["contract"], v["case"], f["label"], f["status"], str(f["detail"])[:300]))
            s += " no-failing-input-found"
        lines.append(s)
    return lines


def load_known():
    p = os.path.join(ROOT, "known_findings.json")
    return [k for k in json.load(open(p)) if k.get("status") == "known"] if os.path.exists(p) else []


def match_known(known, prop, v):
    """every failure of (contract, case) must be listed for the entry to apply"""
    labs = [f["label"] for f in v["failed"]] + ([v["concrete"]["label"]] if v["concrete"] else [])
    for k in known:
        if k["contract"] == v["contract"] and all((v["case"] or {}).get(a) == b for a, b in k["case"].items()) \
                and all(any(l.startswith(x) for x in k["labels"]) for l in labs):
            return k
    return None


def write_evidence(prop, tier, seed, cs, mine, res, cres, fails, rest, kf, wall):
    obl = dis = 0
    backends, zs = {}, 0.0
    entered, used = set(), set()
    per = {}
    paths = 0
    for (nm, ci), r in res.items():
        p = per.setdefault(nm, dict(obligations=0, discharged=0, cases=0, paths=0))
        p["cases"] += 1
        p["paths"] += r["paths"]
        paths += r["paths"]
        for o in r["obls"]:
            obl += 1
            p["obligations"] += 1
            if o["status"] == "proved":
                dis += 1
                p["discharged"] += 1
                backends[o["backend"]] = backends.get(o["backend"], 0) + 1
            zs += o["secs"]
        entered |= set(r["entered"])
        used |= set(r["used"])
    bounded = [c for c in cs if c.mode == "bounded"]
    from vt import api
    src = {}
    cov = dict(obligations=obl, discharged=dis,
               checker_cmd="python3-vt check.py %s --tier %s" % (prop, tier),
               trusted_base=TRUSTED,
               functions_under_contract=sorted({t for c in cs if c.mode == "proof" for t in c.target}),
               functions_executed_symbolically=sorted(entered),
               callee_contracts_used=sorted(used),
               callee_contracts_verified_by={q: list(api.PROVIDERS.get(q, ())) for q in sorted(used)},
               per_contract=per, backends=backends, obligation_solver_seconds=round(zs, 2),
               paths=paths, cpython_runs=sum(r["trials"] for r in cres), cpython_runs_ok=sum(r["ok"] for r in cres),
               cpython_checks=sum(r["checks"] for r in cres),
               bounded_functions=[dict(contract=c.name, functions=c.target, bound=c.bound, runs=sum(r["ok"] for r in cres if r["contract"] == c.name))
                                  for c in bounded],
               undischarged=[dict(contract=k[0], case=k[1], what=[(f["label"], f["status"]) for f in v][:5]) for k, v in sorted(fails.items())][:30],
               known_findings=sorted(set(kf)),
               samples=[r["sample"] for r in cres if r.get("sample")][:3])
    level = "proof" if obl else "exploration"
    if level == "exploration":
        cov["evaluations"] = cov["cpython_runs"]
        cov["distinct_nontrivial"] = cov["cpython_runs_ok"]
        cov["rule"] = "seeded random inputs of the contract; non-trivial: precondition met and all postconditions evaluated"
    ass = list(ASSUMPTIONS)
    for c in cs:
        if c.mode == "bounded":
            ass.append("bounded, not proved: %s (%s)" % (c.name, c.bound))
    for q in sorted(used):
        if not api.PROVIDERS.get(q):
            ass.append("assumed callee contract (not verified): " + q)
    for q, why in sorted(api.ASSUMED.items()):
        if q in used:
            ass.append("assumed: %s: %s" % (q, why))
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=ass, wall_s=round(wall, 2), violations=len(rest))
    d = os.path.join(ROOT, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, prop + ".json"), "w"), indent=1, default=str)


TRUSTED = [
    "vt/loader.py: mechanical AST rewriting of /repo's modules (drops docstrings and f-string contents, reads float literals as exact decimals, bare except -> except Exception)",
    "vt/sym.py, vt/runtime.py: symbolic execution, path forking, loop rule",
    "vt/npmodel.py: contracts of numpy functions (cross-checked on CPython each run, not proved)",
    "vt/stubs.py: contracts of galpy/numba/scipy/astropy/matplotlib entry points (uninterpreted functions or recorded calls)",
    "vt/terms.py: normal form used to discharge equalities", "z3 5.3.2 (python), cvc5 1.1.2"]
ASSUMPTIONS = [
    "machine floating point is treated as exact real arithmetic (rounding, overflow, NaN and infinities are outside the proofs)",
    "integers are mathematical",
    "divisors are non-zero and arguments of sqrt/log lie in their domains wherever the code divides or takes them, unless a contract says otherwise",
    "star arrays have equal lengths and at least one star (precondition of every cluster contract)",
    "printing and plotting have no effect on cluster state (print is dropped, matplotlib calls are stand-ins)"]

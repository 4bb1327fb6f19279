"""Check driver:  python3-vt lib/runner.py Cxx

Explores every case of harness/cxx.py symbolically over the current source,
lets z3 decide each obligation, replays candidate counterexamples (and one
witness per case) on the real code, writes evidence/Cxx.json.
"""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(ROOT, "harness"))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
REAL_PY = os.environ.get("VERIF_REAL_PY", "/opt/venv/bin/python")
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class CaseLimit(BaseException):
    pass


def explore_case(hname, case):
    import poly
    import solver
    import ctx as C
    import loader
    loader.start_tracking()
    poly.reset_world()
    solver.STATS.__init__()
    loader.SEEN.clear()
    sys.monitoring.restart_events()
    t0 = time.time()
    budget = case.get("budget", 60 if TIER == "quick" else 600)
    ex = solver.Explorer(seed=SEED, max_paths=case.get("max_paths", 600 if TIER == "quick" else 20000),
                         deadline=t0 + budget)
    out = dict(case=case["name"], candidates=[], undecided=[], unsupported=[], witnesses=[],
               obligations=0, scalars=0, discharged=0, raised=0, dead=0, nreach=0)
    labels = {}

    def body():
        ctx = C.SymCtx(ex, TIER)
        body.ctx = ctx
        try:
            case["fn"](ctx, **case.get("args", {}))
        except poly.Unsupported as e:
            return "unsup", _where(e)
        except poly.Abort:
            raise
        except RecursionError as e:
            return "unsup", "recursion: " + _where(e)
        except Exception as e:      # noqa: unexpected exception on this path
            if ex.aborted:
                raise poly.Abort(ex.aborted)
            return "raise", _where(e)
        return "ok", None

    def on_path(res):
        kind, info = res
        pc = ex.pc + ex.assumed
        if kind == "abort":
            out["dead"] += 1
            return
        if kind == "unsup":
            if len(out["unsupported"]) < 5:
                out["unsupported"].append(info)
            return
        if kind == "raise":
            out["raised"] += 1
            w = ex.find_inputs(pc)
            if w is None:
                st, _, _ = solver.check(pc, "nra", 8000)
                if st == "unsat":
                    out["dead"] += 1
                    return
                out["undecided"].append("raise on a path without witness: " + info)
            elif len(out["candidates"]) < 12:
                out["candidates"].append(dict(label="exception", inputs=w, why=info))
            # obligations met before the exception still count
        obls = body.ctx.obls
        if not obls and kind == "ok":
            out["dead"] += 1
            return
        old = tighten(pc)
        try:
            discharge(ex, pc, obls, out)
        finally:
            for q, lo, hi in old:
                q.lo, q.hi = lo, hi
            if old:
                poly.W.miv.clear()
        for o in obls:
            labels[o.label] = labels.get(o.label, 0) + 1
        if kind == "ok" and len(out["witnesses"]) < case.get("witnesses", 2):
            w = ex.witness(pc, tries=60)
            if w is None and out["nreach"] == 0:
                w = ex.find_inputs(pc)
            if w is not None:
                out["nreach"] += 1
                env = solver.Env(w)
                vals = []
                for o in obls:
                    v = None
                    if o.kind in ("eq", "le"):
                        try:
                            v = [_num(env(x)) for x in o.a]
                        except Exception as e:      # noqa
                            v = None
                    vals.append([o.label, v])
                out["witnesses"].append(dict(inputs=w, vals=vals))

    body.ctx = None
    try:
        ex.run(body, on_path)
    except Exception as e:      # noqa: engine failure
        out["unsupported"].append("engine: " + "".join(traceback.format_exc()[-1500:]))
    if ex.truncated:
        out["undecided"].append("exploration cut off after %d paths / %.0f s" % (ex.paths, time.time() - t0))
    out.update(paths=ex.paths, decisions=ex.decisions, forks=ex.forks, wall=round(time.time() - t0, 2),
               stats=solver.STATS.dict(), functions=sorted(loader.SEEN), labels=labels)
    return out


def tighten(pc):
    """bounds on solution components that the path condition states outright"""
    import poly
    old = []

    def visit(f):
        if not isinstance(f, poly.SBool):
            return
        if f.op == "and":
            for g in f.a:
                visit(g)
            return
        if f.op not in ("<=", ">=", "<", ">") or not isinstance(f.a, poly.Num) or len(f.a.t) > 2:
            return
        mono = [m for m in f.a.t if m]
        if len(mono) != 1 or len(poly.W.monos[mono[0]]) != 1:
            return
        sid, e = poly.W.monos[mono[0]][0]
        s = poly.W.syms[sid]
        if e != 1 or s.role != "fn":
            return
        c = f.a.t[mono[0]]
        b = float(-f.a.t.get(0, 0) / c)
        up = (f.op[0] == "<") == (c > 0)
        if (up and b < s.hi) or (not up and b > s.lo):
            old.append((s, s.lo, s.hi))
            if up:
                s.hi = b
            else:
                s.lo = b
    for f in pc:
        visit(f)
    if old:
        poly.W.miv.clear()
    return old[::-1]


def _num(v):
    return [v.real, v.imag] if isinstance(v, complex) else float(v)


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return "%s: %s [%s]" % (type(e).__name__, str(e)[:200], "; ".join(
        "%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in tb[-4:]))


def discharge(ex, pc, obls, out):
    """z3 decides  path condition AND NOT obligation  for every obligation"""
    import solver
    from poly import sor
    items = []
    for o in obls:
        out["obligations"] += 1
        if o.kind == "shape":
            items.append((o, -1, True))
            continue
        for i, v in enumerate(o.viol):
            out["scalars"] += 1
            items.append((o, i, v))
    live = [(o, i, v) for o, i, v in items if v is not False]
    done = len(items) - len(live)
    # obligations whose two sides have the same normal form: the solver still
    # gets the equation (both sides as built) and has to refute its negation
    fold = [(o.a[i], o.b[i], o.tol) for o, i, v in items if v is False and o.kind == "eq"]
    if fold:
        st = solver.check_pairs(fold)
        if st == "sat":
            # sides that agree by the defining equations of a solution vector
            import ctx as C
            from poly import W, lift
            raw = [q for a, b, t in fold for q in C.raw_viol(a, b, t)] if W.zeros else []
            if raw and solver.check(pc + [sor(*raw)], "lra", 20000)[0] == "unsat":
                st = "unsat"
        if st == "sat":
            out["undecided"].append("normal form and solver disagree")
    elif not live:
        solver.check([False], "lra", 1000)
    if not live:
        out["discharged"] += len(items)
        return
    forms = [v for _, _, v in live if v is not True]
    definite = [(o, i, v) for o, i, v in live if v is True]
    open_ = []
    if forms:
        weak = {id(v): solver.weaken(v) for v in forms}
        every = sor(*weak.values())
        st = solver.check([every], "box", 10000)[0]
        if st != "unsat":
            st = solver.check(pc + [every], "lra", 20000)[0]
        if st == "unsat":
            done += len(forms)
        else:
            byo = {}
            for o, i, v in live:
                if v is not True:
                    byo.setdefault(id(o), []).append((o, i, v))
            for grp in byo.values():
                st = "sat"
                if len(byo) > 1:
                    st = solver.check(pc + [sor(*[weak[id(v)] for _, _, v in grp])], "lra", 20000)[0]
                if st == "unsat":
                    done += len(grp)
                    continue
                for it in grp:
                    st = "sat"
                    if len(grp) > 1:
                        st = solver.check([weak[id(it[2])]], "box", 3000)[0]
                        if st != "unsat":
                            st = solver.check(pc + [weak[id(it[2])]], "lra", 5000)[0]
                    if st == "unsat":
                        done += 1
                    else:
                        open_.append(it)
    # concrete candidates first (cheap), then denominators cleared, then NRA
    todo = definite + open_
    reported = set()
    hard = 0
    t0 = time.time()
    for o, i, v in todo:
        if o.label in reported:
            continue
        key = (o.label, i)
        w = ex.witness(pc + ([v] if v is not True else []), tries=150)
        if w is None and v is True:
            w = ex.find_inputs(pc)
        if w is not None and v is not True:
            # prefer a clear violation
            w = clear_witness(ex, pc, o, i, w)
        if w is not None:
            reported.add(o.label)
            if len(out["candidates"]) < 12:
                why = "shape %s, expected %s" % (o.a, o.b) if o.kind == "shape" else o.kind
                out["candidates"].append(dict(label=o.label, inputs=w, why=why))
            continue
        hard += 1
        if hard > 40 or time.time() - t0 > (25 if TIER == "quick" else 300):
            out["undecided"].append("%s[%d]: not attempted (too many open obligations)" % (o.label, i))
            continue
        r = decide_hard(ex, pc, v)
        if r[0] == "unsat":
            done += 1
        elif r[0] == "sat" and r[1] is not None:
            reported.add(o.label)
            if len(out["candidates"]) < 12:
                out["candidates"].append(dict(label=o.label, inputs=r[1], why="nra model", weak=True))
        else:
            out["undecided"].append("%s[%d]: solver %s" % (o.label, i, r[0]))
    out["discharged"] += done


def clear_witness(ex, pc, o, i, w):
    import solver
    if o.kind != "eq":
        return w
    best, bw = -1.0, w
    for k in range(25):
        inp = w if k == 0 else ex.witness(pc, tries=3)
        if inp is None:
            continue
        try:
            env = solver.Env(inp)
            a, b = env(o.a[i]), env(o.b[i])
            d = abs(a - b) / max(1e-300, env(o.tol) if env(o.tol) else 1e-300)
        except Exception:   # noqa
            continue
        if d == d and d > best:
            best, bw = d, inp
    return bw


def decide_hard(ex, pc, v):
    import solver
    forms = pc + ([v] if v is not True else [])
    cl = []
    for f in forms:
        c = solver.cleared(f)
        if c is False:
            return "unsat", None
        cl.append(c)
    if all(c is not None for c in cl):
        st = solver.check([c for c in cl if c is not True], "lra", 20000)[0]
        if st == "unsat":
            return "unsat", None
    ms = 5000 if TIER == "quick" else 60000
    st, model, enc = solver.check(forms, "nra", ms)
    if st == "unsat":
        return "unsat", None
    if st == "unknown" and all(c is not None for c in cl):
        st, model, enc = solver.check([c for c in cl if c is not True], "nra", ms)
        if st == "unsat":
            return "unsat", None
    if st == "sat":
        _, w = ex.model_inputs(forms)
        if w is None:
            w = ex.find_inputs(pc)
        return "sat", w
    return st, None


def _work(a):
    hname, idx = a
    mod = importlib.import_module(hname)
    cases = select(mod)
    import signal

    def bell(*_):
        raise CaseLimit("case time limit")
    signal.signal(signal.SIGALRM, bell)
    signal.setitimer(signal.ITIMER_REAL, float(cases[idx].get("limit", 120 if TIER == "quick" else 1500)), 2.0)
    t0 = time.time()
    try:
        r = explore_case(hname, cases[idx])
        signal.setitimer(signal.ITIMER_REAL, 0)
        if os.environ.get("VERIF_VERBOSE"):
            print("%-40s %6.2f s  paths %d scalars %d" % (r["case"], time.time() - t0, r["paths"], r["scalars"]), flush=True)
        return r
    except BaseException as e:      # noqa
        signal.setitimer(signal.ITIMER_REAL, 0)
        return dict(case=cases[idx]["name"], crash="".join(traceback.format_exc()[-2000:]))


def select(mod):
    only = os.environ.get("VERIF_CASE")      # development aid: substring of the case names
    return [c for c in mod.CASES if (TIER == "thorough" or not c.get("thorough_only"))
            and (not only or only in c["name"])]


def run_real(jobs, nproc=8):
    """replay jobs on the real code, in parallel batches"""
    if not jobs:
        return {}
    outs = {}
    n = max(1, min(nproc, len(jobs)))
    with tempfile.TemporaryDirectory(prefix="verif_conc_") as td:
        procs = []
        for k in range(n):
            part = jobs[k::n]
            ji, jo = os.path.join(td, "in%d.json" % k), os.path.join(td, "out%d.json" % k)
            with open(ji, "w") as f:
                json.dump(part, f)
            env = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", TMPDIR=td,
                       MPLCONFIGDIR=td, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
            procs.append((subprocess.Popen([REAL_PY, os.path.join(HERE, "conc.py"), ji, jo],
                                           env=env, cwd=td, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), jo, part))
        for p, jo, part in procs:
            try:
                so, _ = p.communicate(timeout=300)
            except subprocess.TimeoutExpired:
                p.kill()
                so = b"timeout"
            if p.returncode == 0 and os.path.exists(jo):
                with open(jo) as f:
                    for o in json.load(f):
                        outs[o["id"]] = o
            else:
                for j in part:
                    outs[j["id"]] = dict(id=j["id"], status="broken", res=[],
                                         exc=(so or b"").decode(errors="replace")[-800:])
    return outs


def main(prop):
    t0 = time.time()
    hname = prop.lower()
    mod = importlib.import_module(hname)
    cases = select(mod)
    order = sorted(range(len(cases)), key=lambda i: -cases[i].get("weight", 1))
    mpc = mp.get_context("fork")
    with mpc.Pool(min(8, len(cases)), maxtasksperchild=1) as pool:
        results = pool.map(_work, [(hname, i) for i in order], chunksize=1)
    results = [r for _, r in sorted(zip(order, results), key=lambda x: x[0])]
    import conc_failed as cf
    known = load_known(prop)
    jobs = []
    for r in results:
        if "crash" in r:
            continue
        for k, w in enumerate(r["witnesses"]):
            jobs.append(dict(id="w:%s:%d" % (r["case"], k), harness=hname, case=r["case"], inputs=w["inputs"], tier=TIER))
        for k, c in enumerate(r["candidates"]):
            jobs.append(dict(id="c:%s:%d" % (r["case"], k), harness=hname, case=r["case"], inputs=c["inputs"], tier=TIER))
    # cases the solver could not settle on this tree (never on the pinned one)
    # are at least exercised concretely; the verdict line says so
    nfall = 12 if TIER == "quick" else 60
    fall = {}
    for r in results:
        if "crash" in r or r["undecided"] or r["unsupported"] or any(True for _ in r.get("candidates", ())):
            for k in range(nfall):
                j = dict(id="f:%s:%d" % (r["case"], k), harness=hname, case=r["case"], inputs={}, tier=TIER, seed=SEED * 1000 + k)
                fall.setdefault(r["case"], []).append(j)
                jobs.append(j)
    real = run_real(jobs)
    violations, undecided, knowns, validated, mismatches = [], [], [], 0, []
    byid = {j["id"]: j for j in jobs}
    for r in results:
        if "crash" in r:
            undecided.append("%s: %s" % (r["case"], r["crash"]))
            continue
        for k, c in enumerate(r["candidates"]):
            o = real.get("c:%s:%d" % (r["case"], k))
            why = cf.failed(o, c["label"])
            if why:
                violations.append((r["case"], c["label"], why, byid["c:%s:%d" % (r["case"], k)]))
            else:
                undecided.append("%s: candidate for %r did not reproduce on the real code (%s)" % (
                    r["case"], c["label"], o.get("exc", o["status"]) if o else "no output"))
        for k, w in enumerate(r["witnesses"]):
            o = real.get("w:%s:%d" % (r["case"], k))
            why = cf.failed(o, None)
            if why:
                violations.append((r["case"], "witness", why, byid["w:%s:%d" % (r["case"], k)]))
                continue
            if o is None or o["status"] in ("broken",):
                undecided.append("%s: witness replay: %s" % (r["case"], (o or {}).get("exc")))
                continue
            if o["status"] == "assume":
                continue
            m = cf.compare(w["vals"], o["res"])
            if m:
                mismatches.append("%s: %s" % (r["case"], m))
            else:
                validated += 1
        for u in r["undecided"]:
            undecided.append("%s: %s" % (r["case"], u))
        for u in r["unsupported"]:
            undecided.append("%s: not encodable: %s" % (r["case"], u))
    for case, js in fall.items():
        for j in js:
            o = real.get(j["id"])
            why = cf.failed(o, None)
            if why:
                violations.append((case, (o.get("flabel") or "replay"), why, j))
                break
    undecided += ["model/real mismatch: " + m for m in mismatches]
    for r in results:
        if "crash" not in r and not r["candidates"] and not r["unsupported"] and not r["undecided"] \
                and r["obligations"] == 0:
            undecided.append("%s: vacuous (no obligation was reached)" % r["case"])
    # known findings
    new = []
    for v in violations:
        kf = next((k for k in known if k["case"] == v[0] and (k["label"] in (v[1], "*") or k["label"] in v[2])), None)
        if kf:
            knowns.append(kf["what"])
        else:
            new.append(v)
    for what in sorted(set(knowns)):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    rdir = os.path.join(ROOT, "replays")
    lines = []
    seen = set()
    for n, (case, label, why, job) in enumerate(new):
        if (case, label) in seen or len(seen) >= 10:
            continue
        seen.add((case, label))
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
        with open(p, "w") as f:
            json.dump(dict(property=prop, case=case, label=label, why=why, job=job,
                           how="%s %s/conc.py %s" % (REAL_PY, HERE, p)), f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, p))
        print("  case %s: %s: %s" % (case, label, why))
    for ln in lines:
        print(ln)
    good = [r for r in results if "crash" not in r]
    tot = lambda k: sum(r[k] for r in good)
    st = lambda k: sum(r["stats"][k] for r in good)
    funcs = sorted(set(f for r in good for f in r["functions"]))
    samples = []
    for r in good:
        for w in r["witnesses"][:1]:
            samples.append(dict(case=r["case"], inputs={k: round(v, 5) for k, v in list(w["inputs"].items())[:8]}))
    ev = dict(
        property=prop, tier=TIER, seed=SEED, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("decisions"),
            traces_validated_against_impl=validated,
            samples=samples[:6],
            cases=len(results), infeasible_paths=tot("dead"),
            obligations_stated=tot("obligations"), scalar_obligations=tot("scalars"),
            scalar_discharged=tot("discharged"),
            solver=dict(engine="z3", queries=st("queries"), unsat=st("unsat"), sat=st("sat"),
                        unknown=st("unknown"), solver_s=round(st("solver_s"), 2), literals=st("literals")),
            functions_encoded=funcs,
            bounds=getattr(mod, "BOUNDS", ""),
            outside=getattr(mod, "OUTSIDE", ""),
            undecided=[u[:300] for u in undecided[:10]], undecided_count=len(undecided),
            concrete_fallback_runs=sum(map(len, fall.values())), violations_found=[list(v[:3]) for v in new[:10]],
            known_findings=sorted(set(knowns)),
            per_case=[dict(case=r["case"], paths=r["paths"], scalars=r["scalars"], s=r["wall"])
                      for r in good][:120],
        ),
        assumptions=["exact real arithmetic: float rounding is not modelled except narrow dtypes",
                     "numpy/scipy primitives behave as modelled in lib/symnp.py (cross-validated by witness replays)",
                     "polynomial normalisation in lib/poly.py is part of the encoder"] + list(getattr(mod, "ASSUME", [])),
        wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    txt = json.dumps(ev, indent=1)
    if len(txt) > 60000:
        ev["coverage"]["per_case"] = ev["coverage"]["per_case"][:20]
        txt = json.dumps(ev)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        f.write(txt)
    print("%s %s: %d cases, %d paths, %d obligations (%d scalar, %d discharged), %d queries, "
          "%.1f s solver, %d replays agree, %.1f s" % (
              prop, TIER, len(results), tot("paths"), tot("obligations"), tot("scalars"), tot("discharged"),
              st("queries"), st("solver_s"), validated, time.time() - t0))
    if lines:
        return 1
    if undecided:
        for u in undecided[:12]:
            print("UNDECIDED " + u)
        print("(undecided obligations were only exercised on %d concrete inputs; no violation seen)" % sum(map(len, fall.values())))
    return 0


def load_known(prop):
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == prop]


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1])
    except SystemExit:
        raise
    except BaseException:       # noqa
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)

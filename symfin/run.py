"""Check driver.   python3-vt symfin/run.py C01 [quick|thorough] [--only SUBSTR] [-v]

exit 0: every claim decided (unsat of its negation) on every explored path;  exit 1: VIOLATION confirmed by running
the real code;  exit 2: no verdict (undecided query, unsupported construct, counterexample that does not reproduce)."""
import importlib
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

REALPY = os.environ.get("FINOPT_PY", "/opt/venv/bin/python")
BUDGET = {"quick": 700, "thorough": 3600}


def load_prop(pid):
    return importlib.import_module("props." + pid.lower())


CONFIRMED = None  # shared between the workers: cases with a numerically violated claim
CANDIDATES = None  # ... cases with any claim not discharged


def worker(task):
    """One case. When it stays undecided with the normal distribution function as an uninterpreted symbol, it is tried
    again with the real function executed symbolically."""
    if CONFIRMED.value >= 6:  # a violation is established, the rest adds nothing
        return blank(task[2], skipped=1)
    # the alternatives of small conditionals as one merged term, then path by path, then with the real normal distribution
    # function: all three are complete within the bounds, they differ in what the solvers find easy
    case = load_prop(task[0]).CASES(task[1])[task[2]]
    first = case.get("merge", True)
    tries = [(None, None)] if case.get("bounded_paths") else [(None, first), (None, not first)]
    tries.append((False, None))
    res = None
    for patch, merge in tries:
        if res and (time.time() > task[4] or patch is False and not res.get("patched")):
            break
        r = worker1(task if res is None else task[:4] + (min(task[4], time.time() + 150),), patch, merge)
        good = not (r["cands"] or r["errors"] or r["undecided"])
        if good or res is None or r.get("sure") or res["errors"] and not r["errors"]:
            res = r
        if good or res.get("sure"):
            break
    if res["cands"]:
        with CANDIDATES.get_lock():
            CANDIDATES.value += 1
    if res.get("sure"):
        with CONFIRMED.get_lock():
            CONFIRMED.value += 1
    return res


def blank(idx, **k):
    return dict(dict(idx=idx, errors=[], cands=[], samples=[], obls=0, unsat=0, paths=0, branches=0, feas=0, truncated=0,
                     undecided=[], funcs=[], vacuous=False, stopped=0, stats={}, time=0.0), **k)


def worker1(task, patch, force_merge=None):
    pid, tier, idx, seed, deadline = task
    t0 = time.time()
    res = blank(idx)
    try:
        from symfin import explore as ex, solve as sv, loader, terms as tm, world_sym as ws, frac as fr

        mod = load_prop(pid)
        case = mod.CASES(tier)[idx]
        res["name"] = case["name"]
        patch_cnd = case.get("patch_cnd", True) if patch is None else patch
        res["patched"] = patch_cnd
        loader.start_recording()
        fr.undeclare()
        tm.VARS.clear()
        h = getattr(mod, case["harness"])
        params = case.get("params", {})
        decls = {}
        if case.get("z3_timeout"):
            sv.TIMEOUT_MS = case["z3_timeout"]

        def run(path):
            W = ws.SymWorld(path, decls, patch_cnd=patch_cnd, patch_cbnd=case.get("patch_cbnd", False))
            with ws.quiet():
                h(W, **params)

        maxpaths = case.get("maxpaths", 64)
        merge = case.get("merge", False) if force_merge is None else force_merge
        res["merged"], res["bounded"] = merge, bool(case.get("bounded_paths"))
        def walk(m, dl):
            return ex.explore(run, merge=m, maxpaths=maxpaths, maxdec=case.get("maxdec", 60), deadline=dl, nofeas=case.get("nofeas", False))

        # path by path first; where the alternatives of small conditionals multiply, as one merged term instead; when neither is quick, path by path to the end
        staged = not merge and not case.get("bounded_paths")
        left = max(1.0, deadline - time.time()) if deadline else 600.0
        paths, trunc, stopped = walk(merge, min(deadline or 1e18, time.time() + case.get("stage_s", 15 if tier == "quick" else 60)) if staged else deadline)
        if staged and trunc:
            paths2, trunc2, stopped2 = walk(True, min(deadline or 1e18, time.time() + left / 3))
            if not trunc2 and not any(p.error and p.error[0] == "unsupported" for p in paths2):
                paths, trunc, stopped = paths2, trunc2, stopped2
                res["merged"] = True
            elif len(paths) < maxpaths:
                paths, trunc, stopped = walk(False, deadline)
        if trunc and not case.get("bounded_paths"):
            res["errors"].append(f"{trunc} paths beyond the bound of {maxpaths}")
        res["truncated"], res["stopped"] = trunc, stopped
        sampler = ex.Sampler(decls, seed)
        ncand = 0
        nsamp = 0
        witness = False
        for pi, p in enumerate(paths):
            res["paths"] += 1
            res["branches"] += len(p.taken)
            res["feas"] += p.nfeas
            if p.error:
                kind, msg, trace = p.error
                if kind == "unsupported":
                    res["errors"].append(f"unsupported: {msg}\n{trace}")
                elif ncand < 12:
                    envs = ex.concretise(None, p, sampler, sv.feasible(p.facts)[1], n=4)
                    res["sure"] = res.get("sure") or bool(envs) and ex.holds(p.facts, envs[0])
                    res["cands"].append(dict(label="exception", detail=msg, trace=trace, envs=envs))
                    ncand += 1
            # samples for validation of the encoding and as reachability witness
            if nsamp < case.get("samples", 4):
                st, model = (None, None)
                envs = sampler.satisfying(p.facts, 2 if pi == 0 else 1)
                if not envs and p.facts and not p.error:
                    st, model = sv.feasible(p.facts)
                    if st == "sat":
                        witness = True
                    if model and case.get("model_samples", True):
                        envs = ex.concretise(None, p, sampler, model, n=1, blind=False)
                for e in envs:
                    witness = True
                    res["samples"].append(dict(env=clean(e), pred=predict(p, e)))
                    nsamp += 1
            else:
                witness = True
            dc = ex.Discharger(p, sampler, case.get("z3_timeout"), deadline)
            for o, st, model in dc.run():
                res["obls"] += 1
                if st == "unsat":
                    res["unsat"] += 1
                    continue
                if st == "skipped":
                    res["skipped"] = res.get("skipped", 0) + 1
                    continue
                rec = dict(label=o.label, status=st, detail=describe(o))
                if ncand < 12:
                    envs = ex.concretise(o, p, sampler, model)
                    res["sure"] = res.get("sure") or bool(envs and ex.holds(p.facts[: o.nfacts], envs[0]) and ex.violated(o, envs[0]))
                    rec["envs"] = [clean(e) for e in envs]
                    res["cands"].append(rec)
                    ncand += 1
                if st != "sat":
                    res["undecided"].append(f"{o.label}: {st}")
            res["swept"] = res.get("swept", 0) + dc.swept
            if ncand >= 8:  # enough counterexamples: stop looking at this case
                res["skipped"] = res.get("skipped", 0) + len(paths) - pi - 1
                break
            if deadline and time.time() > deadline:
                res["errors"].append("time budget exhausted")
                break
        if not witness and case.get("bounded_paths") and paths:
            # the explored paths end a loop within its bound, which random inputs rarely do: the harness itself is shown
            # to reach its claims by running the real code to the end
            pre = [f for f, k in zip(paths[0].facts, paths[0].kinds) if k == "assume"]
            for e in sampler.satisfying(pre, 2):
                res["samples"].append(dict(env=clean(e), pred=[], witness=True))
        if not witness or res["obls"] == 0:
            res["vacuous"] = True
        res["funcs"] = sorted(loader.EXECUTED)
        res["stats"] = dict(sv.STATS)
        res["decls"] = {k: {x: y for x, y in v.items() if x in ("lo", "hi", "choices")} for k, v in decls.items()}
    except BaseException as e:  # noqa: BLE001
        res["errors"].append(f"{type(e).__name__}: {e}\n{traceback.format_exc(limit=-8)}")
    res["time"] = time.time() - t0
    return res


def clean(e):
    return {k: v for k, v in e.items() if not k.startswith(("$", "!"))}


def describe(o):
    from symfin import terms as tm

    try:
        if o.kind == "cond":
            return tm.show_c(o.cond, 5)[:300]
        return f"{tm.show(o.a, 5)[:300]}  {o.kind}  {tm.show(o.b, 5)[:300]}"
    except Exception:
        return o.kind


def predict(p, env):
    from symfin import terms as tm

    out = []
    occ = {}
    for o in p.obls:
        if o.kind not in ("eq", "le", "lt"):
            continue
        k = occ.get(o.label, 0)
        occ[o.label] = k + 1
        try:
            tm.EVAL_DERIV = False  # finite differences are less accurate than the comparison here
            a, b = tm.evalf([o.a, o.b], env)
        except (tm.NotEvaluable, OverflowError, TypeError):
            continue
        finally:
            tm.EVAL_DERIV = True
        if a == a and b == b and not isinstance(a, complex) and not isinstance(b, complex):
            out.append([o.label, k, a, b])
        if len(out) >= 40:
            break
    return out


def concrete(reqs, jobs=6, timeout=600):
    """Run requests on the real code (several interpreter processes)."""
    if not reqs:
        return {}
    chunks = [reqs[i::jobs] for i in range(jobs)]
    procs = []
    tmp = tempfile.mkdtemp(prefix="symfin_conc_")
    outs = {}
    try:
        for i, c in enumerate(chunks):
            if not c:
                continue
            a, b = os.path.join(tmp, f"r{i}.json"), os.path.join(tmp, f"o{i}.json")
            with open(a, "w") as f:
                json.dump(c, f)
            env = dict(os.environ, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLCONFIGDIR=tmp)
            procs.append((subprocess.Popen([REALPY, os.path.join(HERE, "symfin", "conc.py"), a, b], env=env,
                                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE), b))
        t_end = time.time() + timeout
        for p, b in procs:
            try:
                _, err = p.communicate(timeout=max(1, t_end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                continue
            if os.path.exists(b):
                with open(b) as f:
                    for o in json.load(f):
                        outs[o["id"]] = o
            else:
                print("concrete runner failed:", err.decode()[-800:], file=sys.stderr)
    finally:
        for n in os.listdir(tmp):
            q = os.path.join(tmp, n)
            if os.path.isdir(q):
                import shutil

                shutil.rmtree(q, ignore_errors=True)
            else:
                os.unlink(q)
        os.rmdir(tmp)
    return outs


def known_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


def match_known(kn, case, label, detail):
    for k in kn:
        if re.search(k["case"], case) and re.search(k["label"], label):
            return k
    return None


def main():
    pid = sys.argv[1].upper()
    tier = os.environ.get("VERIF_TIER", "quick")
    only = None
    verbose = "-v" in sys.argv
    for a in sys.argv[2:]:
        if a in ("quick", "thorough"):
            tier = a
    if "--only" in sys.argv:
        only = sys.argv[sys.argv.index("--only") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    random.seed(seed)
    t0 = time.time()
    mod = load_prop(pid)
    cases = mod.CASES(tier)
    idxs = [i for i, c in enumerate(cases) if only is None or only in c["name"]]
    budget = BUDGET[tier]
    deadline = t0 + budget * 0.8
    # long cases first
    order = sorted(idxs, key=lambda i: -cases[i].get("weight", 1))
    try:  # loaded once, shared by the forked workers (only what they execute afterwards is recorded)
        from symfin import loader, world_sym  # noqa: F401

        loader.load()
    except BaseException as e:  # noqa: BLE001
        print("PROBLEM import:", type(e).__name__, e)
    ctx = mp.get_context("fork")
    global CONFIRMED, CANDIDATES
    CONFIRMED, CANDIDATES = ctx.Value("i", 0), ctx.Value("i", 0)
    results = {}
    pool = ctx.Pool(min(8, max(1, len(order))), maxtasksperchild=cases[0].get("tasks_per_child", 6) if cases else None)
    asyncs = [(i, pool.apply_async(worker, ((pid, tier, i, seed + i, deadline),))) for i in order]
    first = cand = None
    while True:
        for i, a in asyncs:
            if i not in results and a.ready():
                results[i] = a.get()
                results[i].setdefault("name", cases[i]["name"])
        if len(results) == len(asyncs) or time.time() > t0 + budget * 0.87:
            break
        if CONFIRMED.value and first is None:
            first = time.time()
        if CANDIDATES.value and cand is None:
            cand = time.time()
        if first and time.time() > first + 40 or cand and time.time() > cand + 240:  # a violation is established: the cases still running add nothing
            break
        time.sleep(0.05)
    for i, a in asyncs:
        if i not in results:
            results[i] = blank(i, name=cases[i]["name"], time=time.time() - t0, **(dict(skipped=1) if first or cand else dict(errors=["time budget exhausted"])))
    procs = list(getattr(pool, "_pool", []))
    pool.terminate()
    for q in procs:  # a worker inside a solver call does not always stop when asked to
        if q.is_alive():
            q.kill()
    t_sym = time.time() - t0

    # concrete runs: candidates first, then (unless a violation is confirmed) validation samples
    reqs, meta = [], {}

    def add(rid, i, env, what, j):
        c = cases[i]
        reqs.append(dict(id=rid, prop=pid.lower(), harness=c["harness"], params=c.get("params", {}), env=env, timeout=c.get("replay_timeout", 60)))
        meta[rid] = (what, i, j, env)

    rounds = sorted(((k, j, i) for i, r in results.items() for j, cd in enumerate(r["cands"]) for k in range(len(cd.get("envs", [])[:12]))),
                    key=lambda x: (x[0], x[1], not results[x[2]].get("sure")))
    for k, j, i in rounds[:200]:
        add(f"c{i}.{j}.{k}", i, results[i]["cands"][j]["envs"][k], "cand", j)
    outs = {}
    if reqs:
        outs = concrete(reqs, timeout=min(240, max(30, t0 + budget * 1.2 - time.time())))
    kn = known_findings(pid)
    hit = any(o and not o["skip"] and (o["exception"] or any(not x["ok"] for x in o["records"])) for o in outs.values()) and not kn
    reqs = []
    for i, r in results.items():
        for k, s in enumerate(r["samples"]):
            if not hit:
                add(f"s{i}.{k}", i, s["env"], "sample", k)
    # harnesses without any usable sample still get blind concrete trials when the symbolic run failed
    for i, r in results.items():
        if r["errors"] and not r["samples"] and r.get("decls"):
            rnd = random.Random(seed)
            for k in range(8):
                e = {n: (rnd.choice(d["choices"]) if d.get("choices") else rnd.uniform(d["lo"], d["hi"])) for n, d in r["decls"].items()}
                add(f"b{i}.{k}", i, e, "blind", k)
    if not hit:
        outs.update(concrete(reqs, timeout=max(30, t0 + budget * 1.2 - time.time())))

    violations, known_hit, problems = [], {}, []
    validated = 0
    confirmed = set()
    knownc = set()
    for rid, (kind, i, j, env) in meta.items():
        o = outs.get(rid)
        if o is None or o["skip"]:
            continue
        fails = [x for x in o["records"] if not x["ok"]]
        if o["exception"]:
            fails.append(dict(label="exception", a=o["exception"], b=None, trace=o.get("trace")))
        for x in fails:
            k = match_known(kn, cases[i]["name"], x["label"], x)
            if k:
                known_hit.setdefault(k["id"], k)
                if kind == "cand":
                    knownc.add((i, j))
                continue
            if kind == "cand":
                confirmed.add((i, j))
            violations.append(dict(case=cases[i]["name"], harness=cases[i]["harness"], params=cases[i].get("params", {}),
                                   env=env, label=x["label"], got=x.get("a"), expected=x.get("b"), origin=kind, idx=i))
        if kind == "sample" and not o["exception"]:
            occ = {}
            recs = {}
            for x in o["records"]:
                n = occ.get(x["label"], 0)
                occ[x["label"]] = n + 1
                recs[(x["label"], n)] = x
            ok = True
            if results[i]["samples"][j].get("witness") and recs:
                results[i]["vacuous"] = False
            for label, n, a, b in results[i]["samples"][j]["pred"]:
                x = recs.get((label, n))
                if x is None:
                    ok = False
                    problems.append(f"{cases[i]['name']}: claim {label!r} missing in the concrete run")
                    continue
                va, vb = x["a"], x["b"]
                if not (isinstance(va, float) and isinstance(vb, float)):
                    continue
                lim = cases[i].get("val_tol", 1e-5)
                for s, v in ((a, va), (b, vb)):
                    if not abs(s - v) <= lim * (1 + abs(s) + abs(v)):
                        ok = False
                        problems.append(f"{cases[i]['name']}: {label!r} encoded {s!r} but the real code gives {v!r} at {env}")
            validated += ok
    for i, r in results.items():
        for e in r["errors"]:
            problems.append(f"{r.get('name')}: {e}")
        if r.get("skipped"):
            problems.append(f"{r['name']}: {r['skipped']} claims or paths not examined after failures")
        if r["vacuous"] and not r["errors"] and not r["cands"]:
            problems.append(f"{r.get('name')}: vacuous (no reachable claim)")
        for j, cd in enumerate(r["cands"]):
            if (i, j) not in confirmed and (i, j) not in knownc:
                problems.append(f"{r['name']}: {cd['label']} [{cd.get('status', 'exception')}] not reproduced: {cd.get('detail')}")
        if len(r["undecided"]) > len(r["cands"]):
            problems.append(f"{r['name']}: undecided {r['undecided'][:3]}")

    tot = lambda k: sum(r.get(k, 0) for r in results.values())  # noqa: E731
    st = {}
    for r in results.values():
        for k, v in r.get("stats", {}).items():
            st[k] = max(st.get(k, 0), v) if k == "max_time" else st.get(k, 0) + v
    funcs = sorted({tuple(f) for r in results.values() for f in r["funcs"]})
    wall = time.time() - t0
    samples = []
    for i, r in list(results.items())[:6]:
        if r["samples"]:
            s = r["samples"][0]
            samples.append(dict(case=r["name"], inputs=s["env"], claims=[dict(label=a[0], lhs=a[2], rhs=a[3]) for a in s["pred"][:3]]))
    ev = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=tot("paths"), transitions=tot("branches"), traces_validated_against_impl=validated, samples=samples,
            cases=len(results), obligations=tot("obls"), discharged=tot("unsat"), nodes_merged_by_sweeping=tot("swept"),
            solver=dict(queries=st.get("queries", 0), unsat=st.get("unsat", 0), sat=st.get("sat", 0), unknown=st.get("unknown", 0),
                        cvc5_calls=st.get("cvc5", 0), seconds=round(st.get("time", 0), 2), slowest=round(st.get("max_time", 0), 3)),
            functions_encoded=[f"{a}:{b}" for a, b in funcs],
            infeasible_paths_dropped=tot("stopped"), paths_beyond_bound=tot("truncated"),
            reachability_witnesses=sum(1 for r in results.values() if not r["vacuous"]),
            bounds=getattr(mod, "BOUNDS", {}).get(tier) or getattr(mod, "BOUNDS", {}).get("quick", ""),
            outside=getattr(mod, "OUTSIDE", ""),
            explanation="states = explored paths of the real code, transitions = branch decisions on them; an obligation is "
                        "discharged when the solver answers unsat to its negation under the path condition; validated traces "
                        "are inputs on which the encoding's values agree with the running code",
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=len(violations),
    )
    if problems:
        ev["coverage"]["problems"] = [p[:500] for p in problems[:20]]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if only is None:
        with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)

    for k in known_hit.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    print(f"{pid} {tier}: {len(results)} cases, {tot('paths')} paths, {tot('unsat')}/{tot('obls')} claims discharged, "
          f"{st.get('queries', 0)} queries ({st.get('time', 0):.1f}s solver), {validated} traces validated, "
          f"symbolic {t_sym:.1f}s, total {wall:.1f}s")
    if verbose:
        for i in order:
            r = results[i]
            print(f"   {r.get('name'):40s} {r['time']:7.2f}s paths={r['paths']} obls={r['unsat']}/{r['obls']} swept={r.get('swept')}")
    if violations:
        d = os.path.join(HERE, "evidence", "replays")
        os.makedirs(d, exist_ok=True)
        violations.sort(key=lambda v: {"cand": 0, "sample": 1, "blind": 2}[v["origin"]])
        v = violations[0]
        path = os.path.join(d, f"{pid}.json")
        with open(path, "w") as f:
            json.dump(dict(prop=pid.lower(), harness=v["harness"], params=v["params"], env=v["env"], label=v["label"],
                           got=v["got"], expected=v["expected"], others=violations[1:20]), f, indent=1, default=str)
        for x in violations[:6]:
            print(f"  {x['case']} / {x['label']}: got {x['got']} expected {x['expected']} at {json.dumps(x['env'])[:300]} [{x['origin']}]")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if problems:
        for p in problems[:12]:
            print("PROBLEM", p)
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)

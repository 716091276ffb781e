#!/usr/bin/env python3
"""check.py <property> : verifies every function under contract of one property on /repo's current tree.
exit 0: all obligations discharged; exit 1 + VIOLATION line otherwise."""
import sys, os, time, json, shutil, tempfile, signal, traceback, threading, multiprocessing as mp
ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(ROOT, "spvc"))
import cast, reg, run, solve, driver

PID = sys.argv[1]
TIER = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1"))
T0 = time.time()
LIMIT = float(os.environ.get("SPVC_LIMIT", "640"))
HARD = float(os.environ.get("SPVC_HARD", "840"))
NPROC = int(os.environ.get("SPVC_PROCS", str(min(8, os.cpu_count() or 4))))

class Late(Exception): pass
def one(job):
    name, scale, limit, part = job
    f = reg.FNS[name]
    def alarm(*a): raise Late()
    signal.signal(signal.SIGALRM, alarm); signal.alarm(max(5, int(limit)))
    solve.SCALE = scale; solve.cache.clear()
    solve.stats.update(queries=0, time=0.0, by={})
    try:
        r = driver.verify(U, reg.FNS, f, part=part)
    except Late:
        r = driver.Result(f); r.error = "undecided within the time limit"
    except RecursionError:
        r = driver.Result(f); r.error = "recursion limit of the verifier"
    except Exception as e:
        r = driver.Result(f); r.error = "verifier: " + repr(e)[:300]
        if os.environ.get("SPVC_DEBUG"): traceback.print_exc()
    finally: signal.alarm(0)
    return dict(name=name, part=part, ok=r.ok, error=r.error, time=r.time, n=len(r.obls), by=dict(by(r)), info={k: (sorted(v) if isinstance(v, set) else v) for k, v in r.info.items()},
                failed=[(o.status, o.name(), (o.detail or "")[:20000] if isinstance(o.detail, str) else "") for o in r.failed], kinds=kinds(r), solver_time=solve.stats["time"], queries=solve.stats["queries"])
def merge(n, rs):
    if len(rs) == 1: return rs[0]
    out = dict(name=n, ok=all(r["ok"] for r in rs), error=next((r["error"] for r in rs if r["error"]), None), info={}, by={}, kinds={}, failed=[], levels={r.get("part"): r["info"].get("hlevel") for r in rs if "info" in r})
    for k in ("n", "solver_time", "queries"): out[k] = sum(r[k] for r in rs)
    out["time"] = sum(r["time"] for r in rs)
    for r in rs:
        out["failed"] += r["failed"]
        for m in ("by", "kinds"):
            for k, v in r[m].items(): out[m][k] = out[m].get(k, 0) + v
        for k, v in r["info"].items():
            if k == "inv": out["info"]["inv"] = {x: out["info"].get("inv", {}).get(x, 0) + v[x] for x in v}
            elif isinstance(v, (list, set)): out["info"][k] = sorted(set(out["info"].get(k, [])) | set(v))
            else: out["info"][k] = v
    return out
def look(a):
    n, budget, scratch, term = a; f = reg.FNS[n]
    if f.driver: return f.driver(LIB, f, scratch, budget, SEED)
    import conc
    return conc.search(LIB, f, budget, SEED, term=term, samples=60000 if TIER == "thorough" else 4000)
def by(r):
    d = {}
    for o in r.obls:
        if o.status == "unsat": d[o.solver or "simplify"] = d.get(o.solver or "simplify", 0) + 1
    return d
def kinds(r):
    d = {}
    for o in r.obls: d[o.kind] = d.get(o.kind, 0) + 1
    return d

def main():
    global U
    scratch = tempfile.mkdtemp(prefix="spvc_")
    try: return body(scratch)
    finally: shutil.rmtree(scratch, ignore_errors=True)

def body(scratch):
    global U
    ev_dir = os.path.join(ROOT, "evidence"); os.makedirs(ev_dir, exist_ok=True)
    run.load_specs()
    try: U = cast.Unit(scratch)
    except RuntimeError as e:
        print(e); print("the current tree cannot be parsed"); return 2
    names = list(reg.PROPS.get(PID, []))
    if "SPVC_JOBS" not in os.environ: os.environ["SPVC_JOBS"] = str(max(2, 12 // max(1, len(names))))
    solve.sem = threading.Semaphore(int(os.environ["SPVC_JOBS"]))
    hints = {}
    try: hints = json.load(open(os.path.join(ROOT, "specs", "times.json")))
    except OSError: pass
    res = {}; queue = set()
    ctx = mp.get_context("fork"); pool = ctx.Pool(NPROC, maxtasksperchild=20)
    pend = []; parts = {}
    def start(ns, scale):
        for n in sorted(ns, key=lambda n: -hints.get(n, 5)):
            if n in queue: continue
            queue.add(n); f = reg.FNS[n]
            ps = [None] if not f.cases or hints.get(n, 5) < 15 else list(range(-1, len(f.cases)))       # the cases of a slow function in parallel
            parts[n] = {p: None for p in ps}
            for p in ps: pend.append((n, p, pool.apply_async(one, ((n, scale, LIMIT - (time.time() - T0), p),))))
    def drain(end):
        while pend:
            for it in list(pend):
                n, p, a = it
                if a.ready():
                    pend.remove(it)
                    try: r = a.get()
                    except Exception as e: r = dict(name=n, ok=False, error="verifier: " + repr(e)[:300], time=0, n=0, by={}, info={}, failed=[], kinds={}, solver_time=0, queries=0)
                    parts[n][p] = r
                    if None not in parts[n].values():
                        r = merge(n, list(parts[n].values()))
                        if n not in res or not res[n]["ok"]: res[n] = r
                    # contracts that were relied upon are checked here as well
                    start([c for c in r["info"].get("contracts", []) if c in reg.FNS], 1)
            if time.time() > end: break
            time.sleep(0.02)
    start(names, 1)
    drain(T0 + LIMIT)
    bad = [n for n in queue if n not in res or not res[n]["ok"]]
    import conc
    lib = [None]; found = {}; stats = {}
    def search(ns, budget):
        """look for failing inputs of functions with undischarged obligations, in parallel"""
        global LIB
        ns = [n for n in ns if n not in found and reg.FNS[n].fn in U.funcs]
        if not ns: return
        if lib[0] is None:
            try: lib[0] = conc.Lib(U, scratch)
            except Exception as e: lib[0] = False; print("no concrete search:", str(e)[:300])
        if lib[0] is False: return
        LIB = lib[0]
        with ctx.Pool(min(NPROC, len(ns)), maxtasksperchild=1) as pl:
            hs = [(n, pl.apply_async(look, ((n, budget, scratch, any("termination" in x[1] for x in res.get(n, {}).get("failed", []))),))) for n in ns]
            end = time.time() + budget * (1 + (len(ns) - 1) // NPROC) + 40
            for n, a in hs:
                try: fd, stats[n] = a.get(timeout=max(1, end - time.time()))
                except Exception as e: fd = None; stats[n] = {"exc": repr(e)[:300]}
                if fd: found[n] = fd
    search(bad, 12)
    if bad and not found:
        retry = [n for n in bad if n in res and not (res[n]["error"] or "").startswith("Unsupported")]
        if retry and time.time() - T0 < LIMIT * 0.5:
            queue.difference_update(retry); start(retry, 4); drain(T0 + LIMIT)
    pool.terminate()
    order = names + sorted(set(queue) - set(names))
    for n in order: res.setdefault(n, dict(name=n, ok=False, error="undecided within the time limit", time=0, n=0, by={}, info={}, failed=[], kinds={}, solver_time=0, queries=0))
    bad = [n for n in order if not res[n]["ok"]]
    known = load_known()
    if TIER == "thorough" and not bad:      # the proof is tested against the compiled program: every contract evaluated on random inputs that satisfy its preconditions
        search(order, max(5.0, min(90.0, (LIMIT - (time.time() - T0)) / (1 + len(order) // NPROC))))
        bad = [n for n in order if n in found]
    if bad and not found: search(bad, max(5.0, min(60.0, (HARD - 60 - (time.time() - T0)) / (1 + len(bad) // NPROC))))
    viol = []; other = []
    for n in bad:
        r = res[n]; why = [x[1] for x in r["failed"]] or [r["error"] or "?"]; fd = found.get(n)
        path = os.path.join("evidence", f"{PID}.{n.replace('#', '.')}.replay.json")
        json.dump({"property": PID, "function": n, "failed obligations": why, "error": r["error"], "failing input": fd and fd[0], "observed": fd and fd[1], "search": stats.get(n),
                   "verifier output": [x[2] for x in r["failed"]][:3], "how to replay": f"python3 spvc/conc.py {n}"}, open(os.path.join(ROOT, path), "w"), indent=1, default=str)
        (viol if fd or not found else other).append((n, fd, why, path))
    exitcode = 0
    reported = 0
    for n, fd, why, path in viol + other:
        print(f"-- {n}: {len(why)} obligation(s) not discharged: " + "; ".join(why[:4]) + (" (first attempt only)" if found and not fd else ""))
        if fd: print(f"   input: {json.dumps(fd[0], default=str)[:600]}\n   {fd[1]}")
    for k in known:
        if isinstance(k, dict) and k.get("property") == PID and k.get("kind") == "finding": print(f"KNOWN-FINDING: property={PID} {k['what']}")
    for n, fd, why, path in viol:
        exitcode = 1; reported += 1
        print(f"VIOLATION property={PID} replay={path}" + ("" if fd else " no-failing-input-found"))
    tot = sum(res[n]["n"] for n in order); dis = sum(sum(res[n]["by"].values()) for n in order)
    backends = {}
    for n in order:
        for k, v in res[n]["by"].items(): backends[k] = backends.get(k, 0) + v
    notes = sorted({x for n in order for x in res[n]["info"].get("notes", [])})
    ext = sorted({x for n in order for x in res[n]["info"].get("externs", [])})
    inl = sorted({x for n in order for x in res[n]["info"].get("inlined", [])})
    kd = {}
    for n in order:
        for k, v in res[n]["kinds"].items(): kd[k] = kd.get(k, 0) + v
    fm = sorted({reg.FNS[n].fmode for n in order})
    trusted = ["clang 18 (AST of the verified text), gcc (the compiled program)", "spvc: symbolic execution, memory model and invariant checking in /verif/spvc", "z3 5.x, cvc5 1.1, z3 4.8 (any one of them saying unsat)"]
    if ext: trusted.append("assumed contracts of C library functions: " + ", ".join(ext))
    asm = list(notes)
    if "U" in fm: asm.append("doubles: uninterpreted + * / with only laws valid for every IEEE-754 double; order by an embedding into the reals")
    if "R" in fm: asm.append("doubles of " + ", ".join(n for n in order if reg.FNS[n].fmode == "R") + " treated as exact reals (rounding and overflow not modelled)")
    for n in order:
        if reg.FNS[n].note: asm.append(f"{n}: {reg.FNS[n].note}")
    asm.append("type-based memory model: cells are accessed with the type they were written with; distinct allocations never overlap")
    ev = {"property": PID, "tier": TIER, "seed": SEED, "level": reg.LEVELS.get(PID, "proof"), "wall_s": round(time.time() - T0, 2), "violations": reported, "assumptions": asm,
          "coverage": {**({"contracts_run_on_the_compiled_program": {n: (stats.get(n) or {}).get("run", 0) for n in order}} if TIER == "thorough" else {}), "obligations": tot, "discharged": dis, "checker_cmd": f"python3 check.py {PID}", "trusted_base": trusted, "functions_under_contract": order, "of_this_property": names,
                       "obligations_by_function": {n: res[n]["n"] for n in order}, "obligations_by_kind": kd, "discharged_by_backend": backends, "inlined_without_contract": inl,
                       "solver_queries": sum(res[n]["queries"] for n in order), "solver_seconds": round(sum(res[n]["solver_time"] for n in order), 2), "undischarged": [w for v in viol + other for w in v[2]][:50],
                       "inferred_invariants_kept": sum(res[n]["info"].get("inv", {}).get("kept", 0) for n in order if res[n]["info"].get("inv"))}}
    json.dump(ev, open(os.path.join(ev_dir, PID + ".json"), "w"), indent=1)
    if os.environ.get("SPVC_TIMES"):
        for n in order: hints[n] = round(res[n]["time"], 1)
        json.dump(hints, open(os.path.join(ROOT, "specs", "times.json"), "w"), indent=0, sort_keys=True)
        for n in order:
            if res[n]["ok"]: driver.LEVEL.update({f"{n}#{p}": l for p, l in res[n]["levels"].items()} if res[n].get("levels") else {n: res[n]["info"]["hlevel"]})
        json.dump(driver.LEVEL, open(os.path.join(ROOT, "specs", "levels.json"), "w"), indent=0, sort_keys=True)
    print(f"{PID}: {len(order)} functions under contract, {dis}/{tot} obligations discharged, {time.time() - T0:.1f} s")
    return exitcode

def load_known():
    try: return json.load(open(os.path.join(ROOT, "known-findings.json")))
    except OSError: return []
if __name__ == "__main__": sys.exit(main())

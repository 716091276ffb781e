"""Obligation -> SMT-LIB -> solver portfolio (z3-new 5.x, cvc5, z3 4.8)."""
import re, subprocess, time, hashlib, os, threading
from concurrent.futures import ThreadPoolExecutor
from term import *
import term as tm

SOLVERS = {
    "z3": ["z3-new", "-smt2", "-in", "-T:%d"],
    "z3n": ["z3-new", "-smt2", "-in", "-T:%d", "smt.mbqi=false"],
    "z3e": ["z3-new", "-smt2", "-in", "-T:%d", "smt.arith.solver=2"],
    "cvc5": ["cvc5", "--lang=smt2", "--produce-models", "--tlimit=%d000"],
    "z348": ["/usr/bin/z3", "-smt2", "-in", "-T:%d"],
    **{f"zM{i}": ["/usr/bin/z3", "-smt2", "-in", "-T:%d", "smt.mbqi=false", f"smt.random_seed={i}"] for i in (0, 2, 5)},
    "zE": ["/usr/bin/z3", "-smt2", "-in", "-T:%d", "auto_config=false", "smt.mbqi=false"],      # pattern matching only: fast, gives up early
}
sem = threading.Semaphore(int(os.environ.get("SPVC_JOBS", "8")))
cache = {}
stats = {"queries": 0, "time": 0.0, "by": {}}
lock = threading.Lock()

SCALE = 1
MATCH = 0       # 1: quick queries by pattern matching only, 2: several search orders for stated invariants
def run_solver(name, text, tmo, want_model=False):
    tmo *= SCALE
    cmd = [c % tmo if "%d" in c else c for c in SOLVERS[name]]
    with sem:
        t0 = time.time()
        try:
            r = subprocess.run(cmd, input=text.encode(), capture_output=True, timeout=tmo + 5)
            out = r.stdout.decode()
        except subprocess.TimeoutExpired:
            out = "unknown"
        dt = time.time() - t0
    first = out.strip().split("\n")[0] if out.strip() else ""
    if os.environ.get("SPVC_DEBUG_TIME") and dt > 2: print("SLOW", name, round(dt,1), first, hashlib.sha1(text.encode()).hexdigest()[:8]); open("/tmp/w/slow_"+hashlib.sha1(text.encode()).hexdigest()[:8]+".smt2","w").write(text)
    if "error" in out and first not in ("sat", "unsat"):
        first = "error"
        if os.environ.get("SPVC_DEBUG"): print("SOLVER ERROR", name, out[:500])
    if first not in ("sat", "unsat"): first = "unknown" if first != "error" else "error"
    with lock:
        stats["queries"] += 1; stats["time"] += dt
    return first, out, dt

class Logic:
    """recursive logic functions with their defining equation"""
    def __init__(self): self.defs = {}
    def add(self, name, fn): self.defs[name] = fn     # fn(args) -> term (one unfolding)

SPLIT = False
def skolem(goal, hyps):
    """[(hyps, goal)] after splitting conjunctions, moving implications and skolemising"""
    out = []
    st = [(list(hyps), goal)]
    while st:
        h, g = st.pop()
        if g is TRUE: continue
        if g.op == "and":
            for a in reversed(g.args): st.append((list(h), a))
        elif g.op == "=>": st.append((h + [g.args[0]], g.args[1]))
        elif g.op == "forall":
            m = {v: fresh("sk_" + v.val.split("?")[0], v.sort) for v in g.val}
            body = subst(g.args[0], m); ne = []
            if SPLIT and len(g.val) == 1 and g.val[0].sort == INT:      # the element written last is a case of its own
                sk = m[g.val[0]]; at = []
                for x in subterms([body]):
                    if x.op == "select" and x.args[0].op == "store":
                        d = tm.Sub(x.args[0].args[1], tm.Sub(x.args[1], sk))
                        if sk not in subterms([d]) and d not in at: at.append(d)
                for d in at[:2]:
                    st.append((h, subst(g.args[0], {g.val[0]: d}))); ne.append(Not(Eq(sk, d)))
            st.append((h + ne, body))
        elif g.op == "or" and any(a.op in ("forall", "and") for a in g.args[-1:]):
            st.append((h + [Not(a) for a in g.args[:-1]], g.args[-1]))
        elif g.op == "ite" and g.sort == BOOL:
            st.append((h + [g.args[0]], g.args[1])); st.append((h + [Not(g.args[0])], g.args[2]))
        else: out.append((h, g))
    return out

def flat(hyps):
    """flatten conjunctions, skolemise top-level existentials"""
    out = []; st = list(reversed(hyps))
    while st:
        h = st.pop()
        if h is TRUE: continue
        if h.op == "and": st.extend(reversed(h.args)); continue
        if h.op == "not" and h.args[0].op == "forall":
            g = h.args[0]
            st.append(Not(subst(g.args[0], {v: fresh("ex_" + v.val.split("?")[0], v.sort) for v in g.val}))); continue
        if h.op == "not" and h.args[0].op == "or": st.extend(Not(a) for a in h.args[0].args); continue
        if h.op == "not" and h.args[0].op == "=>": st.extend([h.args[0].args[0], Not(h.args[0].args[1])]); continue
        out.append(h)
    return out

_ri = {}; tm.CACHES.append(_ri)
def reindex(roots):
    """quantified facts about A[base + k] are restated over the absolute index, so that patterns match whatever sum an index is"""
    m = {}
    for t in subterms(roots):
        if t.op != "forall" or len(t.val) > 2 or any(v.sort != INT for v in t.val): continue
        r = _ri.get(t.id)
        if r is None: r = _ri[t.id] = reindex1(t) if len(t.val) == 1 else reindex2(t)
        if r is not t: m[t] = r
    if not m: return roots
    cache = {}
    out = []
    for r in roots:
        r2 = m.get(r)
        if r2 is None: r2 = _ri.get(("root", r.id))
        if r2 is None: r2 = _ri[("root", r.id)] = subst(r, m, cache) if any(x in m for x in subterms([r])) else r
        out.append(r2)
    return out
def reindex1(t):
    if len(free_bvars(t)): return t
    v = t.val[0]; body = t.args[0]; vers = {}
    sub = subterms([body])
    if any(x.op == "forall" for x in sub): return t
    for x in sub:
        if x.op != "select" or x.args[1].sort != INT or v not in free_bvars(x.args[1]): continue
        A, i = x.args
        c, l = tm.lin(i)
        if free_bvars(A) or l.get(v.id) not in (1, -1): continue
        if any(v in free_bvars(tm._byid[k]) for k in l if k != v.id): continue
        vers[(A.id, i.id)] = (A, i, l[v.id])
    if not vers:
        for x in sub:                       # no array: applications of logic functions with the variable in one argument
            if x.op != "app": continue
            ks = [n for n, y in enumerate(x.args) if v in free_bvars(y)]
            if len(ks) != 1 or x.args[ks[0]].sort != INT: continue
            i = x.args[ks[0]]; c, l = tm.lin(i)
            if l.get(v.id) not in (1, -1) or any(v in free_bvars(tm._byid[k]) for k in l if k != v.id): continue
            vers[x.id] = (x, i, l[v.id])
    if not vers or len(vers) > 4: return t
    out = []
    for A, i, sg in vers.values():
        j = tm.fresh_bvar("j", INT)
        base = tm.Sub(i, v) if sg == 1 else tm.Add(i, v)
        val = tm.Sub(j, base) if sg == 1 else tm.Sub(base, j)
        b = subst(body, {v: val})
        ok = not any(x.op in ("ite", "and", "or", "not", "=", "<=", "<") for x in subterms([A]))
        pat = tm._mk("app", tuple(j if y is i else y for y in A.args), A.sort, A.val) if A.op == "app" and v in free_bvars(A) else Select(A, j)
        if b in (TRUE, FALSE): return t
        out.append(tm._mk("forall", (b, pat) if ok and pat.op in ("select", "app") else (b,), BOOL, (j,)))
    return And(*out)

def reindex2(t):
    """two variables, each the index of one array element: one pattern of both"""
    if len(free_bvars(t)) or len(t.args) > 1: return t
    sub = subterms(t.args[0]) if isinstance(t.args[0], list) else subterms([t.args[0]])
    if any(x.op == "forall" for x in sub): return t
    m = {}; pats = []
    for v in t.val:
        for x in sub:
            if x.op != "select" or x.args[1].sort != INT or v not in free_bvars(x.args[1]): continue
            A, i = x.args
            c, l = tm.lin(i)
            if free_bvars(A) or l.get(v.id) not in (1, -1) or any(free_bvars(tm._byid[k]) for k in l if k != v.id): continue
            if any(y.op in ("ite", "and", "or", "not", "=", "<=", "<") for y in subterms([A])): continue
            j = tm.fresh_bvar("j", INT)
            m[v] = tm.Sub(j, tm.Sub(i, v)) if l[v.id] == 1 else tm.Sub(tm.Add(i, v), j)
            pats.append(Select(A, j)); break
        else: return t
    b = subst(t.args[0], m)
    if b in (TRUE, FALSE): return t
    return tm._mk("forall", (b, *pats), BOOL, tuple(p.args[1] for p in pats))

def build(hyps, goal, dom, logic, depth=2, heap_axioms=True, relevance=True, extra=(), members=True):
    hyps = flat(hyps + [Not(goal)])
    if FALSE in hyps: return None
    roots = list(hyps)
    # unfold logic functions
    extra_facts = []
    done = set()
    frontier = roots
    for d in range(depth):
        new = []
        for t in subterms(frontier):
            if t.op == "app" and t.val in logic.defs and t.id not in done and not free_bvars(t):
                done.add(t.id)
                r = logic.defs[t.val](t.args)
                for eq in (r if isinstance(r, list) else [Eq(t, r)]):
                    if eq is not TRUE: new.append(eq)
        if not new: break
        extra_facts += new; frontier = new
    roots = roots + extra_facts + perm_facts(roots + extra_facts, members) + (frame_facts(roots + extra_facts, logic) if getattr(logic, "frame", None) else [])
    terms = subterms(roots)
    facts = dom.facts(terms)
    roots += [f for f in facts if f is not TRUE]
    terms = subterms(roots)
    pr = Printer()
    rf = []
    for t in terms:
        r = ranges.get(t.id)
        if r and t.op not in ("int",) and not free_bvars(t) and t.sort == INT:
            if r[0] is not None: rf.append(tm._mk("<=", (I(r[0]), t), BOOL))
            if r[1] is not None: rf.append(tm._mk("<=", (t, I(r[1])), BOOL))
        if t.op == "app" and t.val == "fkey" and not free_bvars(t):
            rf.append(tm._mk("<=", (R(-2 ** 1024), t), BOOL)); rf.append(tm._mk("<=", (t, R(2 ** 1024)), BOOL))
    roots += rf
    hasq = any(t.op == "forall" for t in terms)
    if hasq: roots = reindex(roots)
    head, lines, txt = pr.run(roots)
    ax = []
    if heap_axioms and hasq:
        for n, s in pr.decls.items():
            hr = heap_ranges.get(n)
            if not hr: continue
            if s == ARR(INT, ARR(INT, INT)):
                e = f"(select (select {q(n)} o) k)"
                ax.append(f"(assert (forall ((o Int) (k Int)) (! (and (<= {_i(hr[0])} {e}) (<= {e} {_i(hr[1])})) :pattern ({e}))))")
            elif s == ARR(INT, INT):
                e = f"(select {q(n)} k)"
                ax.append(f"(assert (forall ((k Int)) (! (and (<= {_i(hr[0])} {e}) (<= {e} {_i(hr[1])})) :pattern ({e}))))")
    if dom.name == "U":
        from fdom import AXIOMS
        for f in sorted({t.val for t in terms if t.op == "app" and t.bv and t.val in AXIOMS}):
            if f in ("fabs", "fneg", "i2f"):
                for g, sg in (("fkey", ((FS,), REAL)), ("fnan", ((FS,), BOOL))):
                    if g not in pr.funs: pr.funs[g] = sg; head.append(f"(declare-fun |{g}| (F) {sg[1]})")
            ax.append(f"(assert {AXIOMS[f]})")
    if any(t.op == "app" and t.val == "mulu32" for t in terms):
        from fdom import AXIOMS
        ax.append(f"(assert {AXIOMS['mulu32']})")
    if pr.nl: head = ["@NL@"] + head
    body = "\n".join(f"(assert {x})" for x in txt)
    sorts = "(declare-sort F 0)\n" if any("F" in str(x) for x in head) else ""
    return "(set-logic ALL)\n" + sorts + "\n".join(head) + "\n" + "\n".join(ax) + "\n" + "\n".join(lines) + "\n" + body + "\n(check-sat)\n" + "".join(extra)
def _i(n): return str(n) if n >= 0 else f"(- {-n})"
heap_ranges = {}

def prove(hyps, goal, dom, logic, tmo=10, quick=False, order=None, depth=2):
    """-> (status, solver, time, [subgoal texts not proved]); status in unsat(proved)/sat/unknown"""
    subs = skolem(goal, hyps)
    worst = "unsat"; tt = 0; who = "simplify"; bad = []
    for h, g in subs:
        txt = build(h, g, dom, logic, depth)
        if txt is None: continue
        r, w, dt = decide(txt, tmo, quick, order)
        tt += dt
        if r == "unsat":
            who = w
        else:
            bad.append((txt, g, r))
            worst = "sat" if r == "sat" else ("unknown" if worst != "sat" else worst)
            if quick: return worst, w, tt, bad
            break
    return worst, who, tt, bad

_tok = re.compile(r"[^\s()|]*[!?]\d+")
NL_DEF = """(define-fun nmul ((x Int) (y Int)) Int (* x y))
(define-fun ndiv ((x Int) (y Int)) Int (div x y))
(define-fun nmod ((x Int) (y Int)) Int (mod x y))"""
NL_UF = """(declare-fun nmul (Int Int) Int)
(declare-fun ndiv (Int Int) Int)
(declare-fun nmod (Int Int) Int)
(assert (forall ((x Int) (y Int)) (! (and (= (nmul x y) (nmul y x)) (=> (and (<= 0 x) (<= 0 y)) (<= 0 (nmul x y)))) :pattern ((nmul x y)))))
(assert (forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (< 0 y)) (and (<= 0 (ndiv x y)) (<= (ndiv x y) x))) :pattern ((ndiv x y)))))
(assert (forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (< 0 y)) (and (<= 0 (nmod x y)) (< (nmod x y) y) (<= (nmod x y) x))) :pattern ((nmod x y)))))"""
NL_AX = """
(assert (forall ((x Int) (y Int)) (! (=> (< 0 y) (= x (+ (nmul y (ndiv x y)) (nmod x y)))) :pattern ((ndiv x y)) :pattern ((nmod x y)))))
(assert (forall ((x Int) (y Int)) (! (=> (and (<= 0 x) (< x y)) (and (= 0 (ndiv x y)) (= x (nmod x y)))) :pattern ((ndiv x y)) :pattern ((nmod x y)))))
(assert (forall ((x Int) (y Int)) (! (=> (and (< 0 y) (= x y)) (and (= 1 (ndiv x y)) (= 0 (nmod x y)))) :pattern ((ndiv x y)) :pattern ((nmod x y)))))
(assert (forall ((x Int) (y Int)) (! (and (=> (= x 0) (= 0 (nmul x y))) (=> (= x 1) (= y (nmul x y)))) :pattern ((nmul x y)))))
(assert (forall ((x Int) (y Int) (r Int)) (! (and (=> (and (< 0 r) (< x y)) (<= (+ r (nmul x r)) (nmul y r))) (=> (= y (+ x 1)) (= (nmul y r) (+ r (nmul x r))))) :pattern ((nmul x r) (nmul y r)))))"""
NLAX = False

def canon(txt):
    m = {}
    def f(x):
        t = x.group(0); r = m.get(t)
        if r is None: r = m[t] = f"{t[0]}~{len(m)}"
        return r
    return hashlib.sha1(_tok.sub(f, txt).encode()).hexdigest()
def decide(txt, tmo, quick, order=None):
    if "@NL@" in txt:
        r, w, dt = decide(txt.replace("@NL@", NL_UF + (NL_AX if NLAX else "")), min(tmo, 3), True if quick else None, order)
        if r == "unsat": return r, w, dt
        r, w, d2 = decide(txt.replace("@NL@", NL_DEF), tmo, quick, order)
        return r, w, dt + d2
    h = canon(txt)
    only = quick and MATCH
    with lock:
        c = cache.get(h)
        if only and not c: c = cache.get(h + ("WE" if quick == 2 and MATCH == 2 else "E"))
    if c and (c[0] != "unknown" or c[3] >= tmo): return c[0], c[1], 0.0
    order = order or ["z3", "cvc5", "z3n", "z348", "zM2", "zM5"]
    t_all = 0
    res = ("unknown", "none")
    r, o, dt = ("unknown", "", 0) if c else run_solver("zE", txt, min(tmo, 1))
    t_all += dt
    if r != "unsat" and only and quick == 2 and MATCH == 2:        # a stated invariant
        r, o, dt = seeds(txt); t_all += dt
        if r != "unsat": h += "W"
    if r == "unsat" or only:
        res = (r, "z348")
        if r != "unsat": res = ("unknown", "none"); h += "E"
    elif quick:
        who = order[0]; r, o, dt = run_solver(who, txt, tmo); t_all += dt
        res = (r, who)
    elif quick is None:
        r, o, dt = run_solver("z3", txt, 1); t_all += dt
        if r != "unsat": r, o, dt = run_solver("z3n", txt, tmo); t_all += dt
        res = (r, "z3")
    else:
        # short try, then a parallel portfolio
        r, o, dt = run_solver(order[0], txt, 2); t_all += dt
        res = (r, order[0])
        if r not in ("unsat", "sat"):
            got = portfolio(order, txt, tmo)
            t_all += got[2]; res = (got[0], got[1])
    if res[0] == "error": res = ("unknown", res[1])
    with lock:
        cache[h] = (res[0], res[1], None, tmo)
        if res[0] == "unsat": stats["by"][res[1]] = stats["by"].get(res[1], 0) + 1
    return res[0], res[1], t_all

def seeds(txt):
    """instantiation by patterns is sensitive to the search order: several short tries"""
    t = 0
    for n in ("zM0", "zM2", "zM5"):
        r, o, dt = run_solver(n, txt, 1); t += dt
        if r in ("unsat", "sat"): break
        if dt < 0.5: break          # gave up rather than ran out of time
    return r, o, t

def portfolio(order, txt, tmo):
    tmo *= SCALE
    t0 = time.time(); procs = []
    for n in order:
        cmd = [c % tmo if "%d" in c else c for c in SOLVERS[n]]
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        procs.append((n, p))
        threading.Thread(target=_feed, args=(p, txt), daemon=True).start()
    outs = {}
    def rd(n, p): outs[n] = p.stdout.read().decode()
    ths = []
    for n, p in procs:
        th = threading.Thread(target=rd, args=(n, p), daemon=True); th.start(); ths.append(th)
    end = time.time() + tmo + 3
    res = ("unknown", "none")
    sat = None
    while time.time() < end:
        for n in list(outs):
            f = outs[n].strip().split("\n")[0] if outs[n].strip() else ""
            if f == "unsat": res = ("unsat", n)
            elif f == "sat" and res[0] == "unknown": res = ("sat", n)
        if res[0] in ("unsat", "sat") or len(outs) == len(procs): break
        time.sleep(0.01)
    for n, p in procs:
        if p.poll() is None: p.kill()
        p.wait()
    with lock: stats["queries"] += 1; stats["time"] += time.time() - t0
    return res[0], res[1], time.time() - t0
def _feed(p, txt):
    try: p.stdin.write(txt.encode()); p.stdin.close()
    except (BrokenPipeError, OSError): pass

def model(txt, names, tmo=5):
    """values for the given SMT expressions from a satisfiable (or unknown) query"""
    t = txt.replace("(check-sat)\n", "(check-sat)\n(get-value (" + " ".join(names) + "))\n")
    r, out, _ = run_solver("z3", "(set-option :produce-models true)\n" + t, tmo)
    return r, out

def frame_facts(roots, logic):
    """a logic function for which the frame lemma is an obligation (driver.frame_lemma) depends on its array only at [offset, offset + n)"""
    apps = {}
    for t in subterms(roots):
        if t.op == "app" and t.val in logic.frame and not free_bvars(t): apps.setdefault(t.val, []).append(t)
    for t in subterms(roots):      # quantified: for the arguments of the other applications
        if t.op == "app" and t.val in logic.frame and free_bvars(t):
            p = logic.frame[t.val]; keep = (p, p + 1, len(t.args) - 1)
            if any(free_bvars(t.args[i]) for i in keep): continue
            for y in list(apps.get(t.val, ())):
                x = App(t.val, tuple(t.args[i] if i in keep else y.args[i] for i in range(len(t.args))), t.sort)
                if x not in apps[t.val]: apps[t.val].append(x)
    out = []
    for name, ts in apps.items():
        p = logic.frame[name]
        for i, x in enumerate(ts):
            for y in ts[i + 1:]:
                if any(a is not b for j, (a, b) in enumerate(zip(x.args[:-1], y.args)) if j not in (p, p + 1)) or x.args[p:p + 2] == y.args[p:p + 2] or len(out) > 80: continue
                k = fresh_bvar("k", INT)
                out.append(Implies(And(Eq(x.args[-1], y.args[-1]), Forall([k], Implies(And(Le(I(0), k), Lt(k, x.args[-1])), Eq(Select(x.args[p], Add(x.args[p + 1], k)), Select(y.args[p], Add(y.args[p + 1], k)))))), Eq(x, y)))
    return out
def perm_facts(roots, members=True):
    """perm_k(a, b, lo, hi) is the least relation with perm(a, a) that is closed under exchanging two elements in [lo, hi) of b;
    its defining clauses and their immediate consequences (transitivity, wider ranges, elements outside unchanged) for the terms of a query"""
    ps = [t for t in subterms(roots) if t.op == "app" and t.val.startswith("perm_") and not free_bvars(t)]
    out = []; done = set()
    work = list(ps)
    while work:
        t = work.pop()
        if t.id in done: continue
        done.add(t.id)
        a, b, lo, hi = t.args
        out.append(Implies(Eq(a, b), t))
        k = fresh_bvar("k", INT)
        out.append(Implies(t, Forall([k], Implies(Or(Lt(k, lo), Le(hi, k)), Eq(Select(a, k), Select(b, k))))))
        if members and not (b.op == "store" and b.args[0].op == "store"):      # every element was there before
            o = App("pidx", (a, b, k), INT)
            out.append(Implies(t, Forall([k], Implies(And(Le(lo, k), Lt(k, hi)), And(Le(lo, o), Lt(o, hi), Eq(Select(a, o), Select(b, k)))))))
        if b.op == "store" and b.args[0].op == "store":
            c, i, x = b.args[0].args; j, y = b.args[1:]
            p = App(t.val, (a, c, lo, hi), BOOL) if a is not c else TRUE
            out.append(Implies(And(p, Le(lo, i), Lt(i, hi), Le(lo, j), Lt(j, hi), Eq(x, Select(c, j)), Eq(y, Select(c, i))), t))
            if p is not TRUE: work.append(p)
        if b.op == "ite":
            for c, v in ((b.args[0], b.args[1]), (Not(b.args[0]), b.args[2])):
                p = App(t.val, (a, v, lo, hi), BOOL) if a is not v else TRUE
                out.append(Implies(And(c, p), t)); out.append(Implies(And(c, t), p))
                if p is not TRUE: work.append(p)
    # transitivity with ranges
    for p in ps:
        for q in ps:
            if p is q or p.val != q.val: continue
            if p.args[1] is q.args[0] or (p.args[1].sort == q.args[0].sort and False):
                for r in ps:
                    if r.val == p.val and r.args[0] is p.args[0] and r.args[1] is q.args[1]:
                        out.append(Implies(And(p, q, Le(r.args[2], p.args[2]), Le(p.args[3], r.args[3]), Le(r.args[2], q.args[2]), Le(q.args[3], r.args[3])), r))
                for q2 in ps:       # three in sequence
                    if q2.val == p.val and q2 is not q and q2.args[0] is q.args[1] and q2.args[1] is not q.args[0]:
                        for r in ps:
                            if r.val == p.val and r.args[0] is p.args[0] and r.args[1] is q2.args[1]:
                                out.append(Implies(And(*[And(x, Le(r.args[2], x.args[2]), Le(x.args[3], r.args[3])) for x in (p, q, q2)]), r))
            if p.args[0] is q.args[0] and p.args[1] is q.args[1]:
                out.append(Implies(And(p, Le(q.args[2], p.args[2]), Le(p.args[3], q.args[3])), q))
    return out

"""Verification of one function against its contract."""
import os, time, traceback, json
from concurrent.futures import ThreadPoolExecutor
from term import *
import term as tm
import solve, fdom
from cast import Unsupported, VOID
from sym import ptype, NULLP, Exec, State, Ptr, SVal, Obl, ALLOC0, int_range
from spec import SpecEval, SpecError, parse_expr

class Fn:
    """a contract; params are positional names (independent of the names in the source)"""
    def __init__(s, name, params="", requires=(), ensures=(), assigns=(), inv=(), modular=True, fmode="U", imode="int", cases=None,
                 allocs=(), frees=(), auto=True, opts=None, props=(), terminates=True, note="", alive=None, tmo=10, ghost=None, setup=None, levels=("E", "M", 0, 1), gen=None, conc_ensures=None, driver=None, abs=None, fns=None, ptypes=None, trusted=False, derived=()):
        s.name, s.params = name, params.split() if isinstance(params, str) else list(params)
        L = lambda x: [x] if isinstance(x, str) else list(x)
        s.fn = s.name.split("#")[0]; s.fns = dict(fns or {}); s.ptypes = dict(ptypes or {}); s.trusted = trusted     # name#variant: one of several contracts of a function, for given function arguments and types behind void pointers
        s.requires, s.ensures, s.inv = L(requires), L(ensures), L(inv)
        s.derived = L(derived)      # what the postconditions imply by mathematics the solvers are not asked for: assumed by callers, tested only
        s.assigns = None if assigns is None else L(assigns)
        s.modular, s.fmode, s.imode, s.cases = modular, fmode, imode, cases
        s.allocs, s.frees, s.auto = L(allocs), L(frees), auto
        s.opts = dict(opts or {}); s.props = L(props); s.terminates = terminates; s.note = note
        s.alive = alive; s.tmo = tmo; s.ghost = ghost; s.setup = setup; s.levels = levels; s.gen = gen; s.driver = driver; s.abs = abs; s.conc_ensures = conc_ensures

    def case_requires(s):
        """the cases as one more precondition for callers"""
        if not s.cases: return []
        return [" or ".join("(" + " and ".join(case_cond(c) for c in ([cs] if isinstance(cs, str) else cs)) + ")" for cs in s.cases)]

class Result:
    def __init__(s, fn): s.fn = fn; s.obls = []; s.error = None; s.time = 0; s.info = {}
    @property
    def failed(s): return [o for o in s.obls if o.status != "unsat"]
    @property
    def ok(s): return s.error is None and not s.failed

def param_value(ex, ct, name, facts, pfx="p_"):
    if ct[0] == "int":
        return ex.symval(ct, pfx + name)
    if ct[0] == "double": return ex.d.sym(pfx + name)
    if ct[0] in ("ptr",):
        if ct[1][0] == "func":
            o = set_range(fresh(pfx + name + ".o", INT), 0, ALLOC0 - 1)
            return Ptr(o, I(0), None)
        o = set_range(fresh(pfx + name + ".o", INT), 0, ALLOC0 - 1)
        f = fresh(pfx + name + ".f", INT)
        facts.append(Or(Eq(o, I(0)), Le(I(1000), o)))
        facts.append(Le(I(0), ex.sz(o)))
        facts.append(Implies(Eq(o, I(0)), Eq(f, I(0))))
        return Ptr(o, f, ct[1] if ct[1] != VOID else None)
    if ct[0] in ("struct", "array"):
        out = []
        for i, l in enumerate(ex.u.leaves(ct)):
            out.append(param_value(ex, l, f"{name}.{i}", facts))
        return SVal(out, ct)
    raise Unsupported(f"parameter of type {ct}")

class Covered(Exception): pass
def case_cond(c):
    """a case as a condition of the contract language"""
    if c.startswith("alias ") or c.startswith("set "): a, b = c.split(" ", 1)[1].split("="); return f"{a.strip()} == {b.strip()}"
    if c.startswith("null "): return " and ".join(f"{x} == NULL" for x in c.split()[1:])
    return c
def run_case(unit, specs, fn, hlevel, case, res, cover=None):
    tm.sep_pairs.clear(); solve.SPLIT = fn.opts.get("split", fn.fmode == "R"); solve.NLAX = bool(fn.opts.get("nlax"))
    opts = dict(fn.opts); opts.setdefault("terminates", fn.terminates)
    ex = Exec(unit, specs, fmode=fn.fmode, imode=fn.imode, hlevel=hlevel, opts=opts)
    node = unit.funcs.get(fn.fn)
    if node is None: raise Unsupported("function does not exist: " + fn.name)
    ps = [x for x in node["inner"] if x["kind"] == "ParmVarDecl"]
    if fn.params and len(fn.params) != len(ps): raise Unsupported(f"{fn.name}: the contract has {len(fn.params)} parameters, the function {len(ps)}")
    if not fn.params: fn.params = [p.get("name", f"p{i}") for i, p in enumerate(ps)]
    retct = unit.parse(node["type"]["qualType"].split("(")[0].strip())
    st = State(ex); st.alive = ex.alive0
    if opts.get("frame"):
        from spec import LOGIC
        ex.logic.frame = {nm: [k.endswith("[]") for _, k in LOGIC[nm].params].index(True) for nm in opts["frame"]}
    facts = []
    vals = []
    alias = {}; setv = []; nulls = set()
    reqs = list(fn.requires)
    for c in case:
        if c.startswith("alias "):
            a, b = c[6:].split("="); alias[a.strip()] = b.strip()
        elif c.startswith("null "): nulls.update(c.split()[1:])
        elif c.startswith("set "): a, b = c[4:].split("="); setv.append((a.strip(), int(b)))
        else: reqs.append(c)
    byname = {}
    for p, nm in zip(ps, fn.params):
        ct = unit.ty(p)
        if ct[0] == "array": ct = ("ptr", ct[1])
        if ct[0] == "func": ct = ("ptr", ct)
        if nm in fn.ptypes: ct = ("ptr", ptype(fn.ptypes[nm]))
        v = NULLP if nm in nulls else ex.func_value(fn.fns[nm]) if nm in fn.fns else param_value(ex, ct, nm, facts)
        for a, b in setv:          # a case that fixes an integer parameter or member of a structure parameter
            if a == nm: v = ex.ilit(b, ct)
            elif a.startswith(nm + ".") and ct[0] == "ptr":
                off, ft = ex.u.field_off(ct[1], a[len(nm) + 1:]); ex.store(st, ft, v.o, Add(v.f, I(off)), ex.ilit(b, ft))
            elif a.startswith(nm + "."):
                off, ft = ex.u.field_off(ct, a[len(nm) + 1:]); v.leaves[off] = ex.ilit(b, ft)
        byname[nm] = v; vals.append(v)
    for a, b in alias.items():
        i = fn.params.index(a); vals[i] = byname[b]; byname[a] = byname[b]
    st.assume(Not(Select(ex.alive0, I(0))))
    b = fresh_bvar("o", INT)
    st.assume(Forall([b], Implies(Le(I(ALLOC0), b), Not(Select(ex.alive0, b)))))
    for f in facts: st.assume(f)
    if fn.ghost:
        for g, srt in fn.ghost.items(): st.ghost[g] = fresh("ghost_" + g, srt)
    if fn.setup: fn.setup(ex, st, byname)
    fr_ = [None]
    def top(cur, fr):
        fr_[0] = fr
        for lv in fn.opts.get("logic_vars", ()): fr.bind[lv] = (set_range(fresh("l_" + lv, INT), 0, None), ("int", 64, False))
        ev = SpecEval(ex, cur, cur, None, fr.bind, None)
        terms = []
        for r in reqs:
            t = ev.bool(r); terms.append(t)
        from loops import conj
        for t in terms:
            for c in conj(t):
                if c.op == "not" and c.args[0].op == "=" and c.args[0].args[0].sort == INT:
                    tm.sep_pairs.add(tuple(x.id for x in c.args[0].args))
                if c.op in ("<=", "<"):
                    x, y = c.args; e = 0 if c.op == "<=" else 1
                    if x.op == "sym" and x.sort == INT and y.op == "int": set_range(x, None, y.val - e)
                    if y.op == "sym" and y.sort == INT and x.op == "int": set_range(y, x.val + e, None)
                if c.op == "select" and c.args[0] is ex.alive0 and c.args[1].op == "sym": set_range(c.args[1], 1000, ALLOC0 - 1)
        # evaluate again with the separation known
        for r in reqs: cur.assume(SpecEval(ex, cur, cur, None, fr.bind, None).bool(r))
        for f in ex.facts0: cur.assume(f)
        ex.facts0 = []
        if cover is not None:
            ev = SpecEval(ex, cur, cur, None, fr.bind, None)
            g = Or(*[And(*[ev.bool(case_cond(c)) for c in cs]) for cs in cover])
            for f in ex.facts0: cur.assume(f)
            ex.check(cur, g, "cases", "the cases cover the precondition")
            raise Covered()
        for lem, exprs in fn.opts.get("ghost_entry", ()):       # proved lemmas applied at the entry
            le = SpecEval(ex, cur, cur, None, fr.bind, None)
            vs = [le.ev(parse_expr(x)) for x in exprs]
            ex.call_contract(cur, specs[lem], [v.t for v in vs], VOID)
        return cur.copy()
    try: fl, fr = ex.run_body(st, fn.fn, vals, retct, sp=fn, top=top)
    except Covered: return ex
    entry = fr.entry
    late = [f for f in ex.facts0]
    ex.frames.append(fr)
    ex.line = None
    rets = [(x, v) for x, v in fl.ret if not x.dead()]
    # vacuity
    if rets:
        reach = False
        for x, v in sorted(rets, key=lambda y: len(y[0].pc)):
            r, *_ = solve.prove(list(x.pc) + late, FALSE, ex.d, ex.logic, tmo=2, quick=True)
            if r != "unsat": reach = True; break
    else: reach = False
    o = Obl("vacuity", "some input satisfying the precondition reaches a return", (), TRUE, None, fn.name)
    o.status = "unsat" if reach else "vacuous"; o.solver = "z3"; ex.obls.append(o)
    for x, v in rets:
        x = x.copy()
        for f in late: x.assume(f)
        ev = SpecEval(ex, x, entry, None, fr.bind, (v, retct))
        for e in fn.ensures:
            ex.check(x, ev.bool(e), "postcondition", e)
        if fn.assigns is not None: check_assigns(ex, x, entry, fr, fn)
        check_alive(ex, x, entry, fr, fn, (v, retct))
    for o in ex.obls:
        if late and o.goal is not TRUE: o.hyps = list(o.hyps) + late
    return ex

def check_assigns(ex, st, entry, fr, fn):
    ev = SpecEval(ex, entry, entry, None, fr.bind, None)
    locs = []
    for a in fn.assigns: locs += ev.assign_locs(a)
    for k, h1 in sorted(st.heaps.items()):
        h0 = entry.heap(k)
        if h1 is h0: continue
        objs = set(); ok = True; base = h1
        work = [h1]
        seen = set()
        while work:
            x = work.pop()
            if x.id in seen: continue
            seen.add(x.id)
            if x is h0: continue
            if x.op == "store": objs.add(x.args[1]); work.append(x.args[0])
            elif x.op == "ite": work += [x.args[1], x.args[2]]
            else: ok = False
        if ok:
            flat = set()
            def lv(o):
                if o.op == "ite": lv(o.args[1]); lv(o.args[2])
                else: flat.add(o)
            for o in objs: lv(o)
            for o in sorted(flat, key=lambda t: t.id):
                if o.op == "int" and (o.val <= 0 or o.val > ALLOC0): continue
                b = fresh_bvar("k", INT)
                a1, a0 = Select(h1, o), Select(h0, o)
                if a1 is a0: continue
                allowed = Or(*[And(Eq(lo_o, o), Le(lo, b), Lt(b, hi)) for kk, lo_o, lo, hi in locs if kk == k])
                # nested array stores at explicit positions
                pos = []; y = a1; simple = True
                while y is not a0:
                    if y.op == "store": pos.append(y.args[1]); y = y.args[0]
                    else: simple = False; break
                if simple:
                    for p in pos:
                        ex.check(st, Or(Not(Select(ex.alive0, o)), Eq(Select(a1, p), Select(a0, p)), subst(allowed, {b: p})), "frame", f"only what the contract lists is written ({k})")
                else:
                    ex.check(st, Implies(Select(ex.alive0, o), Forall([b], Or(allowed, Eq(Select(a1, b), Select(a0, b))))), "frame", f"only what the contract lists is written ({k})")
        else:
            o = fresh_bvar("o", INT); b = fresh_bvar("k", INT)
            allowed = Or(*[And(Eq(lo_o, o), Le(lo, b), Lt(b, hi)) for kk, lo_o, lo, hi in locs if kk == k])
            ex.check(st, Forall([o, b], Implies(And(Lt(I(0), o), Select(ex.alive0, o)), Or(allowed, Eq(Select(Select(h1, o), b), Select(Select(h0, o), b))))), "frame", f"only what the contract lists is written ({k})")

def check_alive(ex, st, entry, fr, fn, result):
    """nothing is leaked and nothing is freed but what the contract says"""
    if st.alive is entry.alive: return
    if fn.alive == "any": return
    ev = SpecEval(ex, st, entry, None, fr.bind, result)
    ev0 = SpecEval(ex, entry, entry, None, fr.bind, result)
    objs = [ev.ptr(ev.ev(parse_expr(a))).o for a in fn.allocs]
    # only objects named in the store chain can differ if the chain ends in alive0
    b = fresh_bvar("o", INT)
    fobjs = [ev0.ptr(ev0.ev(parse_expr(a))).o for a in fn.frees]
    ch = set(); ok = True; work = [st.alive]; seen = set()
    while work:
        x = work.pop()
        if x.id in seen: continue
        seen.add(x.id)
        if x is entry.alive: continue
        if x.op == "store": ch.add(x.args[1]); work.append(x.args[0])
        elif x.op == "ite": work += [x.args[1], x.args[2]]
        else: ok = False
    if ok:
        for o in sorted(ch, key=lambda t: t.id):
            ex.check(st, Or(Le(o, I(0)), *[Eq(o, x) for x in objs + fobjs], Eq(Select(st.alive, o), Select(entry.alive, o))), "leak", "every block is released or handed out")
    else:
        ex.check(st, Forall([b], Or(Le(b, I(0)), *[Eq(b, x) for x in objs + fobjs], Eq(Select(st.alive, b), Select(entry.alive, b)))), "leak", "every block is released or handed out")

try: LEVEL = json.load(open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "specs", "levels.json")))
except OSError: LEVEL = {}
def discharge(ex, obls, tmo, order=None):
    jobs = []
    for o in obls:
        if o.status is not None: continue
        if o.goal is TRUE: o.status = "unsat"; o.solver = "simplify"; continue
        texts = []
        for h, g in solve.skolem(o.goal, o.hyps):
            t = solve.build(h, g, ex.d, ex.logic, ex.opts.get("depth", 2))
            if t is not None: texts.append(t)
        if not texts: o.status = "unsat"; o.solver = "simplify"; continue
        jobs.append((o, texts))
    def run(j):
        o, texts = j
        tt = 0; st = "unsat"; who = "z3"
        for t in texts:
            r, w, dt = solve.decide(t, tmo, False, order)
            tt += dt
            if r == "unsat": who = w
            else: st = r; o.detail = t; break
        o.status = st; o.solver = who; o.time = tt
    with ThreadPoolExecutor(int(os.environ.get("SPVC_JOBS", "8"))) as p: list(p.map(run, jobs))

def frame_lemma(ex, name):
    """induction step of: a logic function f(.., a, .., n) depends on a only at [0, n)"""
    from spec import LOGIC
    L = LOGIC[name]
    arr = [i for i, (n, k) in enumerate(L.params) if k.endswith("[]")]
    if len(arr) != 1 or L.params[-1][1] != "int": raise SpecError("frame lemma of " + name)
    def vec(tag):
        out = []
        for n, k in L.params:
            if k.endswith("[]"):
                es = ex.heap_elem_sort({"double": "double"}.get(k[:-2], k[:-2])) if 0 else (ex.d.sort if k == "double[]" else INT)
                out += [fresh("fa" + tag, ARR(INT, es)), fresh("fo" + tag, INT)]
            else: out.append(fresh("f_" + n, ex.d.sort if k == "double" else INT) if tag == "x" else None)
        return out
    x, y = vec("x"), vec("y"); y = [b if b is not None else a for a, b in zip(x, y)]
    n = x[-1]; p = arr[0]
    rs = {"int": INT, "double": ex.d.sort, "bool": BOOL}.get(L.ret, INT)
    SpecEval(ex, ex.dummy_state(), ex.dummy_state(), None, {}, None).logic_def(L)
    A = lambda v, m: App(L.name, tuple(v[:-1] + [m]), rs)
    k = fresh_bvar("k", INT)
    agree = Forall([k], Implies(And(Le(I(0), k), Lt(k, n)), Eq(Select(x[p], Add(x[p + 1], k)), Select(y[p], Add(y[p + 1], k)))))
    o = Obl("frame lemma", f"{name} depends on its array at indices below n only (induction)", (agree, Implies(Lt(I(0), n), Eq(A(x, Sub(n, I(1))), A(y, Sub(n, I(1)))))), Eq(A(x, n), A(y, n)), None, name)
    return o, p

def verify(unit, specs, fn, levels=None, part=None):
    """part: None, or the index of one case (-1: that the cases cover the precondition)"""
    key = fn.name if part is None else f"{fn.name}#{part}"
    res = Result(fn); t0 = time.time()
    levels = list(levels or fn.levels)
    if LEVEL.get(key) in levels: levels.remove(LEVEL[key]); levels.insert(0, LEVEL[key])        # what worked last time first
    for lv in levels:
        solve.MATCH = {"E": 1, "M": 2}.get(lv, 0); hl = 0 if lv in ("E", "M") else lv
        res.obls = []; res.error = None; tm.reset()
        try:
            cases = [[c] if isinstance(c, str) else c for c in (fn.cases or [[]])]
            if part in (None, -1) and any(c.startswith(("set ", "null ")) for cs in cases for c in cs):      # otherwise the cases are part of the precondition
                ex = run_case(unit, specs, fn, hl, [], res, cover=cases)
                discharge(ex, ex.obls, fn.tmo)
                res.obls += ex.obls
            for case in cases if part is None else ([] if part < 0 else [cases[part]]):
                ex = run_case(unit, specs, fn, hl, case, res)
                for nm in fn.opts.get("frame", ()):
                    from spec import LOGIC
                    if not LOGIC[nm].body: res.info.setdefault("notes", set()).add(f"{nm} is a function of the listed elements (assumed, it has no definition in the logic)"); continue
                    o, p = frame_lemma(ex, nm); o.status = None
                    discharge(ex, [o], fn.tmo); ex.obls.append(o)
                discharge(ex, ex.obls, fn.tmo * (1 if hl == 0 else 2), fn.opts.get("order"))
                for o in ex.obls:
                    if case: o.desc += f" [case {', '.join(case)}]"
                res.obls += ex.obls
                for k, v in (("notes", ex.notes), ("inlined", ex.funcs_used - {fn.fn}), ("contracts", ex.contracts_used), ("externs", ex.externs_used)):
                    res.info.setdefault(k, set()).update(v)
                inv = res.info.setdefault("inv", {"kept": 0, "tried": 0})
                for k in inv: inv[k] += ex.invstats[k]
        except (Unsupported, SpecError, KeyError, NotImplementedError) as e:
            res.error = f"{type(e).__name__}: {e}"
            if os.environ.get("SPVC_DEBUG"): traceback.print_exc()
            if os.environ.get("SPVC_TRACE"): raise
            break
        if res.ok: break
    res.info["hlevel"] = lv
    res.time = time.time() - t0
    return res

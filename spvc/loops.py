"""Loops: write-set discovery, Houdini invariant inference, termination measures."""
import itertools, os
from concurrent.futures import ThreadPoolExecutor
from term import *
import term as tm
import solve
from cast import Unsupported
from spec import SpecEval, SpecError, holes_of, parse_expr, V
import ast as pyast

REGION = 1000000
UNROLL = 40

def conj(t):
    if t.op == "and":
        r = []
        for a in t.args: r += conj(a)
        return r
    return [t] if t is not TRUE else []

class Writes:
    def __init__(s): s.env = set(); s.heap = {}; s.alive = False; s.ghost = set(); s.objchg = set()

_ms = {}; tm.CACHES.append(_ms)
def max_sym(t, memo=_ms):
    """largest id of a symbol in t"""
    r = memo.get(t.id)
    if r is None:
        if t.op == "sym": r = t.id
        else:
            r = -1
            for a in t.args: r = max(r, max_sym(a, memo))
        memo[t.id] = r
    return r

class LoopMixin:
    def loop(s, n, cond, inc, body, states, flow):
        states = [x for x in states if not x.dead()]
        if not states: return []
        if s.opts.get("loop_merge", True) and len(states) > 1 and not s.decided(cond, states): states = s.merge(states)
        out = []
        for st in states: out += s.loop1(n, cond, inc, body, st, flow)
        return s.limit(out)

    def decided(s, cond, states):
        """the loop condition is a constant in every state"""
        if cond is None or s.strip(cond)["kind"] == "IntegerLiteral": return False
        s.mute += 1
        try: return all(s.settle(x, s.cond(x.copy(), cond)) in (TRUE, FALSE) for x in states)
        finally: s.mute -= 1
    def prune(s, st, c):
        """option prune: branches that the path excludes are not followed"""
        if c in (TRUE, FALSE) or s.loopdepth or s.mute: return c
        for v, g in ((TRUE, c), (FALSE, Not(c))):
            for h, gg in solve.skolem(g, list(st.pc)):
                t = solve.build(h, gg, s.d, s.logic, 1, members=False)
                if t is not None and solve.decide(t, 3, quick=True)[0] != "unsat": break
            else: return v
        return c
    def settle(s, st, c):
        """a condition over merged values that the path decides"""
        if c in (TRUE, FALSE) or s.loopdepth: return c      # inside loops the path holds candidate invariants
        ts = list(subterms([c]))
        if not any(t.op == "ite" for t in ts) or any(t.op in ("select", "forall", "exists") for t in ts): return c
        pc = tuple(x for x in st.pc if not any(t.op in ("select", "store", "forall", "exists") for t in subterms([x])))
        memo = s.__dict__.setdefault("settled", {}); key = (c, pc)
        if key not in memo:
            memo[key] = c
            for v, g in ((TRUE, c), (FALSE, Not(c))):
                t = solve.build(list(pc), g, s.d, s.logic, 0, heap_axioms=False, members=False)
                if t is None or solve.decide(t, 2, quick=True)[0] == "unsat": memo[key] = v; break
        return memo[key]
    def iteration(s, st, cond, inc, body):
        """one iteration from st: (exit states, back states, flow)"""
        fl = s.newflow()
        if cond is not None:
            c = s.settle(st, s.cond(st, cond))
        else: c = TRUE
        ex = []
        if c is not TRUE:
            e = st.copy(); e.branch(Not(c)); ex.append(e)
        back = []
        if c is not FALSE:
            b = st.copy(); b.branch(c)
            back = s.exec(body, [b], fl)
            back = [x for x in back + fl.cont if not x.dead()]
            fl.cont = []
            if len(back) > s.maxpaths: back = s.merge(back)
            if inc is not None:
                for x in back: s.rv_any(x, inc)
        return c, ex, [x for x in back if not x.dead()], fl
    def newflow(s):
        from sym import Flow
        return Flow()

    def loop1(s, n, cond, inc, body, entry, flow):
        # ---- unroll when the condition stays decided
        r = s.try_unroll(n, cond, inc, body, entry, flow)
        if r is not None: return r
        return s.loop_inv(n, cond, inc, body, entry, flow)

    def try_unroll(s, n, cond, inc, body, entry, flow):
        if cond is None: return None
        st = s.strip(cond)
        if st["kind"] == "IntegerLiteral": return None
        probe = entry.copy()
        s.mute += 1
        try: c = s.settle(probe, s.cond(probe, cond))
        finally: s.mute -= 1
        if c not in (TRUE, FALSE): return None
        if not s.fast and c is TRUE:       # cheap trial: do all conditions stay decided?
            s.fast += 1; s.mute += 1
            mark = len(s.obls); rs = s.rec; s.rec = []
            try: t = s.try_unroll(n, cond, inc, body, entry, s.newflow())
            finally: s.fast -= 1; s.mute -= 1; s.rec = rs; del s.obls[mark:]
            if t is None: return None
        mark = len(s.obls); cur = entry.copy(); outs = []; fl0 = s.newflow()
        s.rec.append(dict(env=set(), heap=set(), alive=False, ghost=set()))
        ok = False
        try:
            states = [cur]
            for it in range(UNROLL + 1):
                nxt = []
                undecided = False
                for x in states:
                    c, ex, back, fl = s.iteration(x, cond, inc, body)
                    if c not in (TRUE, FALSE): undecided = True; break
                    outs += ex + fl.brk; fl0.absorb(fl); nxt += back
                if undecided: break
                states = s.merge(nxt) if len(nxt) > 1 else nxt
                if not states: ok = True; break
        finally:
            rec = s.rec.pop()
        if not ok:
            del s.obls[mark:]
            return None
        for r in s.rec:
            r["env"] |= rec["env"]; r["heap"] |= rec["heap"]; r["alive"] |= rec["alive"]; r["ghost"] |= rec["ghost"]
        flow.absorb(fl0)
        return s.limit(outs)

    # ------------------------------------------------------------ write sets
    def havoc(s, entry, W, cnt0):
        st = entry.copy()
        for key in W.env:
            v = entry.env.get(key)
            if key not in entry.env: continue
            if isinstance(v, tuple): continue
            nm, ct = s.varinfo[key]
            from sym import Ptr
            if isinstance(v, Ptr) and key not in W.objchg:
                s.setenv(st, key, Ptr(v.o, fresh(nm + ".f", INT), v.elt))
            else:
                nv = s.symval(ct, nm)
                if isinstance(nv, Ptr) and isinstance(v, Ptr) and nv.elt is None: nv.elt = v.elt
                s.setenv(st, key, nv)
        for k, objs in W.heap.items():
            if any(o is None for o in objs):      # unstable objects
                old = st.heap(k)
                st.heaps[k] = s.new_heap(k)
                others = [o for o in objs if o is not None]
                if objs[None] == "fresh":
                    b = fresh_bvar("o", INT)
                    st.assume(Forall([b], Or(Gt(b, I(cnt0)), *[Eq(b, o) for o in others], Eq(Select(st.heaps[k], b), Select(old, b)))))
                for o in objs: s.wrote(k, o if o is not None else fresh("unst", INT))
                continue
            for o, fs in objs.items():
                h = st.heap(k); old = Select(h, o)
                if fs is None:
                    new = s.new_arr(k)
                else:
                    new = old
                    for f in sorted(fs, key=lambda t: t.id):
                        v = fresh("m_" + k, s.heap_elem_sort(k)); r = s.heap_range(k)
                        if r and s.imode == "int": set_range(v, *r)
                        if k == "ptr.o": set_range(v, s.lcnt, s.cnt - 1)
                        new = Store(new, f, v)
                st.heaps[k] = Store(h, o, new)
                if fs is None: s.wrote(k, o)
                else:
                    for f in fs: s.wrote(k, o, f)
        if W.alive:
            s.set_alive(st, fresh("alive", ARR(INT, BOOL)))
            st.assume(Not(Select(st.alive, I(0))))
            b = fresh_bvar("o", INT)
            st.assume(Forall([b], Implies(Gt(b, I(s.cnt)), Not(Select(st.alive, b)))))
        for g in W.ghost:
            s.set_ghost(st, g, fresh("g_" + g, entry.ghost[g].sort))
        return st

    def write_set(s, entry, cond, inc, body):
        W = Writes(); lc0 = s.lcnt; cnt0 = s.cnt; nfr = s.nframe
        for rnd in range(12):
            mark = tm._next[0]
            head = s.havoc_muted(entry, W, cnt0)
            rec = dict(env=set(), heap=set(), alive=False, ghost=set())
            s.rec.append(rec); s.mute += 1; s.fast += 1
            om = len(s.obls)
            try: c, ex, back, fl = s.iteration(head.copy(), cond, inc, body)
            finally: s.rec.pop(); s.mute -= 1; s.fast -= 1
            del s.obls[om:]
            ch = False
            # what only paths that leave the loop write is not changed at the head
            same_heap = lambda k: all(b.heap(k) is head.heap(k) for b in back)
            if all(b.alive is head.alive for b in back): rec["alive"] = False
            rec["heap"] = {x for x in rec["heap"] if not same_heap(x[0])}
            for key in rec["env"]:
                if key[0] > nfr or key not in entry.env: continue
                if all(b.env.get(key) is head.env.get(key) for b in back) and head.env.get(key) is not None: continue
                if key not in W.env: W.env.add(key); ch = True
            from sym import Ptr
            for key in W.env:
                v = head.env.get(key)
                if isinstance(v, Ptr) and key not in W.objchg:
                    if any(isinstance(x.env.get(key), Ptr) and x.env[key].o is not v.o for x in back + fl.brk): W.objchg.add(key); ch = True
            for k, o, f in rec["heap"]:
                if o.op == "int" and o.val < lc0: continue
                d = W.heap.setdefault(k, {})
                if o.op == "int" and o.val > cnt0:
                    if None not in d: d[None] = "fresh"; ch = True
                    continue
                if max_sym(o) >= mark:
                    if o.op == "ite" and all(x.op == "int" and (x.val == 0 or x.val > cnt0) for x in _ite_leaves(o)):
                        if None not in d: d[None] = "fresh"; ch = True
                        continue
                    if d.get(None) != "any": d[None] = "any"; ch = True
                    continue
                if f is None or max_sym(f) >= mark:
                    if o not in d or d[o] is not None: d[o] = None; ch = True
                else:
                    if o not in d: d[o] = {f}; ch = True
                    elif d[o] is not None and f not in d[o]:
                        d[o] = d[o] | {f}; ch = True
                        if len(d[o]) > 24: d[o] = None
            if rec["alive"] and not W.alive: W.alive = True; ch = True
            for g in rec["ghost"]:
                if g in entry.ghost and g not in W.ghost: W.ghost.add(g); ch = True
            if not ch: return W, cnt0
        raise Unsupported("the write set of a loop does not stabilise")
    def havoc_muted(s, entry, W, cnt0):
        sv = s.rec; s.rec = []
        try: return s.havoc(entry, W, cnt0)
        finally: s.rec = sv

    # ------------------------------------------------------------ invariant inference
    def loop_inv(s, n, cond, inc, body, entry, flow):
        s.loopdepth += 1
        try: return s._loop_inv(n, cond, inc, body, entry, flow)
        finally: s.loopdepth -= 1
    def _loop_inv(s, n, cond, inc, body, entry, flow):
        line = s.line
        lname = f"loop in {s.fnname()}"
        W, cnt0 = s.write_set(entry, cond, inc, body)
        s.cnt += REGION
        head0 = s.havoc(entry, W, cnt0)
        if s.fast:       # write sets and trials of unrolling need no invariants
            c, ex, back, fl = s.iteration(head0.copy(), cond, inc, body)
            outs = [x for x in ex + fl.brk if not x.dead()]; fl.brk = []; flow.absorb(fl)
            return s.limit(outs)
        cands = s.candidates(n, cond, inc, body, entry, head0, W, cnt0)
        ckey = (n["id"], tuple(f.fn for f in s.frames))
        prev = s.loopkeep.get(ckey) if s.loopdepth > 1 else None
        if prev is not None: cands = [c for c in cands if c[0] in prev]
        s.invstats["tried"] += len(cands)
        # initially
        keep = []
        items = []
        for lab, fn, w in cands:
            try: g = fn(entry)
            except (SpecError, Unsupported) as e:
                if w and os.environ.get("SPVC_DEBUG_INV"): print("   not evaluable:", lab, e)
                continue
            if g is FALSE:
                if w and os.environ.get("SPVC_DEBUG_INV"): print("   initially false:", lab)
                continue
            try: h = fn(head0)
            except (SpecError, Unsupported): continue
            if h is TRUE: continue
            items.append((lab, fn, w, g))
        # duplicates at the head
        seen = set(); it2 = []
        for lab, fn, w, g in items:
            hid = fn(head0).id
            if hid in seen: continue
            seen.add(hid); it2.append((lab, fn, w, g))
        ok = s.batch([(entry.pc, g, w) for _, _, w, g in it2])
        keep = [(lab, fn, w, g) for (lab, fn, w, g), o in zip(it2, ok) if o]
        debug = os.environ.get("SPVC_DEBUG_INV")
        if debug:
            print(f"== {lname} line {line} depth {s.loopdepth} cands {len(cands)} init-ok {len(keep)}")
            for (lab, fn, w, g), o in zip(it2, ok):
                if not o and (w or debug == "2"): print("   init fails:", lab)
        initobl = []
        rounds = 0
        while True:
            rounds += 1
            mark = len(s.obls)
            head = head0.copy()
            for lab, fn, w, g in keep: head.assume(fn(head0))
            head_eval = head
            s.wst.append(W.env)
            try: c, ex, back, fl = s.iteration(head.copy(), cond, inc, body)
            finally: s.wst.pop()
            # fixpoint on this execution
            dropped = set(); cur = list(keep)
            while True:
                kt = set()
                for lab, fn, w, g in cur: kt.update(x.id for x in conj(fn(head0)))
                dr = {i for i in dropped if i not in kt}
                items = []; bad = set()
                goals = []
                for lab, fn, w, g in cur:
                    gs = []
                    for b in back:
                        try: t = fn(b)
                        except (SpecError, Unsupported): t = FALSE
                        gs.append(t)
                    if FALSE in gs: bad.add(lab); goals.append(None); continue
                    goals.append(gs)
                    for b, t in zip(back, gs):
                        if t is not TRUE: items.append((lab, [p for p in b.pc if p.id not in dr], t, w))
                res = s.batch([(h, t, w) for _, h, t, w in items], [x[0] for x in items])
                for (lab, h, t, w), o in zip(items, res):
                    if not o: bad.add(lab)
                if not bad: break
                if debug:
                    for lab, fn, w, g in cur:
                        if lab in bad and (w or debug == "2"): print("   not preserved:", lab)
                for lab, fn, w, g in cur:
                    if lab in bad: dropped.update(x.id for x in conj(fn(head0)))
                cur = [x for x in cur if x[0] not in bad]
            if len(cur) == len(keep):
                break
            keep = cur
            del s.obls[mark:]
            if rounds > 12: raise Unsupported("invariant inference does not converge")
        s.loopkeep[ckey] = {x[0] for x in keep}
        s.invstats["kept"] += len(keep)
        if debug:
            for lab, fn, w, g in keep: print("   inv:", lab)
        if not s.mute:
            from sym import Obl
            for lab, fn, w, g in keep:
                o = Obl("invariant", f"{lname}: initially {lab}", entry.pc, g, line, s.fnname()); o.status = "unsat"; o.solver = "z3"; s.obls.append(o)
                o = Obl("invariant", f"{lname}: preserved {lab}", (), TRUE, line, s.fnname()); o.status = "unsat"; o.solver = "z3"; s.obls.append(o)
            if s.opts.get("terminates", True): s.measure(n, cond, head, back, line, lname, W, fl)
        # leave
        outs = [x for x in ex + fl.brk if not x.dead()]
        fl.brk = []
        flow.absorb(fl)
        return s.limit(outs)

    def batch(s, items, labels=None):
        """items (hyps, goal, weight) -> [proved?]"""
        res = [None] * len(items); jobs = []
        for i, (h, g, w) in enumerate(items):
            if g is TRUE: res[i] = True; continue
            texts = []
            for hh, gg in solve.skolem(g, h):
                if gg is FALSE and FALSE not in hh and not s.opts.get("infeasible_ok", True): texts = None; break
                t = solve.build(hh, gg, s.d, s.logic, s.opts.get("depth", 2), members=False)
                if t is not None: texts.append(t)
            if texts is None: res[i] = False; continue
            if not texts: res[i] = True; continue
            jobs.append((i, texts, w))
        def run(j):
            i, texts, w = j
            for t in texts:
                r, who, dt = solve.decide(t, (s.inv_tmo * 3 if w else s.inv_tmo), quick=(2 if w else True) if not w or s.hlevel == 0 else False, order=s.opts.get("order"))
                if r != "unsat":
                    if w and os.environ.get("SPVC_DEBUG_INV") == "3": open(f"/tmp/w/inv_{solve.stats['queries']}_{i}.smt2", "w").write(f"; {r} {who} {dt}\n; {labels and labels[i]}\n" + t)
                    return i, False
            return i, True
        if len(jobs) <= 1: rs = [run(j) for j in jobs]
        else:
            with ThreadPoolExecutor(int(os.environ.get("SPVC_JOBS", "8"))) as ex: rs = list(ex.map(run, jobs))
        for i, o in rs: res[i] = o
        return res

    # ------------------------------------------------------------ candidates
    def candidates(s, n, cond, inc, body, entry, head, W, cnt0):
        from sym import Ptr, SVal, NULLP
        out = []
        fr = s.frames[-1]
        ints, uints, dbls, udbls, ptrs, uptrs = [], [], [], [], [], []
        # variables in scope (those of the current function)
        def envfn(key, ct):
            def f(st):
                v = st.env.get(key)
                if v is None: return None
                if isinstance(v, tuple):
                    return s.dummy_eval(st).wrap(s.load(st, v[1], v[0], I(0)), v[1])
                return s.dummy_eval(st).wrap(v, ct)
            return f
        memw = {}
        for k, objs in W.heap.items():
            for o, fs in objs.items():
                if o is not None: memw.setdefault(o, set()).add(k)
        cells = []
        for key, v in entry.env.items():
            nm, ct = s.varinfo.get(key, (None, None))
            if nm is None: continue
            tag = f"{nm}" if key[0] == fr.id else f"{nm}@{key[0]}"
            mine = key[0] == fr.id
            if isinstance(v, tuple):
                mod = v[0] in memw
                if v[1][0] == "int" and (mine or mod): (ints if mod else uints).append((tag, envfn(key, ct), v[1]))
                elif v[1][0] == "double" and (mine or mod): (dbls if mod else udbls).append((tag, envfn(key, ct), v[1]))
                elif v[1][0] == "ptr" and (mine or mod): (ptrs if mod else uptrs).append((tag, envfn(key, ct), v[1]))
                continue
            if not mine: continue
            mod = key in W.env
            if ct[0] == "int": (ints if mod else uints).append((tag, envfn(key, ct), ct))
            elif ct[0] == "double": (dbls if mod else udbls).append((tag, envfn(key, ct), ct))
            elif ct[0] == "ptr":
                (ptrs if mod else uptrs).append((tag, envfn(key, ct), ct))
        # cells of structures written at fixed offsets
        localobjs = {v[0] for v in entry.env.values() if isinstance(v, tuple)}
        for k, objs in W.heap.items():
            for o, fs in objs.items():
                if o is None or fs is None or k in ("ptr.o", "ptr.f"): continue
                if o in localobjs and len(fs) == 1 and next(iter(fs)).op == "int" and s.lsize.get(o.val) is ONE: continue
                for f in sorted(fs, key=lambda t: t.id):
                    if k == "double": ct = ("double",); pool = dbls
                    elif k[0] in "iu" and k[1:].isdigit(): ct = ("int", int(k[1:]), k[0] == "i"); pool = ints
                    else: continue
                    pool.append((f"cell{len(cells)}", (lambda st, ct=ct, o=o, f=f: s.dummy_eval(st).wrap(s.load(st, ct, o, f), ct)), ct)); cells.append((k, o, f))
        pints = []
        for tag, f, ct in ptrs:
            if ct[0] == "ptr" and ct[1] not in (("void",),) and ct[1][0] not in ("func", "opaque", "void"):
                try: sl = s.u.slots(ct[1])
                except Unsupported: continue
                if sl: 
                    def pf(st, f=f, sl=sl, pv=f(entry)):
                        v = f(st)
                        if v is None: return None
                        d = Sub(v.t.f, pv.t.f)
                        return V("int", d if sl == 1 else Div(d, I(sl)))
                    pints.append((f"off({tag})", pf, ("int", 64, True)))
        ints = ints + pints
        # values of the spec parameters that are not variables any more
        known = set()
        for tag, f, ct in uints:
            v = f(entry); known.add(v.t.id)
        for g in s.frames:
            for pn, (v, ct) in g.bind.items():
                if ct[0] == "int" and v.id not in known:
                    known.add(v.id); uints.append((f"arg {pn}", (lambda st, v=v, ct=ct: V("int", v, ct)), ct))
        dk = {f(entry).t.id for _, f, _ in udbls}
        for g in s.frames:
            for pn, (v, ct) in g.bind.items():
                if ct[0] == "double" and v.id not in dk:
                    dk.add(v.id); udbls.append((f"arg {pn}", (lambda st, v=v, ct=ct: V("double", v, ct)), ct))
        outer = {f"{s.varinfo[k][0]}" for w in s.wst for k in w if k in s.varinfo and k[0] == fr.id and k not in W.env}
        pools = {"o": [x for x in uints if x[0] in outer], "i": ints, "u": uints, "f": dbls, "g": udbls, "p": ptrs, "q": uptrs + ptrs}

        def add(label, fn, weight=False):
            out.append((label, fn, weight))
        def evaluator(fr_):
            def mk(text, holes):
                node = parse_expr(text) if isinstance(text, str) else text
                def fn(st):
                    return SpecEval(s, st, fr_.entry, entry, fr_.bind, None, holes).bool(node)
                return fn
            return mk
        def inst(fr_, text, node=None, label=None, weight=True):
            hs = holes_of(text) if node is None else sorted({x.id for x in pyast.walk(node) if isinstance(x, pyast.Name) and x.id.startswith("_") and len(x.id) > 1})
            mk = evaluator(fr_)
            opts = []
            for h in hs:
                if h[1] not in pools: raise SpecError("hole " + h)
                opts.append(pools[h[1]])
            cnt = 0
            for combo in itertools.product(*opts):
                if len({c[0] for c in combo}) < len(combo): continue
                cnt += 1
                if cnt > s.opts.get("instcap", 400): break
                holes = {h: c[1] for h, c in zip(hs, combo)}
                lab = (label or text) + (" with " + ", ".join(f"{h}={c[0]}" for h, c in zip(hs, combo)) if hs else "")
                add(lab, mk(node if node is not None else text, holes), weight)
        # spec templates and the function's own postconditions with a moving bound
        seenfr = []
        for g in s.frames:
            sp = g.spec
            if sp is None or sp in seenfr: continue
            seenfr.append(sp)
            for t in sp.inv: inst(g, t)
            if sp.auto:
                for e in sp.ensures:
                    for nd, lab in self_templates(e): 
                        try: inst(g, lab, nd, lab)
                        except SpecError: pass
        # ranges
        simple = [x for x in ints if x[1](entry) is not None]
        condu = s.cond_bounds(cond, head, W)
        for tag, f, ct in simple:
            pre = f(entry).t
            if pre.sort != INT: continue
            add(f"{tag} >= initial", lambda st, f=f, pre=pre: Le(pre, f(st).t))
            add(f"{tag} <= initial", lambda st, f=f, pre=pre: Le(f(st).t, pre))
            for ut, uf, uct in uints:
                uv = uf(entry).t
                if uv.sort != INT: continue
                add(f"{tag} <= {ut}", lambda st, f=f, uv=uv: Le(f(st).t, uv))
                if s.hlevel: add(f"{tag} < {ut}", lambda st, f=f, uv=uv: Lt(f(st).t, uv)); add(f"{tag} >= {ut}", lambda st, f=f, uv=uv: Le(uv, f(st).t))
            for b in condu:
                add(f"{tag} <= bound {b.id}", lambda st, f=f, b=b: Le(f(st).t, b))
                if s.hlevel: add(f"{tag} >= bound {b.id}", lambda st, f=f, b=b: Le(b, f(st).t))
        # linear relations between modified variables
        for (t1, f1, c1), (t2, f2, c2) in itertools.combinations(simple, 2):
            p1, p2 = f1(entry).t, f2(entry).t
            if p1.sort != INT or p2.sort != INT: continue
            add(f"{t1} - {t2} constant", lambda st, f1=f1, f2=f2, p1=p1, p2=p2: Eq(Sub(f1(st).t, f2(st).t), Sub(p1, p2)))
            add(f"{t1} + {t2} constant", lambda st, f1=f1, f2=f2, p1=p1, p2=p2: Eq(Add(f1(st).t, f2(st).t), Add(p1, p2)))
            add(f"{t1} <= {t2}", lambda st, f1=f1, f2=f2: Le(f1(st).t, f2(st).t))
            add(f"{t2} <= {t1}", lambda st, f1=f1, f2=f2: Le(f2(st).t, f1(st).t))
        # memory: what this loop leaves alone
        bases = {}
        def addbase(p, ct):
            if not isinstance(p, Ptr) or ct[0] != "ptr" or ct[1][0] in ("void", "func", "opaque"): return
            try: sl = s.u.slots(ct[1])
            except Unsupported: return
            bases.setdefault(p.o, set()).add((p.f, sl))
        for key, v in entry.env.items():
            if isinstance(v, Ptr): addbase(v, s.varinfo[key][1])
        for g in s.frames:
            for pn, (v, ct) in g.bind.items(): addbase(v, ct)
        for k, objs in W.heap.items():
            for o, fs in objs.items():
                if o is None or fs is not None: continue
                pa = Select(entry.heap(k), o)
                for (bf, sl) in bases.get(o, ()) or {(I(0), 1)}:
                    for tag, f, ct in simple:
                        if f(entry).t.sort != INT: continue
                        def up(st, f=f, bf=bf, sl=sl, k=k, o=o, pa=pa):
                            b = fresh_bvar("j", INT); return Forall([b], Implies(Le(Add(bf, Mul(I(sl), f(st).t)), b), Eq(Select(Select(st.heap(k), o), b), Select(pa, b))))
                        def dn(st, f=f, bf=bf, sl=sl, k=k, o=o, pa=pa):
                            b = fresh_bvar("j", INT); return Forall([b], Implies(Lt(b, Add(bf, Mul(I(sl), f(st).t))), Eq(Select(Select(st.heap(k), o), b), Select(pa, b))))
                        def dn1(st, f=f, bf=bf, sl=sl, k=k, o=o, pa=pa):
                            b = fresh_bvar("j", INT); return Forall([b], Implies(Le(b, Add(bf, Mul(I(sl), f(st).t))), Eq(Select(Select(st.heap(k), o), b), Select(pa, b))))
                        add(f"elements from {tag} of {k} object {o!r}+{bf!r} unchanged", up)
                        add(f"elements below {tag} of {k} object {o!r}+{bf!r} unchanged", dn)
                        if s.hlevel: add(f"elements up to {tag} of {k} object {o!r}+{bf!r} unchanged", dn1)
                # outside of what the contract allows to change
                for g in s.frames:
                    if not g.spec or g.spec.assigns is None: continue
                    try:
                        ev = SpecEval(s, g.entry, g.entry, None, g.bind, None)
                        rs = []
                        for a in g.spec.assigns: rs += [(lo, hi) for (kk, oo, lo, hi) in ev.assign_locs(a) if kk == k and oo is o]
                    except (SpecError, Unsupported): continue
                    if not rs: continue
                    def outside(st, rs=rs, k=k, o=o, pa=Select(g.entry.heap(k), o)):
                        b = fresh_bvar("j", INT)
                        return Forall([b], Or(*[And(Le(lo, b), Lt(b, hi)) for lo, hi in rs], Eq(Select(Select(st.heap(k), o), b), Select(pa, b))))
                    add(f"{g.fn}: outside of the assignable range of {k} object {o!r} unchanged", outside)
        for k, objs in W.heap.items():
            if objs.get(None, 0) == 0 or objs[None] == "fresh": continue
            for g in s.frames:
                if not g.spec or g.spec.assigns is None: continue
                try:
                    ev = SpecEval(s, g.entry, g.entry, None, g.bind, None)
                    rs = [(oo, lo, hi) for a in g.spec.assigns for (kk, oo, lo, hi) in ev.assign_locs(a) if kk == k]
                except (SpecError, Unsupported): continue
                def objs_outside(st, rs=rs, k=k, g=g):
                    o = fresh_bvar("o", INT); b = fresh_bvar("j", INT)
                    return Forall([o, b], Or(Le(o, I(0)), Not(Select(s.alive0, o)), *[And(Eq(oo, o), Le(lo, b), Lt(b, hi)) for oo, lo, hi in rs], Eq(Select(Select(st.heap(k), o), b), Select(Select(g.entry.heap(k), o), b))))
                add(f"{g.fn}: only the assignable ranges of {k} changed", objs_outside)
        if W.alive:
            def al(st):
                b = fresh_bvar("o", INT)
                return Forall([b], Implies(And(Lt(I(0), b), Le(b, I(cnt0))), Eq(Select(st.alive, b), Select(entry.alive, b))))
            add("allocation state of older objects unchanged", al)
        # pointers that did change object
        for tag, f, ct in ptrs:
            v0 = f(entry)
            if v0 is not None and ct[0] == "ptr":
                add(f"{tag} keeps its object", lambda st, f=f, v0=v0: Eq(f(st).t.o, v0.t.o))
        for fnx in s.opts.get("extra_cands", ()):
            out.extend(fnx(s, entry, head, W, pools))
        return out

    def cond_bounds(s, cond, head, W):
        """unmodified integer terms that a variable is compared with"""
        if cond is None: return []
        res = []; st = [cond]
        s.mute += 1
        try:
            while st:
                e = st.pop()
                if e.get("kind") == "BinaryOperator" and e["opcode"] in ("<", "<=", ">", ">=", "!=", "=="):
                    for x in e["inner"]:
                        try:
                            if s.ty(x)[0] != "int": continue
                            m = tm._next[0]; h = head.copy()
                            t = s.rv(h, x)
                            t2 = s.rv(head.copy(), x)
                        except Exception: continue
                        if t is t2 and t.sort == INT and t.op != "int":
                            # same in a different havoc? approximate: it does not read a modified variable
                            hs = {v.id for k_, v in head.env.items() if isinstance(v, T) and k_ in W.env}
                            if not any(y.id in hs for y in subterms([t])) and not any(y.op == "sym" and y.val.startswith(("A.", "H.", "m_")) for y in subterms([t])): res.append(t)
                st += [y for y in e.get("inner", []) if isinstance(y, dict)]
        finally: s.mute -= 1
        return res[:4]
    def dummy_eval(s, st): return SpecEval(s, st, st, None, {}, None)
    def dummy_state(s):
        from sym import State
        x = State(s); x.alive = s.alive0
        return x

    # ------------------------------------------------------------ termination
    def measure(s, n, cond, head, back, line, lname, W, fl):
        from sym import Obl
        if not back:
            return
        ms = []
        h = head.copy(); s.mute += 1
        try:
            st = [cond] if cond is not None else []
            comps = []
            while st:
                e = s.strip(st.pop())
                if e["kind"] == "BinaryOperator" and e["opcode"] in ("&&", "||"): st += e["inner"]; continue
                comps.append(e)
            # measures are evaluated as expressions in head and back states
            def ev(x, e):
                return s.rv(x.copy(), e)
            for e in comps:
                if e["kind"] == "BinaryOperator" and e["opcode"] in ("<", "<=", ">", ">=", "!="):
                    a, b = e["inner"]
                    try: ta, tb = s.ty(a), s.ty(b)
                    except Exception: continue
                    if ta[0] == "int" and tb[0] == "int":
                        ms.append(lambda x, a=a, b=b: Sub(s.toidx(ev(x, b), ("int", 64, False)), s.toidx(ev(x, a), ("int", 64, False))))
                        ms.append(lambda x, a=a, b=b: Sub(s.toidx(ev(x, a), ("int", 64, False)), s.toidx(ev(x, b), ("int", 64, False))))
                    if ta[0] == "int":
                        ms.append(lambda x, a=a: s.toidx(ev(x, a), ("int", 64, False)))
                    if ta[0] == "ptr" and tb[0] == "ptr":
                        ms.append(lambda x, a=a, b=b: Sub(ev(x, b).f, ev(x, a).f))
                else:
                    try:
                        if s.ty(e)[0] == "int": ms.append(lambda x, e=e: s.toidx(ev(x, e), ("int", 64, False)))
                    except Exception: pass
            # plain variables, and differences with unmodified ones
            for key in sorted(W.env, key=str):
                if key in s.varinfo and s.varinfo[key][1][0] == "int" and isinstance(head.env.get(key), T):
                    ms.append(lambda x, key=key: s.toidx(x.env[key], ("int", 64, False)))
                    for pn, (v2, ct2) in s.frames[0].bind.items():
                        if ct2[0] == "int" and isinstance(v2, T): ms.append(lambda x, key=key, v2=v2: Sub(s.toidx(v2, ("int", 64, False)), s.toidx(x.env[key], ("int", 64, False))))
                    for k2, v2 in head.env.items():
                        if k2 not in W.env and k2[0] == key[0] and s.varinfo.get(k2, (0, ("?",)))[1][0] == "int" and isinstance(v2, T):
                            ms.append(lambda x, key=key, v2=v2: Sub(s.toidx(v2, ("int", 64, False)), s.toidx(x.env[key], ("int", 64, False))))
            pn = sorted({s.varinfo[k][0] for k in W.env if k in s.varinfo and s.varinfo[k][1][0] == "ptr"})
            for mf in [y for x in s.opts.get("measures", ()) for y in ([x.replace("_p", "_v_" + n) for n in pn] if "_p" in x else [x])]:
                ms.append(lambda x, mf=mf: s.dummy_eval(x).toidx(SpecEval(s, x, s.frames[0].entry, None, s.frames[0].bind, None, s.all_names(x)).ev(parse_expr(mf))))
            found = False; tried = 0
            for m in ms:
                tried += 1
                if tried > 60: break
                try: mh = m(head); gs = [And(Le(I(0), mh), Lt(m(b), mh)) for b in back]
                except Exception: continue
                if FALSE in gs: continue
                if all(s.batch([(b.pc, g, False) for b, g in zip(back, gs)])): found = True; break
        finally: s.mute -= 1
        if found:
            o = Obl("termination", f"{lname}: a measure decreases", (), TRUE, line, s.fnname()); o.status = "unsat"; o.solver = "z3"; s.obls.append(o)
        else:
            s.obls.append(Obl("termination", f"{lname}: no decreasing measure found", [], FALSE, line, s.fnname()))
    def all_names(s, st):
        d = {}
        for key, v in st.env.items():
            nm, ct = s.varinfo[key]
            d["_v_" + nm] = (lambda x, v=v, ct=ct: s.dummy_eval(x).wrap(v, ct) if not isinstance(v, tuple) else s.dummy_eval(x).wrap(s.load(x, v[1], v[0], I(0)), v[1]))
        return d

ONE = I(1)
def _ite_leaves(t):
    if t.op == "ite": return _ite_leaves(t.args[1]) + _ite_leaves(t.args[2])
    return [t]

import copy as _copy
class _Sub(pyast.NodeTransformer):
    def __init__(s, d): s.d = d
    def visit_Name(s, n): return _copy.deepcopy(s.d[n.id]) if n.id in s.d else n
def _uses_result(n): return any(isinstance(x, pyast.Name) and x.id == "result" for x in pyast.walk(n))
_tc = {}
def self_templates(text):
    """postconditions with quantified ranges become invariant templates with a moving bound"""
    r = _tc.get(text)
    if r is not None: return r
    r = []
    node = parse_expr(text)
    def wrap(guards, n):
        for g in reversed(guards): n = pyast.Call(func=pyast.Name(id="implies"), args=[g, n], keywords=[])
        return n
    def go(n, guards):
        if isinstance(n, pyast.Call) and isinstance(n.func, pyast.Name):
            if n.func.id == "implies":
                g = [] if _uses_result(n.args[0]) else [n.args[0]]
                go(n.args[1], guards + g); return
            if n.func.id == "forall" and len(n.args) == 4 and not _uses_result(n):
                v, lo, hi, body = n.args
                H = pyast.Name(id="_i")
                H1 = pyast.BinOp(left=H, op=pyast.Add(), right=pyast.Constant(value=1))
                f = lambda a, b: pyast.Call(func=pyast.Name(id="forall"), args=[v, a, b, body], keywords=[])
                r.append((wrap(guards, f(lo, H)), f"{text} [so far, upto _i]"))
                r.append((wrap(guards, f(H, hi)), f"{text} [from _i]"))
                r.append((wrap(guards, f(H1, hi)), f"{text} [after _i]"))
                r.append((wrap(guards, n), f"{text} [already]"))
                return
        if isinstance(n, pyast.BoolOp) and isinstance(n.op, pyast.And):
            for x in n.values: go(x, guards)
    go(node, [])
    _tc[text] = r
    return r

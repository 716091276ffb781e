"""Verification condition generator: forward symbolic execution of clang's AST with contracts.
Loops are cut at invariants (a Houdini fixpoint over candidates; every kept candidate is proved initially and preserved),
calls use the callee's contract if it has one (otherwise the body is executed in place), memory accesses carry
validity obligations, integers are mathematical with explicit machine wrap-around."""
import re, itertools, os, time
from concurrent.futures import ThreadPoolExecutor
from term import *
import term as tm
from cast import Unsupported, VOID, DOUBLE, INT32, U64, U32, U8
import solve, fdom
from spec import SpecEval, SpecError, holes_of, parse_expr

MAXU = {w: (1 << w) - 1 for w in (1, 8, 16, 32, 64, 128)}
def int_range(ct):
    b = ct[1]
    return (-(1 << b - 1), (1 << b - 1) - 1) if ct[2] else (0, (1 << b) - 1)

class Ptr:
    __slots__ = ("o", "f", "elt")
    def __init__(s, o, f, elt=None): s.o, s.f, s.elt = o, f, elt
    def __repr__(s): return f"Ptr({s.o},{s.f})"
class SVal:
    __slots__ = ("leaves", "ct")
    def __init__(s, leaves, ct): s.leaves, s.ct = leaves, ct
class Loc:
    __slots__ = ("key", "o", "f", "ct")
    def __init__(s, ct, key=None, o=None, f=None): s.ct, s.key, s.o, s.f = ct, key, o, f

def ptype(s): return {"u32": ("int", 32, False), "double": ("double",)}[s]
NULLP = Ptr(I(0), I(0))
ALLOC0 = 1000000

class State:
    __slots__ = ("env", "heaps", "alive", "pc", "ghost", "ex")
    def __init__(s, ex): s.env = {}; s.heaps = {}; s.alive = None; s.pc = (); s.ghost = {}; s.ex = ex
    def copy(s):
        n = State(s.ex); n.env = dict(s.env); n.heaps = dict(s.heaps); n.alive = s.alive; n.pc = s.pc; n.ghost = dict(s.ghost)
        return n
    def assume(s, t):
        if t is TRUE: return
        if t.op == "and":
            for a in t.args: s.assume(a)
            return
        if t not in s.pc[-40:]: s.pc = s.pc + (t,)
    def heap(s, k):
        h = s.heaps.get(k)
        if h is None: h = s.ex.heap0(k); s.heaps[k] = h
        return h
    def dead(s): return FALSE in s.pc
    def branch(s, c):
        """assume a branch condition; a decided boolean unknown is substituted everywhere"""
        for t in (c.args if c.op == "and" else (c,)):      # a fact of the path that is also an invariant candidate stays when the candidate is dropped
            if t in s.pc and s.ex.loopdepth: s.pc = s.pc + (tm._mk("and", (t, t), BOOL),)
        s.assume(c)
        m = {}
        for t in (c.args if c.op == "and" else (c,)):
            x, v = (t.args[0], FALSE) if t.op == "not" else (t, TRUE)
            if x.op == "sym" and x.sort == BOOL: m[x] = v
        if m:
            cache = {}
            sv = s.ex.subst_val
            s.env = {k: sv(y, m, cache) for k, y in s.env.items()}
            s.heaps = {k: subst(y, m, cache) for k, y in s.heaps.items()}
            s.alive = subst(s.alive, m, cache)
            s.ghost = {k: (subst(y, m, cache) if isinstance(y, T) else y) for k, y in s.ghost.items()}

class Flow:
    def __init__(s): s.ret = []; s.goto = {}; s.brk = []; s.cont = []
    def sub(s):
        f = Flow(); return f
    def absorb(s, f):
        s.ret += f.ret
        for k, v in f.goto.items(): s.goto.setdefault(k, []).extend(v)

class Obl:
    __slots__ = ("kind", "desc", "hyps", "goal", "line", "fn", "status", "solver", "time", "detail")
    def __init__(s, kind, desc, hyps, goal, line, fn):
        s.kind, s.desc, s.hyps, s.goal, s.line, s.fn = kind, desc, list(hyps), goal, line, fn
        s.status = None; s.solver = None; s.time = 0; s.detail = ""
    def name(s): return f"{s.fn}: {s.kind}: {s.desc}" + (f" (line {s.line})" if s.line else "")

class Frame:
    __slots__ = ("id", "fn", "spec", "bind", "entry", "retct")
    def __init__(s, id, fn, spec, bind, entry, retct): s.id, s.fn, s.spec, s.bind, s.entry, s.retct = id, fn, spec, bind, entry, retct

from loops import LoopMixin
class Exec(LoopMixin):
    def __init__(s, unit, specs, fmode="U", imode="int", hlevel=0, logic=None, opts=None):
        s.u = unit; s.specs = specs; s.d = fdom.DOMS[fmode]; s.imode = imode; s.hlevel = hlevel
        s.logic = solve.Logic(); s.opts = opts or {}
        s.obls = []; s.mute = 0; s.fast = 0; s.frames = []; s.nframe = 0
        s.cnt = ALLOC0; s.lcnt = 0
        s.lsize = {}; s.heapcnt = {}; s.heap0s = {}; s.varinfo = {}
        s.alloc = {}          # alloc id -> dict(bytes, zero, ty)
        s.rec = []            # write recorders for loop analysis
        s.notes = set(); s.facts0 = []
        s.loopstats = []; s.funcs_used = set(); s.contracts_used = set(); s.externs_used = set()
        s.globals_ = {}; s.strs = {}; s.fids = {}; s.fnames = {}
        s.addrtaken = {}; s.localids = {}
        s.loopkeep = {}; s.wst = []; s.inv_tmo = s.opts.get('inv_tmo', 3) * (1 if hlevel == 0 else 3)
        s.alive0 = sym('alive0', ARR(INT, BOOL))
        s.maxpaths = s.opts.get("maxpaths", 4)
        s.line = None
        s.loopdepth = 0
        s.invstats = {"kept": 0, "tried": 0}
        s.houdini_failed = []
        s.term_unproved = []

    # ------------------------------------------------------------ obligations
    def check(s, st, goal, kind, desc=""):
        if goal is TRUE:
            if not s.mute: s.obls.append(Obl(kind, desc, (), TRUE, s.line, s.fnname()))
            return
        if st.dead(): return
        if not s.mute: s.obls.append(Obl(kind, desc, st.pc, goal, s.line, s.fnname()))
    def fnname(s): return s.frames[-1].fn if s.frames else "?"

    # ------------------------------------------------------------ sorts, heaps
    def isort(s, ct): return INT if s.imode == "int" else BVS(max(8, ct[1]))
    def sort_of(s, ct):
        if ct[0] == "int": return s.isort(ct)
        if ct[0] in ("double", "float", "ldouble"): return s.d.sort
        raise Unsupported(f"sort of {ct}")
    def kind(s, ct):
        if ct[0] == "int": return ("i" if ct[2] else "u") + str(ct[1])
        if ct[0] in ("double", "float", "ldouble"): return ct[0]
        if ct[0] in ("ptr", "func"): return "ptr"
        raise Unsupported(f"memory of type {ct}")
    def heap_elem_sort(s, k):
        if k in ("ptr.o", "ptr.f"): return INT
        if k in ("double", "float", "ldouble"): return s.d.sort
        if s.imode == "int": return INT
        return BVS(int(k[1:]))
    def heap_range(s, k):
        if k[0] in "iu" and k[1:].isdigit(): return int_range(("int", int(k[1:]), k[0] == "i"))
        return None
    def new_heap(s, k, tag="H"):
        h = fresh(f"{tag}.{k}", ARR(INT, ARR(INT, s.heap_elem_sort(k))))
        s.heapcnt[h.id] = (s.lcnt, s.cnt)
        r = s.heap_range(k)
        if r and s.imode == "int": solve.heap_ranges[h.val] = r
        return h
    def new_arr(s, k, tag="A"):
        h = fresh(f"{tag}.{k}", ARR(INT, s.heap_elem_sort(k)))
        s.heapcnt[h.id] = (s.lcnt, s.cnt)
        r = s.heap_range(k)
        if r and s.imode == "int": solve.heap_ranges[h.val] = r
        return h
    def heap0(s, k):
        if k not in s.heap0s:
            s.heap0s[k] = sym(f"H0.{k}", ARR(INT, ARR(INT, s.heap_elem_sort(k))))
            s.heapcnt[s.heap0s[k].id] = (0, ALLOC0)
            r = s.heap_range(k)
            if r and s.imode == "int": solve.heap_ranges[s.heap0s[k].val] = r
        return s.heap0s[k]
    def kinds(s, ct):
        k = s.kind(ct)
        return ["ptr.o", "ptr.f"] if k == "ptr" else [k]
    def sz(s, o):
        if o.op == "int" and o.val in s.lsize: return s.lsize[o.val]
        if o.op == "ite": return Ite(o.args[0], s.sz(o.args[1]), s.sz(o.args[2]))
        return App("sz", (o,), INT)
    def is_alive(s, st, o):
        if o.op == "int":
            if o.val < 0: return TRUE
            if o.val == 0: return FALSE
        if o.op == "ite" : return Ite(o.args[0], s.is_alive(st, o.args[1]), s.is_alive(st, o.args[2]))
        l, h = rng(o)
        t = Select(st.alive, o)
        if l is not None and l < 0: return Or(Lt(o, I(0)), t)
        return t

    def _bound(s, a):
        """creation counters of the array symbols a select can read from"""
        lo, hi = None, None
        st = [a]
        while st:
            x = st.pop()
            if x.op == "sym":
                b = s.heapcnt.get(x.id)
                if b is None: return (s.lcnt, s.cnt)
                lo = b[0] if lo is None else min(lo, b[0]); hi = b[1] if hi is None else max(hi, b[1])
            elif x.op == "select": st.append(x.args[0])
            elif x.op == "ite": st += [x.args[1], x.args[2]]
            elif x.op == "constarr": lo = 0 if lo is None else lo; hi = 1 if hi is None else hi
            else: return (s.lcnt, s.cnt)
        return (lo, hi)
    def load(s, st, ct, o, f):
        if ct[0] in ("struct", "array"):
            out = []
            for i, l in enumerate(s.u.leaves(ct)): out.append(s.load(st, l, o, Add(f, I(i))))
            return SVal(out, ct)
        if ct[0] in ("ptr", "func"):
            x = Select(Select(st.heap("ptr.o"), o), f)
            if x.op == "select" and not free_bvars(x):
                b = s._bound(x.args[0]); set_range(x, b[0], b[1] - 1)
            elif x.op == "ite":
                for y in subterms([x]):
                    if y.op == "select" and y.sort == INT and not free_bvars(y) and y.args[0].sort == ARR(INT, INT) and s._isptrsel(y):
                        b = s._bound(y.args[0]); set_range(y, b[0], b[1] - 1)
            y = Select(Select(st.heap("ptr.f"), o), f)
            return Ptr(x, y, ct[1] if ct[0] == "ptr" and ct[1] != VOID else None)
        if ct[0] in ("void", "opaque"): raise Unsupported("load of incomplete type")
        t = Select(Select(st.heap(s.kind(ct)), o), f)
        if ct[0] == "int" and s.imode == "int" and not free_bvars(t):
            if t.op == "select": set_range(t, *int_range(ct))
            elif t.op == "ite": s._range_ite(t, int_range(ct))
        return t
    def _isptrsel(s, y):
        a = y.args[0]
        while a.op in ("select", "store", "ite"): a = a.args[0] if a.op != "ite" else a.args[1]
        return a.op == "sym" and "ptr.o" in a.val
    def _range_ite(s, t, r):
        if t.op == "ite":
            s._range_ite(t.args[1], r); s._range_ite(t.args[2], r)
        elif t.op == "select": set_range(t, *r)
    def store(s, st, ct, o, f, v):
        if ct[0] in ("struct", "array"):
            for i, l in enumerate(s.u.leaves(ct)): s.store(st, l, o, Add(f, I(i)), v.leaves[i])
            return
        if ct[0] in ("ptr", "func"):
            for k, x in (("ptr.o", v.o), ("ptr.f", v.f)): s._hstore(st, k, o, f, x)
            return
        s._hstore(st, s.kind(ct), o, f, v)
    def _hstore(s, st, k, o, f, v):
        h = st.heap(k)
        st.heaps[k] = Store(h, o, Store(Select(h, o), f, v))
        s.wrote(k, o, f)
    def wrote(s, k, o, f=None):
        for r in s.rec: r["heap"].add((k, o, f))
    def setenv(s, st, key, v):
        st.env[key] = v
        for r in s.rec: r["env"].add(key)
    def set_alive(s, st, t):
        st.alive = t
        for r in s.rec: r["alive"] = True
    def set_ghost(s, st, name, t):
        st.ghost[name] = t
        for r in s.rec: r["ghost"].add(name)

    def new_local(s, st, ct, name, slots=None):
        s.lcnt -= 1
        o = I(s.lcnt)
        s.lsize[s.lcnt] = I(s.u.slots(ct)) if slots is None else slots
        return o
    def zero(s, ct):
        if ct[0] == "int": return I(0) if s.imode == "int" else BV(0, max(8, ct[1]))
        if ct[0] in ("double", "float", "ldouble"): return s.d.const(0.0)
        if ct[0] in ("ptr", "func"): return NULLP
        if ct[0] in ("struct", "array"): return SVal([s.zero(l) for l in s.u.leaves(ct)], ct)
        raise Unsupported(f"zero {ct}")
    def symval(s, ct, name):
        if ct[0] == "int":
            t = fresh(name, s.isort(ct))
            if s.imode == "int": set_range(t, *int_range(ct))
            return t
        if ct[0] in ("double", "float", "ldouble"): return s.d.sym(name)
        if ct[0] in ("ptr", "func"):
            o = set_range(fresh(name + ".o", INT), s.lcnt, s.cnt - 1)
            f = fresh(name + ".f", INT)
            return Ptr(o, f, ct[1] if ct[0] == "ptr" and ct[1] != VOID else None)
        if ct[0] in ("struct", "array"):
            return SVal([s.symval(l, f"{name}.{i}") for i, l in enumerate(s.u.leaves(ct))], ct)
        raise Unsupported(f"symbolic {ct}")

    def subst_val(s, v, m, cache):
        if isinstance(v, T): return subst(v, m, cache)
        if isinstance(v, Ptr): return Ptr(subst(v.o, m, cache), subst(v.f, m, cache), v.elt)
        if isinstance(v, SVal): return SVal([s.subst_val(x, m, cache) for x in v.leaves], v.ct)
        return v
    # ------------------------------------------------------------ merging
    def ite_val(s, c, a, b):
        if a is b: return a
        if isinstance(a, tuple) and a == b: return a
        if isinstance(a, T): return Ite(c, a, b)
        if isinstance(a, Ptr):
            return Ptr(Ite(c, a.o, b.o), Ite(c, a.f, b.f), a.elt or b.elt)
        if isinstance(a, SVal): return SVal([s.ite_val(c, x, y) for x, y in zip(a.leaves, b.leaves)], a.ct)
        raise Unsupported("merge")
    def merge2(s, a, b, va=None, vb=None):
        n = 0
        for x, y in zip(a.pc, b.pc):
            if x is not y: break
            n += 1
        ra, rb = And(*a.pc[n:]), And(*b.pc[n:])
        # discriminating condition: first differing conjunct if complementary
        c = ra
        if n < len(a.pc) and n < len(b.pc) and Not(a.pc[n]) is b.pc[n]: c = a.pc[n]
        elif n < len(a.pc) and a.pc[n] is not None:
            flat = lambda pc: [y for x in pc for y in ((x,) + x.args if x.op == "and" else (x,))]
            fb = set(flat(b.pc[n:]))
            for x in flat(a.pc[n:]):
                if Not(x) in fb: c = x; break
        r = State(s); r.pc = a.pc[:n]
        f = Or(ra, rb)
        if c is not ra:
            f = And(Implies(c, ra), Implies(Not(c), rb))
        r.assume(f)
        for k in a.env:
            if k in b.env: r.env[k] = s.ite_val(c, a.env[k], b.env[k])
        for k in set(a.heaps) | set(b.heaps):
            r.heaps[k] = Ite(c, a.heap(k), b.heap(k))
        r.alive = Ite(c, a.alive, b.alive)
        for k in set(a.ghost) | set(b.ghost): r.ghost[k] = Ite(c, a.ghost[k], b.ghost[k])
        v = None
        if va is not None: v = s.ite_val(c, va, vb)
        return r, v
    def merge(s, states):
        states = [x for x in states if not x.dead()]
        if not states: return []
        # tournament in order keeps complementary neighbours together
        while len(states) > 1:
            nxt = []
            # merge the pair sharing the longest prefix first (last two usually)
            best = max(range(len(states) - 1), key=lambda i: s._common(states[i], states[i + 1]))
            m, _ = s.merge2(states[best], states[best + 1])
            states = states[:best] + [m] + states[best + 2:]
        return states
    def _common(s, a, b):
        n = 0
        for x, y in zip(a.pc, b.pc):
            if x is not y: break
            n += 1
        return n
    def limit(s, states):
        states = [x for x in states if not x.dead()]
        if len(states) > s.maxpaths: return s.merge(states)
        return states

    # ------------------------------------------------------------ integer helpers
    def in_range(s, st, t, lo, hi):
        """lo <= t <= hi follows from the ranges of the terms and at most one fact of the path"""
        need = []
        l, h = rng(t)
        if l is None or l < lo: need.append(Sub(t, I(lo)))
        if h is None or h > hi: need.append(Sub(I(hi), t))
        for x in need:
            def has(x):
                m = set(tm.lin(x)[1])
                for c in reversed(st.pc):
                    neg = c.op == "not"
                    if neg: c = c.args[0]
                    if c.op not in ("<", "<=") or c.args[0].sort != INT: continue
                    a, b = c.args
                    f = (Sub(a, b) if c.op == "<" else Sub(Sub(a, b), I(1))) if neg else (Sub(Sub(b, a), I(1)) if c.op == "<" else Sub(b, a))   # f >= 0
                    if not m & set(tm.lin(f)[1]): continue
                    r = rng(Sub(x, f))[0]
                    if r is not None and r >= 0: return True
                return False
            if not has(x): return False
        return True
    def icast(s, v, frm, to):
        if s.imode == "int":
            lo, hi = int_range(to)
            if frm[0] == "int":
                l, h = int_range(frm)
                if lo <= l and h <= hi: return v
            l, h = rng(v)
            if l is not None and h is not None and lo <= l and h <= hi: return v
            if to[1] == 1: return Ite(Eq(v, I(0)), I(0), I(1))
            if not to[2]: return set_range(wrapu(v, to[1]), lo, hi) if v.op != "int" else I(v.val % (1 << to[1]))
            return Sub(Mod(Add(v, I(-lo)), I(1 << to[1])), I(-lo))
        w1, w2 = max(8, frm[1]), max(8, to[1])
        if to[1] == 1: return Ite(Eq(v, BV(0, w1)), BV(0, 8), BV(1, 8))
        return s.bvresize(v, w1, w2, frm[2])
    def bvresize(s, v, w1, w2, signed):
        if v.op == "bv":
            x = v.val
            if signed and x >> (w1 - 1): x -= 1 << w1
            return BV(x, w2)
        if w1 == w2: return v
        if w2 < w1:
            return Op("idx", (v,), BVS(w2), f"(_ extract {w2 - 1} 0)")
        return Op("idx", (v,), BVS(w2), f"(_ {'sign' if signed else 'zero'}_extend {w2 - w1})")
    def ilit(s, n, ct): return I(n) if s.imode == "int" else BV(n, max(8, ct[1]))
    def truth(s, v, ct):
        if ct[0] in ("ptr", "func"): return Not(Eq(v.o, I(0)))
        if ct[0] in ("double", "float", "ldouble"): return Not(s.d.eq(v, s.d.const(0.0)))
        if s.imode == "int": return Not(Eq(v, I(0)))
        if v.op == "ite" and v.args[1].op == "bv" and v.args[2].op == "bv":
            return Ite(v.args[0], B(v.args[1].val != 0), B(v.args[2].val != 0))
        return Not(Eq(v, BV(0, max(8, ct[1]))))
    def frombool(s, c, ct=INT32): return Ite(c, s.ilit(1, ct), s.ilit(0, ct))
    def arith(s, st, op, a, b, ct, ctb=None):
        if ct[0] in ("double", "float", "ldouble"):
            r = {"+": s.d.add, "-": s.d.sub, "*": s.d.mul, "/": s.d.div}[op](a, b)
            if ct[0] == "float": r = s.d.round_f32(r)
            if ct[0] == "ldouble" and s.d.name == "FP": raise Unsupported("long double in FP mode")
            if ct[0] == "ldouble" and s.d.name == "U":
                r = App("ld" + op, (a, b), FS)
            return r
        if s.imode == "bv": return s.bvarith(st, op, a, b, ct, ctb)
        bits, signed = ct[1], ct[2]
        if op in ("+", "-", "*"):
            t = {"+": Add, "-": Sub, "*": Mul}[op](a, b)
            if signed:
                lo, hi = int_range(ct)
                ok = And(Le(I(lo), t), Le(t, I(hi)))
                s.check(st, ok, "overflow", f"signed {op} does not overflow"); st.assume(ok)
                return t
            if op == "*" and bits == 32 and s.opts.get("ring") and a.op != "int" and b.op != "int": return set_range(App("mulu32", (a, b), INT), *int_range(ct))
            r = wrapu(t, bits)
            if r is not t and op != "*" and s.opts.get("nowrap", s.d.name == "R") and s.in_range(st, t, *int_range(ct)): return t
            if r is not t: set_range(r, *int_range(ct))
            return r
        if op in ("/", "%"):
            s.check(st, Not(Eq(b, I(0))), "division", "divisor is not zero"); st.assume(Not(Eq(b, I(0))))
            la, lb = rng(a), rng(b)
            if la[0] is not None and la[0] >= 0 and lb[0] is not None and lb[0] >= 0:
                r = Div(a, b) if op == "/" else Mod(a, b)
                return set_range(r, 0, la[1])
            if signed:
                absa, absb = Ite(Le(I(0), a), a, Neg(a)), Ite(Le(I(0), b), b, Neg(b))
                qd = Div(absa, absb)
                quo = Ite(Eq(Le(I(0), a), Le(I(0), b)), qd, Neg(qd))
                lo, hi = int_range(ct)
                s.check(st, Le(quo, I(hi)), "overflow", "signed division does not overflow")
                return quo if op == "/" else Sub(a, Mul(b, quo))
            return Div(a, b) if op == "/" else Mod(a, b)
        if op in ("<<", ">>"):
            if b.op != "int": 
                return set_range(App("sh" + ("l" if op == "<<" else "r") + str(bits), (a, b), INT), *int_range(ct))
            k = b.val
            if op == "<<":
                t = Mul(a, I(1 << k))
                if signed:
                    lo, hi = int_range(ct)
                    s.check(st, And(Le(I(0), a), Le(t, I(hi))), "overflow", "signed shift"); return t
                return wrapu(t, bits)
            return Div(a, I(1 << k))
        if op == "&":
            for x, y in ((a, b), (b, a)):
                if y.op == "int" and y.val >= 0:
                    m = y.val
                    if m == 0: return I(0)
                    if m & (m + 1) == 0: return Mod(x, I(m + 1))
                    if m & (m - 1) == 0: return Mul(I(m), Mod(Div(x, I(m)), I(2)))
            a, b = tm._asorted(a, b)
            return set_range(App("band", (a, b), INT), *int_range(ct))
        if op in ("|", "^"):
            if a.op == "int" and a.val == 0: return b
            if b.op == "int" and b.val == 0: return a
            if a.op == "int" and b.op == "int": return I(a.val | b.val if op == "|" else a.val ^ b.val)
            # booleans
            if rng(a) in ((0, 1), (0, 0), (1, 1)) and rng(b) in ((0, 1), (0, 0), (1, 1)):
                ba, bb = Not(Eq(a, I(0))), Not(Eq(b, I(0)))
                return Ite(Or(ba, bb) if op == "|" else Not(Eq(ba, bb)), I(1), I(0))
            a, b = tm._asorted(a, b)
            return set_range(App("bor" if op == "|" else "bxor", (a, b), INT), *int_range(ct))
        raise Unsupported("operator " + op)
    def bvarith(s, st, op, a, b, ct, ctb):
        w = max(8, ct[1]); signed = ct[2]; srt = BVS(w)
        if op in ("<<", ">>"):
            b = s.bvresize(b, b.sort[1], w, False)
            if a.op == "bv" and b.op == "bv": return BV(a.val << b.val if op == "<<" else (a.val >> b.val), w)
            s.check(st, Op("bvult", (b, BV(w, w)), BOOL) if b.op != "bv" else B(b.val < w), "overflow", "shift amount in range")
            return Op({"<<": "bvshl", ">>": "bvashr" if signed else "bvlshr"}[op], (a, b), srt)
        if a.op == "bv" and b.op == "bv" and not signed:
            x, y = a.val, b.val
            if op in "+-*&|^": return BV({"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y}[op], w)
            if y: return BV(x // y if op == "/" else x % y, w)
        if signed and op in "+-*":
            if a.op == "bv" and b.op == "bv":
                sx = lambda t: t.val - (1 << w) if t.val >> (w - 1) else t.val
                return BV({"+": sx(a) + sx(b), "-": sx(a) - sx(b), "*": sx(a) * sx(b)}[op], w)
            nm = {"+": "bvadd", "-": "bvsub", "*": "bvmul"}[op]
            ext = lambda t: s.bvresize(t, w, 2 * w, True)
            wide = Op(nm, (ext(a), ext(b)), BVS(2 * w)); nar = Op(nm, (a, b), srt)
            s.check(st, Eq(wide, ext(nar)), "overflow", f"signed {op} does not overflow")
            return nar
        if op in ("/", "%"):
            s.check(st, Not(Eq(b, BV(0, w))), "division", "divisor is not zero")
            return Op(("bvs" if signed else "bvu") + ("div" if op == "/" else "rem"), (a, b), srt)
        nm = {"+": "bvadd", "-": "bvsub", "*": "bvmul", "&": "bvand", "|": "bvor", "^": "bvxor"}[op]
        if nm in ("bvadd", "bvmul", "bvand", "bvor", "bvxor"): a, b = tm._asorted(a, b)
        return Op(nm, (a, b), srt)
    def compare(s, op, a, b, ct):
        if ct[0] in ("ptr", "func"):
            e = And(Eq(a.o, b.o), Eq(a.f, b.f))
            if a.o.op == "int" and a.o.val == 0: e = Eq(b.o, I(0))
            elif b.o.op == "int" and b.o.val == 0: e = Eq(a.o, I(0))
            if op == "==": return e
            if op == "!=": return Not(e)
            return {"<": Lt, "<=": Le, ">": Gt, ">=": Ge}[op](a.f, b.f)
        if ct[0] in ("double", "float", "ldouble"):
            d = s.d
            return {"==": lambda: d.eq(a, b), "!=": lambda: Not(d.eq(a, b)), "<": lambda: d.lt(a, b), ">": lambda: d.lt(b, a),
                    "<=": lambda: d.le(a, b), ">=": lambda: d.le(b, a)}[op]()
        if op == "==": return Eq(a, b)
        if op == "!=": return Not(Eq(a, b))
        if s.imode == "int": return {"<": Lt, "<=": Le, ">": Gt, ">=": Ge}[op](a, b)
        if a.op == "bv" and b.op == "bv":
            x, y = a.val, b.val
            if ct[2]:
                w = a.sort[1]; f = lambda z: z - (1 << w) if z >> (w - 1) else z
                x, y = f(x), f(y)
            return B({"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[op])
        p = "bvs" if ct[2] else "bvu"
        return Op(p + {"<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[op], (a, b), BOOL)
    def toidx(s, v, ct):
        """integer value used as an index -> Int term"""
        if s.imode == "int": return v
        if v.op == "bv":
            x = v.val
            if ct[2] and x >> (v.sort[1] - 1): x -= 1 << v.sort[1]
            return I(x)
        if v.op == "ite": return Ite(v.args[0], s.toidx(v.args[1], ct), s.toidx(v.args[2], ct))
        if ct[2]: raise Unsupported("signed symbolic index in bit-vector mode")
        return set_range(Op("bv2nat", (v,), INT), 0, (1 << v.sort[1]) - 1)

    # ------------------------------------------------------------ expressions
    def setline(s, n):
        l = n.get("range", {}).get("begin", {})
        l = l.get("expansionLoc", l)
        if "line" in l: s.line = l["line"]
    def ty(s, n): return s.u.ty(n)
    def strip(s, e):
        while e["kind"] in ("ParenExpr", "ConstantExpr") or (e["kind"] == "ImplicitCastExpr" and e.get("castKind") in ("NoOp", "FunctionToPointerDecay")):
            e = e["inner"][0]
        return e
    def cond(s, st, e):
        e = s.strip(e)
        k = e["kind"]
        if k == "UnaryOperator" and e["opcode"] == "!":
            return Not(s.cond(st, e["inner"][0]))
        if k == "BinaryOperator" and e["opcode"] in ("&&", "||"):
            a = s.cond(st, e["inner"][0])
            is_and = e["opcode"] == "&&"
            if a is (FALSE if is_and else TRUE): return a
            st2 = st.copy(); st2.assume(a if is_and else Not(a))
            b = s.cond(st2, e["inner"][1])
            s.rejoin(st, st2, a if is_and else Not(a))
            return And(a, b) if is_and else Or(a, b)
        if k == "BinaryOperator" and e["opcode"] in ("<", ">", "<=", ">=", "==", "!="):
            a = s.rv(st, e["inner"][0]); b = s.rv(st, e["inner"][1])
            return s.compare(e["opcode"], a, b, s.ty(e["inner"][0]))
        if k == "ImplicitCastExpr" and e.get("castKind") in ("IntegralCast",):
            i = s.strip(e["inner"][0])
            if i["kind"] in ("BinaryOperator", "UnaryOperator") and i.get("opcode") in ("!", "&&", "||", "<", ">", "<=", ">=", "==", "!="):
                return s.cond(st, i)
        return s.truth(s.rv(st, e), s.ty(e))
    def rejoin(s, st, st2, c):
        """st := c ? st2 : st  after evaluating a conditional operand on st2 (a copy of st that assumed c)"""
        same = st2.alive is st.alive and all(st2.env.get(k) is v for k, v in st.env.items()) and \
            all(st.heaps.get(k) is v for k, v in st2.heaps.items() if k in st.heaps) and all(v is s.heap0s.get(k) for k, v in st2.heaps.items() if k not in st.heaps) \
            and all(st.ghost.get(k) is v for k, v in st2.ghost.items())
        if same:
            extra = [p for p in st2.pc[len(st.pc):] if p is not c]
            if extra: st.assume(Implies(c, And(*extra)))
            return
        o = st.copy(); o.assume(Not(c))
        m, _ = s.merge2(st2, o)
        st.env, st.heaps, st.alive, st.pc, st.ghost = m.env, m.heaps, m.alive, m.pc, m.ghost

    def resolve_alloc(s, st, p, ct):
        """a void* from an allocator becomes T*: the block's size in slots is known now"""
        if ct[0] in ("void", "opaque", "func"): return
        for x in subterms([p.o]):
            if x.op == "int" and x.val in s.alloc:
                a = s.alloc[x.val]
                if a["ty"] is None:
                    a["ty"] = ct
                    n = Mul(I(s.u.slots(ct)), Div(a["bytes"], I(s.u.sizeof(ct))))
                    s.lsize[x.val] = n
                    st.assume(Eq(App("sz", (x,), INT), n))
                    a["kinds"] = sorted({k for l in s.u.leaves(ct) for k in s.kinds(l)})
                elif a["ty"] != ct and s.u.leaves(a["ty"]) != s.u.leaves(ct):
                    if [l[0] for l in s.u.leaves(ct)] != [l[0] for l in s.u.leaves(a["ty"])]: raise Unsupported("block used at two types")
                if a["zero"] and not a.get("zdone" + str(id(st))) and x.val not in st.ghost.get("__zeroed", ()):
                    z = st.ghost.get("__zeroed", ())
                    for l in set(s.u.leaves(ct)):
                        zv = s.zero(l)
                        pairs = [("ptr.o", I(0)), ("ptr.f", I(0))] if isinstance(zv, Ptr) else [(s.kind(l), zv)]
                        for k, v in pairs:
                            h = st.heap(k)
                            st.heaps[k] = Store(h, x, ConstArr(ARR(INT, s.heap_elem_sort(k)), v))
                            s.wrote(k, x)
                    s.alloc[x.val] = dict(a, zero=False)
    def ptrcast(s, st, p, frm, to):
        if to[0] == "ptr":
            e = to[1]
            if e == VOID or e[0] in ("opaque",): return Ptr(p.o, p.f, p.elt or (frm[1] if frm[0] == "ptr" and frm[1] != VOID else None))
            if e[0] == "func": return Ptr(p.o, p.f, None)
            known = p.elt
            if known and known != e and known[0] not in ("void", "opaque", "func"):
                try: a, b = s.u.leaves(known), s.u.leaves(e)
                except Unsupported: a = b = None
                if a is not None:
                    ka = [s.kind(x) for x in a] if all(x[0] not in ("void", "opaque") for x in a) else None
                    kb = [s.kind(x) for x in b] if all(x[0] not in ("void", "opaque") for x in b) else None
                    if ka != kb and not (ka and kb and kb[0] == ka[0] and len(kb) == 1):
                        raise Unsupported(f"pointer cast from {s.u.tname(known)} to {s.u.tname(e)}")
                    if ka == ["ptr"] and kb == ["ptr"]: return Ptr(p.o, p.f, known)
            s.resolve_alloc(st, p, e)
            return Ptr(p.o, p.f, e)
        return p
    def cast_(s, st, e, ck):
        sub = e["inner"][0]; to = s.ty(e)
        if ck == "LValueToRValue": return s.read(st, s.lv(st, sub))
        if ck in ("NoOp",): return s.rv(st, sub)
        if ck == "ToVoid": s.rv_any(st, sub); return None
        if ck == "FunctionToPointerDecay": return s.fptr(sub)
        if ck == "ArrayToPointerDecay":
            l = s.lv(st, sub)
            return Ptr(l.o, l.f, s.ty(e)[1])
        if ck == "NullToPointer": s.rv(st, sub); return NULLP
        frm = s.ty(sub)
        v = s.rv(st, sub)
        if ck == "IntegralCast": return s.icast(v, frm, to)
        if ck in ("IntegralToFloating",):
            if s.imode == "bv" and s.d.name == "U": return s.d.from_int(v)
            if s.imode == "bv" and s.d.name == "R":
                if v.op == "bv": v = I(v.val)
                elif v.op == "ite": v = Ite(v.args[0], *[s.toidx(x, frm) for x in v.args[1:]])
                else: v = s.toidx(v, frm)
                return s.d.from_int(v)
            r = s.d.from_int(v, frm)
            if to[0] == "float": r = s.d.round_f32(r)
            return r
        if ck == "FloatingToIntegral":
            s.notes.add("conversions from floating point to integer are assumed to be in range of the integer type")
            r = s.d.to_int(v, to[1], to[2])
            if s.d.name == "R" and s.imode == "int":
                ok = And(Le(I(int_range(to)[0]), r), Le(r, I(int_range(to)[1])))
                st.assume(ok)
            if s.imode == "bv" and r.sort == INT:
                if r.op == "int": r = BV(r.val, max(8, to[1]))
                else: raise Unsupported("float to int in bv mode")
            return r
        if ck == "FloatingCast":
            if to[0] == "float": return s.d.round_f32(v)
            return v
        if ck == "BitCast": return s.ptrcast(st, v, frm, to)
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"): return s.frombool(s.truth(v, frm), to)
        if ck == "IntegralToPointer":
            if isinstance(v, T) and v.op == "int" and v.val == 0: return NULLP
            raise Unsupported("integer to pointer")
        raise Unsupported("cast " + ck)
    def rv_any(s, st, e):
        t = s.ty(e)
        if t == VOID: return s.rv(st, e)
        if e.get("valueCategory") == "lvalue": return s.lv(st, e)
        return s.rv(st, e)
    def fptr(s, e):
        e = s.strip(e)
        if e["kind"] == "UnaryOperator" and e["opcode"] in ("&", "*"): return s.fptr(e["inner"][0])
        if e["kind"] == "DeclRefExpr" and e["referencedDecl"]["kind"] == "FunctionDecl":
            return s.func_value(e["referencedDecl"]["name"])
        raise Unsupported("function expression")
    def func_value(s, n):
        if n not in s.fids:
            s.fids[n] = 200000 + len(s.fids); s.fnames[s.fids[n]] = n
        return Ptr(I(s.fids[n]), I(0))
    def rv(s, st, e):
        k = e["kind"]
        if k in ("ParenExpr", "ConstantExpr"): return s.rv(st, e["inner"][0])
        if k in ("ImplicitCastExpr", "CStyleCastExpr"): return s.cast_(st, e, e["castKind"])
        if k == "IntegerLiteral": return s.ilit(int(e["value"]), s.ty(e))
        if k == "CharacterLiteral": return s.ilit(int(e["value"]), s.ty(e))
        if k == "FloatingLiteral":
            v = e["value"]
            return s.d.const(float(v))
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            if d["kind"] == "EnumConstantDecl": return s.ilit(s.u.enums[d["name"]], s.ty(e))
            if d["kind"] == "FunctionDecl": return s.func_value(d["name"])
            return s.read(st, s.lv(st, e))
        if k == "UnaryOperator": return s.unary(st, e)
        if k == "BinaryOperator": return s.binary(st, e)
        if k == "CompoundAssignOperator":
            l = s.lv(st, e["inner"][0])
            op = e["opcode"][:-1]
            lt = s.ty(e["inner"][0])
            if lt[0] == "ptr":
                p = s.read(st, l); i = s.toidx(s.rv(st, e["inner"][1]), s.ty(e["inner"][1]))
                i = Mul(I(s.pslots(lt)), i)
                v = Ptr(p.o, Add(p.f, i) if op == "+" else Sub(p.f, i), p.elt)
                s.write(st, l, v); return v
            b = s.rv(st, e["inner"][1])
            ct = s.u.parse(e["computeLHSType"]["qualType"]); rt = s.u.parse(e["computeResultType"]["qualType"])
            a = s.conv(st, s.read(st, l), lt, ct)
            r = s.arith(st, op, a, b, rt, s.ty(e["inner"][1]))
            r = s.conv(st, r, rt, lt)
            s.write(st, l, r)
            return r
        if k == "ConditionalOperator":
            c = s.cond(st, e["inner"][0])
            if c is TRUE: return s.rv(st, e["inner"][1])
            if c is FALSE: return s.rv(st, e["inner"][2])
            a, b = st.copy(), st.copy()
            a.assume(c); b.assume(Not(c))
            va, vb = s.rv(a, e["inner"][1]), s.rv(b, e["inner"][2])
            if s._same(st, a) and s._same(st, b):
                for x, cc in ((a, c), (b, Not(c))):
                    ex = [p for p in x.pc[len(st.pc):] if p is not cc]
                    if ex: st.assume(Implies(cc, And(*ex)))
                return None if va is None else s.ite_val(c, va, vb)
            m, v = s.merge2(a, b, va, vb)
            st.env, st.heaps, st.alive, st.pc, st.ghost = m.env, m.heaps, m.alive, m.pc, m.ghost
            return v
        if k == "CallExpr": return s.call(st, e)
        if k == "UnaryExprOrTypeTraitExpr":
            if e["name"] != "sizeof": raise Unsupported(e["name"])
            t = s.u.ty(e["argType"]) if "argType" in e else s.ty(e["inner"][0])
            return s.ilit(s.u.sizeof(t), s.ty(e))
        if k == "OffsetOfExpr": raise Unsupported("offsetof")
        if k in ("InitListExpr", "ImplicitValueInitExpr"): return s.initval(st, e, s.ty(e))
        if k in ("ArraySubscriptExpr", "MemberExpr", "StringLiteral", "CompoundLiteralExpr"):
            return s.read(st, s.lv(st, e))
        raise Unsupported("expression " + k)
    def _same(s, st, a):
        return a.alive is st.alive and all(a.env.get(k) is v for k, v in st.env.items()) and all(st.heap(k) is v for k, v in a.heaps.items()) and all(st.ghost.get(k) is v for k, v in a.ghost.items())
    def conv(s, st, v, frm, to):
        if frm == to: return v
        if frm[0] == "int" and to[0] == "int": return s.icast(v, frm, to)
        if frm[0] == "int" and to[0] in ("double", "float", "ldouble"):
            r = s.d.from_int(v, frm)
            return s.d.round_f32(r) if to[0] == "float" else r
        if frm[0] in ("double", "float", "ldouble") and to[0] in ("double", "float", "ldouble"):
            return s.d.round_f32(v) if to[0] == "float" and frm[0] != "float" else v
        if frm[0] in ("double", "float") and to[0] == "int":
            s.notes.add("conversions from floating point to integer are assumed to be in range of the integer type")
            r = s.d.to_int(v, to[1], to[2])
            if s.imode == "bv" and r.op == "int": r = BV(r.val, max(8, to[1]))
            return r
        raise Unsupported(f"conversion {frm} {to}")
    def initval(s, st, e, ct):
        if e["kind"] == "ImplicitValueInitExpr": return s.zero(ct)
        if e["kind"] != "InitListExpr": return s.rv(st, e)
        inner = e.get("inner", [])
        if ct[0] == "struct":
            out = []
            fs = s.u.fields(ct)
            for i, (n, f) in enumerate(fs):
                v = s.initval(st, inner[i], f) if i < len(inner) else s.zero(f)
                out += v.leaves if isinstance(v, SVal) else [v]
            return SVal(out, ct)
        if ct[0] == "array":
            out = []
            if "array_filler" in e: inner = [x for x in e["array_filler"] if x.get("kind") != "ImplicitValueInitExpr"]
            for i in range(ct[2]):
                v = s.initval(st, inner[i], ct[1]) if i < len(inner) else s.zero(ct[1])
                out += v.leaves if isinstance(v, SVal) else [v]
            return SVal(out, ct)
        return s.rv(st, inner[0])
    def unary(s, st, e):
        op = e["opcode"]; sub = e["inner"][0]; ct = s.ty(e)
        if op == "!": return s.frombool(Not(s.cond(st, sub)), ct)
        if op == "&":
            x = s.strip(sub)
            if x["kind"] == "DeclRefExpr" and x["referencedDecl"]["kind"] == "FunctionDecl": return s.func_value(x["referencedDecl"]["name"])
            l = s.lv(st, sub)
            if l.key is not None: raise Unsupported("address of register variable")
            return Ptr(l.o, l.f, l.ct if l.ct[0] != "func" else None)
        if op == "*": return s.read(st, s.lv(st, e))
        if op in ("++", "--"):
            l = s.lv(st, sub); v = s.read(st, l); lt = s.ty(sub)
            if lt[0] == "ptr": n = Ptr(v.o, Add(v.f, I(s.pslots(lt) * (1 if op == "++" else -1))), v.elt)
            elif lt[0] == "int": n = s.arith(st, "+" if op == "++" else "-", v, s.ilit(1, lt), lt)
            else: n = s.arith(st, "+" if op == "++" else "-", v, s.d.const(1.0), lt)
            s.write(st, l, n)
            return v if e.get("isPostfix") else n
        v = s.rv(st, sub)
        if op == "-":
            if ct[0] in ("double", "float", "ldouble"): return s.d.neg(v)
            return s.arith(st, "-", s.ilit(0, ct), v, ct)
        if op == "+": return v
        if op == "~":
            if s.imode == "bv": return Op("bvnot", (v,), BVS(max(8, ct[1])))
            return Sub(I(MAXU[ct[1]]), v) if not ct[2] else Sub(I(-1), v)
        raise Unsupported("unary " + op)
    def pslots(s, pt):
        if pt[1] == VOID or pt[1][0] in ("opaque", "func"): raise Unsupported("arithmetic on void pointer")
        return s.u.slots(pt[1])
    def binary(s, st, e):
        op = e["opcode"]; a, b = e["inner"]
        if op == "=":
            t = s.ty(a)
            if t[0] in ("struct",):
                v = s.rv(st, b); l = s.lv(st, a)
            else:
                l = s.lv(st, a); v = s.rv(st, b)
            s.write(st, l, v)
            return v
        if op == ",":
            s.rv_any(st, a); return s.rv(st, b)
        if op in ("&&", "||", "<", ">", "<=", ">=", "==", "!="): return s.frombool(s.cond(st, e), s.ty(e))
        ta, tb = s.ty(a), s.ty(b)
        if ta[0] == "ptr" or tb[0] == "ptr":
            va, vb = s.rv(st, a), s.rv(st, b)
            if ta[0] == "ptr" and tb[0] == "ptr":
                n = s.pslots(ta)
                return Sub(va.f, vb.f) if n == 1 else Div(Sub(va.f, vb.f), I(n))
            if tb[0] == "ptr": va, vb, ta, tb = vb, va, tb, ta
            i = Mul(I(s.pslots(ta)), s.toidx(vb, tb))
            return Ptr(va.o, Add(va.f, i) if op == "+" else Sub(va.f, i), va.elt)
        va = s.rv(st, a); vb = s.rv(st, b)
        return s.arith(st, op, va, vb, s.ty(e), tb)

    # ------------------------------------------------------------ lvalues
    def lv(s, st, e):
        k = e["kind"]
        if k == "ParenExpr": return s.lv(st, e["inner"][0])
        if k == "DeclRefExpr":
            d = e["referencedDecl"]
            key = s.key_of(d)
            if key in st.env or key in s.varinfo:
                v = st.env.get(key)
                if isinstance(v, tuple): return Loc(v[1], o=v[0], f=I(0))
                return Loc(s.varinfo[key][1], key=key)
            if d["name"] in s.u.globals: return s.global_loc(st, d["name"])
            raise Unsupported("variable " + d["name"])
        if k == "UnaryOperator" and e["opcode"] == "*":
            p = s.rv(st, e["inner"][0])
            return s.deref(st, p, s.ty(e))
        if k == "ArraySubscriptExpr":
            b, i = e["inner"]
            tb = s.ty(b)
            if tb[0] != "ptr": b, i = i, b; tb = s.ty(b)
            p = s.rv(st, b); iv = s.toidx(s.rv(st, i), s.ty(i))
            return s.deref(st, Ptr(p.o, Add(p.f, Mul(I(s.pslots(tb)), iv)), p.elt), s.ty(e))
        if k == "MemberExpr":
            b = e["inner"][0]
            if e.get("isArrow"):
                p = s.rv(st, b); t = s.ty(b)[1]
                l = Loc(t, o=p.o, f=p.f)
            else:
                if b.get("valueCategory") == "lvalue": l = s.lv(st, b)
                else:
                    v = s.rv(st, b); t = s.ty(b)
                    o = s.new_local(st, t, "tmp"); s.store(st, t, o, I(0), v)
                    l = Loc(t, o=o, f=I(0))
                t = s.ty(b)
            off, ft = s.u.field_off(t, e["name"])
            return Loc(ft, o=l.o, f=Add(l.f, I(off)))
        if k == "StringLiteral":
            v = e["value"]
            return Loc(("array", U8, len(v) + 1), o=I(s.str_id(v)), f=I(0))
        if k == "ImplicitCastExpr" and e["castKind"] == "NoOp": return s.lv(st, e["inner"][0])
        if k == "CompoundLiteralExpr":
            t = s.ty(e); o = s.new_local(st, t, "lit")
            s.store(st, t, o, I(0), s.initval(st, e["inner"][0], t))
            return Loc(t, o=o, f=I(0))
        if e.get("valueCategory") == "prvalue" and s.ty(e)[0] == "struct":
            t = s.ty(e); v = s.rv(st, e); o = s.new_local(st, t, "tmp"); s.store(st, t, o, I(0), v)
            return Loc(t, o=o, f=I(0))
        raise Unsupported("lvalue " + k)
    def key_of(s, d): return (s.frames[-1].id, d["id"])
    def deref(s, st, p, ct):
        if ct[0] in ("func",): return Loc(ct, o=p.o, f=p.f)
        if ct == ("ptr", VOID) and p.elt and p.elt[0] == "ptr": ct = p.elt
        return Loc(ct, o=p.o, f=p.f)
    def bounds(s, st, l, what):
        n = s.u.slots(l.ct)
        o = l.o
        if o.op == "int" and o.val < 0 and l.f.op == "int" and s.lsize[o.val].op == "int":
            ok = B(0 <= l.f.val and l.f.val + n <= s.lsize[o.val].val)
        else:
            ok = And(s.is_alive(st, o), Le(I(0), l.f), Le(Add(l.f, I(n)), s.sz(o)))
        s.check(st, ok, "memory", what)
        if ok is FALSE: raise Unsupported("access is always out of bounds") if s.opts.get("strict") else None
    def read(s, st, l):
        if l.key is not None:
            v = st.env.get(l.key)
            if v is None:
                s.check(st, FALSE, "init", f"variable {s.varinfo[l.key][0]} is read before it is set")
                v = s.symval(l.ct, "uninit"); st.env[l.key] = v
            return v
        if l.ct[0] == "func": return Ptr(l.o, l.f)
        s.bounds(st, l, "read inside an allocated object")
        return s.load(st, l.ct, l.o, l.f)
    def write(s, st, l, v):
        if isinstance(v, Ptr) and l.ct[0] == "ptr" and l.ct[1] != VOID: 
            s.resolve_alloc(st, v, l.ct[1])
            if v.elt is None: v = Ptr(v.o, v.f, l.ct[1])
        if l.key is not None: s.setenv(st, l.key, v); return
        s.bounds(st, l, "write inside an allocated object")
        s.store(st, l.ct, l.o, l.f, v)
    def global_loc(s, st, name):
        n = s.u.globals[name]; t = s.u.ty(n)
        if name not in s.globals_:
            i = 1 + len(s.globals_)
            s.globals_[name] = i
            try: s.lsize[i] = I(s.u.slots(t))
            except Unsupported: s.lsize[i] = I(1 << 20)
            s.gfacts(name, i)
        return Loc(t, o=I(s.globals_[name]), f=I(0))
    def gfacts(s, name, i): s.facts0.append(Select(s.alive0, I(i)))

    # ------------------------------------------------------------ statements
    def exec(s, n, states, flow):
        """-> states falling through"""
        states = [x for x in states if not x.dead()]
        if not states: return []
        k = n.get("kind")
        s.setline(n)
        if k in ("NullStmt", None, "FullComment"): return states
        if k == "CompoundStmt": return s.block(n.get("inner", []), states, flow)
        if k == "DeclStmt":
            for st in states:
                for d in n["inner"]:
                    if d["kind"] == "VarDecl": s.declare(st, d)
                    elif d["kind"] in ("RecordDecl", "TypedefDecl"): raise Unsupported("local type")
            return states
        if k == "IfStmt":
            inner = n["inner"]; out = []
            for st in states:
                c = c0 = s.cond(st, inner[0])
                if s.opts.get("prune"): c = s.prune(st, c0)
                a, b = st, st.copy()
                if c is not FALSE:
                    a.branch(c0)
                    out += s.exec(inner[1], [a], flow)
                if c is not TRUE:
                    b.branch(Not(c0))
                    out += s.exec(inner[2], [b], flow) if len(inner) > 2 else [b]
            return s.limit(out)
        if k == "ReturnStmt":
            for st in states:
                v = s.rv(st, n["inner"][0]) if n.get("inner") else None
                flow.ret.append((st, v))
            return []
        if k == "GotoStmt":
            flow.goto.setdefault(n["targetLabelDeclId"], []).extend(states); return []
        if k == "LabelStmt": return s.block([n], states, flow)
        if k == "BreakStmt": flow.brk.extend(states); return []
        if k == "ContinueStmt": flow.cont.extend(states); return []
        if k == "ForStmt":
            init, _, c, inc, body = n["inner"]
            if init.get("kind"): states = s.exec(init, states, flow)
            return s.loop(n, c if c.get("kind") else None, inc if inc.get("kind") else None, body, states, flow)
        if k == "WhileStmt":
            return s.loop(n, n["inner"][0], None, n["inner"][-1], states, flow)
        if k == "DoStmt":
            body, c = n["inner"]
            f = flow.sub()
            # do { body } while (0) is a block; otherwise the first iteration is peeled
            sts = s.exec(body, states, f)
            sts = s.limit(sts + f.cont); brk = list(f.brk); flow.absorb(f)
            probe = [x.copy() for x in sts]
            if all(s.cond(x, c) is FALSE for x in probe): return s.limit(sts + brk)
            return s.limit(s.loop(n, c, None, body, sts, flow) + brk)
        if k == "SwitchStmt": return s.switch(n, states, flow)
        # expression statement
        for st in states: s.rv_any(st, n)
        return states
    def block(s, stmts, states, flow):
        for n in stmts:
            while n.get("kind") == "LabelStmt":
                pend = flow.goto.pop(n["declId"], [])
                states = states + pend
                if len(states) > 1: states = s.merge(states) if len(states) > s.opts.get("merge_labels", 4) else s.limit(states)
                n = n["inner"][0]
            states = s.exec(n, states, flow)
        return states
    def switch(s, n, states, flow):
        out = []
        e, body = n["inner"][0], n["inner"][-1]
        items = []   # (labels or None, stmt)
        def unwrap(x, labs):
            while x.get("kind") in ("CaseStmt", "DefaultStmt"):
                if x["kind"] == "CaseStmt": labs.append(x["inner"][0]); x = x["inner"][1]
                else: labs.append("default"); x = x["inner"][0]
            return labs, x
        for x in body.get("inner", []):
            labs, y = unwrap(x, [])
            items.append((labs, y))
        for st in states:
            v = s.rv(st, e); ct = s.ty(e)
            conds = []; rest = TRUE
            alllab = [(i, l) for i, (labs, _) in enumerate(items) for l in labs]
            start = {}
            for i, l in alllab:
                if l == "default": continue
                c = s.compare("==", v, s.rv(st, l), ct)
                start[i] = Or(start.get(i, FALSE), And(rest, c)); rest = And(rest, Not(c))
            dflt = [i for i, l in alllab if l == "default"]
            f = flow.sub()
            if dflt: start[dflt[0]] = Or(start.get(dflt[0], FALSE), rest)
            else:
                o = st.copy(); o.assume(rest); out.append(o)
            cur = []
            for i, (_, y) in enumerate(items):
                if i in start and start[i] is not FALSE:
                    a = st.copy(); a.assume(start[i]); cur = cur + [a]
                cur = s.exec(y, cur, f)
            out += cur + f.brk; flow.cont.extend(f.cont); flow.absorb(f)
        return s.limit(out)
    def takes_address(s, fn):
        """ids of locals whose address is taken in fn"""
        name = fn.get("name")
        if name in s.addrtaken: return s.addrtaken[name]
        ids = set()
        def base(x):
            while True:
                if x["kind"] in ("ParenExpr",): x = x["inner"][0]
                elif x["kind"] == "MemberExpr" and not x.get("isArrow"): x = x["inner"][0]
                elif x["kind"] == "ArraySubscriptExpr":
                    y = x["inner"][0]
                    if y["kind"] == "ImplicitCastExpr" and y["castKind"] == "ArrayToPointerDecay": x = y["inner"][0]
                    else: return None
                else: break
            return x["referencedDecl"]["id"] if x["kind"] == "DeclRefExpr" else None
        st = [fn]
        while st:
            x = st.pop()
            if x.get("kind") == "UnaryOperator" and x.get("opcode") == "&":
                b = base(x["inner"][0])
                if b: ids.add(b)
            st.extend(y for y in x.get("inner", []) if isinstance(y, dict))
        s.addrtaken[name] = ids
        return ids
    def declare(s, st, d):
        ct = s.u.ty(d); fr = s.frames[-1]; key = (fr.id, d["id"])
        init = [x for x in d.get("inner", []) if x.get("kind") not in ("FullComment",)] if "init" in d else []
        if d.get("storageClass") == "static": raise Unsupported("static local")
        s.varinfo[key] = (d["name"], ct)
        mem = ct[0] in ("struct", "array") or d["id"] in s.takes_address(s.u.funcs[fr.fn])
        if mem:
            n = None
            if ct[0] == "array" and ct[2] is None:
                n = s.vla_size(st, d, ct)
            if key in s.localids: o = s.localids[key]
            else: o = s.localids[key] = s.new_local(st, ct, d["name"], n)
            if n is not None: s.lsize[o.val] = n
            s.setenv(st, key, (o, ct))
            if n is None:
                for k in {k for l in s.u.leaves(ct) for k in s.kinds(l)}:
                    h = st.heap(k); st.heaps[k] = Store(h, o, s.new_arr(k, "L")); s.wrote(k, o)
            if init: s.store(st, ct, o, I(0), s.initval(st, init[0], ct) if ct[0] in ("struct", "array") else s.rv(st, init[0]))
            return
        if init:
            v = s.rv(st, init[0]) if init[0]["kind"] != "InitListExpr" else s.initval(st, init[0], ct)
            s.write(st, Loc(ct, key=key), v)
        else:
            st.env.pop(key, None)
            s.setenv(st, key, s.symval(ct, "u_" + d["name"])); 
    def vla_size(s, st, d, ct):
        m = re.search(r"\[(\w+)\]$", d["type"].get("desugaredQualType", d["type"]["qualType"]).strip()) or re.search(r"\[(\w+)\]$", d["type"]["qualType"].strip())
        if not m: raise Unsupported("variable length array of " + d["type"]["qualType"])
        if m.group(1).isdigit(): n = I(int(m.group(1)))
        else:
            fr = s.frames[-1].id
            ks = [k for k in st.env if k[0] == fr and s.varinfo[k][0] == m.group(1)]
            if len(ks) != 1: raise Unsupported("variable length array of " + d["type"]["qualType"])
            v = st.env[ks[0]]
            n = s.load(st, v[1], v[0], I(0)) if isinstance(v, tuple) else v
        s.check(st, Lt(I(0), n), "vla", "the size of a variable length array is positive")
        sl = s.u.slots(ct[1])
        return n if sl == 1 else Mul(n, I(sl))

    # ------------------------------------------------------------ calls
    def call(s, st, e):
        callee = s.strip(e["inner"][0]); args = e["inner"][1:]
        name = None
        while callee["kind"] in ("ImplicitCastExpr", "ParenExpr", "UnaryOperator") and callee.get("castKind") in (None, "FunctionToPointerDecay", "NoOp") and not (callee["kind"] == "UnaryOperator" and callee["opcode"] != "*"):
            callee = callee["inner"][0]
        if callee["kind"] == "DeclRefExpr" and callee["referencedDecl"]["kind"] == "FunctionDecl":
            name = callee["referencedDecl"]["name"]
        saveline = s.line
        s.setline(e)
        if name is not None:
            r = s.call_named(st, name, args, e)
        else:
            p = s.rv(st, callee)
            vals = [s.rv(st, a) for a in args]
            ft = s.ty(callee)
            r = s.call_ptr(st, p, vals, [s.ty(a) for a in args], s.ty(e), e)
        s.line = saveline
        return r
    def call_named(s, st, name, args, e):
        hook = s.opts.get("hooks", {}).get(name)
        if hook: return hook(s, st, args, e)
        m = getattr(s, "ext_" + name, None)
        if m and name not in s.u.funcs:
            s.externs_used.add(name)
            return m(st, args, e)
        vals = [s.rv(st, a) for a in args]
        return s.call_vals(st, name, vals, [s.ty(a) for a in args], s.ty(e))
    def call_vals(s, st, name, vals, cts, retct):
        hook = s.opts.get("vhooks", {}).get(name)
        if hook: return hook(s, st, vals, retct)
        via = s.opts.get("via", {}).get(name)
        if via:      # through the contract of a client whose body is only this call; the additional arguments are ghosts of the function under proof
            import ast as pyast
            s.check_client(via[0], name, via[1])
            f0 = s.frames[0]
            return s.call_contract(st, s.specs[via[0]], [vals[x] if isinstance(x, int) else f0.bind[x][0] for x in via[1]], retct)
        sp = s.variant(name, vals)
        if sp and sp.abs is not None and (sp.imode != s.imode or sp.fmode != s.d.name or name in s.opts.get("use_abs", ())):
            s.contracts_used.add(name)
            return s.call_contract(st, sp.abs, vals, retct)
        if sp and sp.modular and not (s.frames and len(s.frames) == 1 and False):
            if not (name in s.opts.get("force_inline", ())):
                return s.call_contract(st, sp, vals, retct)
        if name in s.u.funcs: return s.inline(st, name, vals, retct)
        if name in MATHF:
            s.externs_used.add(name)
            return s.d.call(name, tuple(vals))
        raise Unsupported("call to " + name)
    def check_client(s, client, name, how):
        """the body of the client is one call of the function with those of its parameters that are passed"""
        fn = s.u.funcs[client]
        ps = [x for x in fn["inner"] if x["kind"] == "ParmVarDecl"]
        body = [x for x in fn["inner"] if x["kind"] == "CompoundStmt"][0]["inner"]
        e = body[0]
        if e["kind"] == "ReturnStmt": e = e["inner"][0]
        e = s.strip(e)
        ok = len(body) == 1 and e["kind"] == "CallExpr" and s.strip(e["inner"][0]).get("referencedDecl", {}).get("name") == name
        if ok:
            args = []
            for x in e["inner"][1:]:
                x = s.strip(x)
                while x["kind"] == "ImplicitCastExpr" and x.get("castKind") == "LValueToRValue": x = s.strip(x["inner"][0])
                args.append(x)
            ids = [x.get("referencedDecl", {}).get("id") for x in args]
            pos = {ps[k]["id"]: x for k, x in enumerate(how) if isinstance(x, int)}
            ok = len(ps) == len(how) and [pos.get(i) for i in ids] == list(range(len(ids)))
        if not ok: raise Unsupported(f"{client} is not a plain call of {name}")
    def variant(s, name, vals):
        if name in s.specs: return s.specs[name]
        for n, sp in s.specs.items():
            if sp.fn == name and all(sp.fns.get(p) is None or (v.o.op == "int" and s.fnames.get(v.o.val) == sp.fns[p]) for p, v in zip(sp.params, vals)): return sp
    def call_ptr(s, st, p, vals, cts, retct, e=None):
        o = p.o
        if o.op == "int" and o.val in s.fnames: return s.call_vals(st, s.fnames[o.val], vals, cts, retct)
        if o.op == "ite":
            c = o.args[0]
            a, b = st.copy(), st.copy(); a.assume(c); b.assume(Not(c))
            va = s.call_ptr(a, Ptr(o.args[1], p.f), vals, cts, retct, e); vb = s.call_ptr(b, Ptr(o.args[2], p.f), vals, cts, retct, e)
            m, v = s.merge2(a, b, va, vb)
            st.env, st.heaps, st.alive, st.pc, st.ghost = m.env, m.heaps, m.alive, m.pc, m.ghost
            return v
        # a symbolic function pointer that the path condition fixes
        for c in reversed(st.pc):
            if c.op == "=" and o in c.args:
                x = c.args[0] if c.args[1] is o else c.args[1]
                if x.op == "int" and x.val in s.fnames: return s.call_vals(st, s.fnames[x.val], vals, cts, retct)
        # the contract fixes which functions the pointers of each type are: an obligation at every call
        for n in s.opts.get("calls", ()):
            d = s.u.funcs.get(n)
            if d is None: raise Unsupported("no function " + n)
            ps = [s.u.ty(x) for x in d["inner"] if x["kind"] == "ParmVarDecl"]
            if len(ps) == len(vals) and all(x == y or (x[0] == y[0] == "ptr" and "void" in (x[1][0], y[1][0])) for x, y in zip(ps, cts or ps)):
                f = s.func_value(n)
                s.check(st, And(Eq(o, f.o), Eq(p.f, f.f)), "call", "a function pointer that is called is " + n)
                return s.call_vals(st, n, vals, cts, retct)
        cb = s.opts.get("callback")
        if cb:
            r = cb(s, st, p, vals, cts, retct, e)
            if r is not NotImplemented: return r
        raise Unsupported("call through an unknown function pointer")
    def inline(s, st, name, vals, retct):
        if sum(1 for f in s.frames if f.fn == name) >= 1: raise Unsupported("recursion in " + name)
        saved = s.line
        try: fl, fr = s.run_body(st.copy(), name, vals, retct)
        finally: s.line = saved
        return s.join_returns(st, fl.ret, fr)
    def run_body(s, cur, name, vals, retct, sp=None, top=False):
        fn = s.u.funcs[name]
        s.funcs_used.add(name)
        params = [x for x in fn["inner"] if x["kind"] == "ParmVarDecl"]
        body = [x for x in fn["inner"] if x["kind"] == "CompoundStmt"][0]
        s.nframe += 1
        sp = sp or s.variant(name, vals)
        fr = Frame(s.nframe, name, sp, {}, None, retct)
        at = s.takes_address(fn)
        if len(params) != len(vals): raise Unsupported("argument count")
        s.frames.append(fr)
        try:
            for i, (p, v) in enumerate(zip(params, vals)):
                ct = s.u.ty(p)
                if ct[0] == "array": ct = ("ptr", ct[1])
                if ct[0] == "func": ct = ("ptr", ct)
                if sp and i < len(sp.params) and sp.params[i] in sp.ptypes: ct = ("ptr", ptype(sp.ptypes[sp.params[i]]))
                key = (fr.id, p["id"]); s.varinfo[key] = (p.get("name", f"p{i}"), ct)
                if isinstance(v, Ptr) and ct[0] == "ptr" and ct[1] != VOID and v.elt is None: v = Ptr(v.o, v.f, ct[1])
                if ct[0] == "struct" or p["id"] in at:
                    o = s.new_local(cur, ct, p.get("name"))
                    s.setenv(cur, key, (o, ct)); s.store(cur, ct, o, I(0), v)
                else: s.setenv(cur, key, v)
                nm = sp.params[i] if sp and i < len(sp.params) else p.get("name")
                fr.bind[nm] = (v, ct)
            fr.entry = cur.copy()
            if top:
                fr.entry = top(cur, fr)
            fl = Flow()
            out = s.exec(body, [cur], fl)
            if fl.goto: raise Unsupported("backward or unmatched goto")
            for o in out:
                if retct != VOID:
                    s.check(o, FALSE, "return", "control does not reach the end of a function that returns a value")
                    v = s.symval(retct, "noret")
                else: v = None
                fl.ret.append((o, v))
        finally:
            s.frames.pop()
        return fl, fr
    def join_returns(s, st, rets, fr):
        rets = [(x, v) for x, v in rets if not x.dead()]
        if not rets:
            st.pc = st.pc + (FALSE,)
            return None if fr.retct == VOID else s.symval(fr.retct, "dead")
        for x, _ in rets:
            for k in [k for k in x.env if k[0] == fr.id]: del x.env[k]
        cur = list(rets)
        while len(cur) > 1:
            best = max(range(len(cur) - 1), key=lambda i: s._common(cur[i][0], cur[i + 1][0]))
            (a, va), (b, vb) = cur[best], cur[best + 1]
            m, v = s.merge2(a, b, va, vb)
            cur = cur[:best] + [(m, v)] + cur[best + 2:]
        m, v = cur[0]
        st.env, st.heaps, st.alive, st.pc, st.ghost = m.env, m.heaps, m.alive, m.pc, m.ghost
        return v
    def call_contract(s, st, sp, vals, retct):
        s.contracts_used.add(sp.name)
        fn = s.u.funcs.get(sp.fn) or s.u.decls.get(sp.fn)
        if fn is None: raise Unsupported("contract for a function that does not exist: " + sp.name)
        pts = [s.u.ty(x) for x in fn["inner"] if x["kind"] == "ParmVarDecl"]
        bind = {}
        for i, v in enumerate(vals):
            ct = pts[i] if sp.params[i] not in sp.ptypes else ("ptr", ptype(sp.ptypes[sp.params[i]]))
            if isinstance(v, Ptr) and ct[0] == "ptr" and ct[1] != VOID:
                s.resolve_alloc(st, v, ct[1])
                if v.elt is None: v = Ptr(v.o, v.f, ct[1])
            bind[sp.params[i]] = (v, ct)
        pre = st.copy()
        ev = SpecEval(s, st, pre, None, bind, None)
        if s.frames and s.frames[0].spec is sp:
            dec = sp.opts.get("decreases")
            if not dec: raise Unsupported("recursion without a measure")
            f0 = s.frames[0]
            m0 = SpecEval(s, f0.entry, f0.entry, None, f0.bind, None).ev(parse_expr(dec)).t; m1 = ev.ev(parse_expr(dec)).t
            s.check(st, And(Le(I(0), m0), Lt(m1, m0)), "termination", f"the recursive call decreases {dec}")
        for r in sp.requires + sp.case_requires():
            g = ev.bool(r)
            s.check(st, g, "precondition", f"of {sp.name}: {r}")
        locs = []
        for a in sp.assigns: locs += ev.assign_locs(a)
        # group by object, havoc
        byobj = {}
        for (k, o, lo, hi) in locs: byobj.setdefault((k, o), []).append((lo, hi))
        for (k, o), rs in byobj.items():
            h = st.heap(k)
            old = Select(h, o)
            if all(hi is not None and diff_const(hi, lo) == 1 for lo, hi in rs):
                new = old
                for lo, hi in rs:
                    v = fresh("c_" + k, s.heap_elem_sort(k))
                    r = s.heap_range(k)
                    if r and s.imode == "int": set_range(v, *r)
                    if k == "ptr.o": set_range(v, s.lcnt, s.cnt - 1)
                    new = Store(new, lo, v)
            else:
                new = s.new_arr(k)
                b = fresh_bvar("k", INT)
                ins = Or(*[And(Le(lo, b), Lt(b, hi)) for lo, hi in rs])
                st.assume(Forall([b], Or(ins, Eq(Select(new, b), Select(old, b)))))
            st.heaps[k] = Store(h, o, new); s.wrote(k, o)
        res = None if retct == VOID else s.symval(retct, "ret_" + sp.name)
        if sp.allocs or sp.frees: s.contract_blocks(st, pre, sp, bind, res, retct)
        if retct[0] == "double":      # a result given by a term is that term
            import ast as pyast
            for g in sp.ensures:
                n = parse_expr(g)
                if isinstance(n, pyast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], pyast.Eq) and isinstance(n.left, pyast.Name) and n.left.id == "result" \
                   and not any(isinstance(x, pyast.Name) and x.id == "result" for x in pyast.walk(n.comparators[0])):
                    e = SpecEval(s, st, pre, None, bind, None)
                    res = e.tof(e.ev(n.comparators[0])); break
        ev2 = SpecEval(s, st, pre, None, bind, (res, retct))
        for g in sp.ensures + sp.derived: st.assume(ev2.bool(g))
        if sp.derived: s.notes.add(f"{sp.name}: assumed consequence of its postconditions: {'; '.join(sp.derived)}")
        gh = s.opts.get("ghost_after", {}).get(sp.name)
        if gh and s.frames and s.frames[0].spec is not sp:      # a proved lemma applied here, its arguments over the parameters of the function under proof and (as c_x) of the callee
            lem, exprs = gh
            lb = dict(s.frames[0].bind); lb.update({"c_" + k: v for k, v in bind.items()})
            le = SpecEval(s, st, s.frames[0].entry, None, lb, None)
            vs = [le.ev(parse_expr(x)) for x in exprs]
            s.call_contract(st, s.specs[lem], [v.t for v in vs], VOID)
        return res

    def contract_blocks(s, st, pre, sp, bind, res, retct):
        """blocks released and allocated by a function called through its contract"""
        import ast as pyast
        ev0 = SpecEval(s, pre, pre, None, bind, None)
        for x in sp.frees:
            p = ev0.ptr(ev0.ev(parse_expr(x)))
            s.set_alive(st, Store(st.alive, p.o, FALSE))
        text = [e.replace(" ", "") for e in sp.ensures]
        for x in sp.allocs:
            n = parse_expr(x)
            if not isinstance(n, pyast.IfExp): raise Unsupported("modular allocation without a condition")
            cond, loc = pyast.unparse(n.test), pyast.unparse(n.body)
            if not any(t.startswith(f"implies({cond},fresh({loc}".replace(" ", "")) for t in text): raise Unsupported("modular allocation: the contract does not say when the block is new")
            ev = SpecEval(s, st, pre, None, bind, (res, retct))
            c = ev.bool(n.test)
            v = ev.ev(n.body); ct = v.ct[1]
            s.cnt += 1; i = s.cnt
            z = set_range(fresh("size", INT), 0, None)
            s.alloc[i] = dict(bytes=Mul(z, I(s.u.sizeof(ct))), zero=False, ty=None)
            s.resolve_alloc(st, Ptr(I(i), I(0)), ct)
            ls = SpecEval(s, st, pre, None, bind, (res, retct)).assign_locs(n.body)
            old = v.t
            for k, o, lo, hi in ls:
                s._hstore(st, k, o, lo, Ite(c, I(i) if k == "ptr.o" else I(0), old.o if k == "ptr.o" else old.f))
            s.set_alive(st, Ite(c, Store(st.alive, I(i), TRUE), st.alive))
    # ------------------------------------------------------------ externs
    def new_alloc(s, st, bytes_, zero):
        s.cnt += 1
        i = s.cnt
        s.alloc[i] = dict(bytes=bytes_, zero=zero, ty=None)
        s.set_alive(st, Store(st.alive, I(i), TRUE))
        return I(i)
    def may_fail(s, st, o, bytes_=None):
        f = fresh("allocfail", BOOL)
        return f
    def do_malloc(s, st, bytes_, zero):
        if s.imode == "bv": bytes_ = s.toidx(bytes_, U64)
        f = fresh("allocfail", BOOL)
        alive0 = st.alive
        o = s.new_alloc(st, bytes_, zero)
        st.alive = Ite(f, alive0, st.alive)
        return Ptr(Ite(f, I(0), o), I(0), None)
    def ext_malloc(s, st, args, e): return s.do_malloc(st, s.rv(st, args[0]), False)
    def ext_calloc(s, st, args, e):
        a, b = s.rv(st, args[0]), s.rv(st, args[1])
        return s.do_malloc(st, Mul(a, b), True)
    def ext_realloc(s, st, args, e):
        p = s.rv(st, args[0]); n = s.rv(st, args[1])
        elt = p.elt
        if elt is None: raise Unsupported("realloc of untyped pointer")
        s.check(st, Or(Eq(p.o, I(0)), And(s.is_alive(st, p.o), Eq(p.f, I(0)))), "memory", "realloc of a live block start")
        f = fresh("allocfail", BOOL)
        alive0 = st.alive
        o = s.new_alloc(st, n, False)
        s.resolve_alloc(st, Ptr(o, I(0)), elt)
        for k in {k for l in s.u.leaves(elt) for k in s.kinds(l)}:
            h = st.heap(k); st.heaps[k] = Store(h, o, Select(h, p.o)); s.wrote(k, o)
        st.alive = Ite(f, alive0, Store(st.alive, p.o, FALSE))
        s.notes.add("realloc: a requested size of zero is treated like any other size")
        return Ptr(Ite(f, I(0), o), I(0), elt)
    def str_id(s, v):
        if v not in s.strs:
            s.strs[v] = 500 + len(s.strs)
            s.lsize[s.strs[v]] = I(len(v) + 1)
        return s.strs[v]
    def content(s, p):
        """the text at p as a number: the literal's own number for a literal, else an uninterpreted function of the address"""
        if p.o.op == "ite":
            c = p.o.args[0]; f, g = (p.f.args[1], p.f.args[2]) if p.f.op == "ite" and p.f.args[0] is c else (p.f, p.f)
            return Ite(c, s.content(Ptr(p.o.args[1], f, None)), s.content(Ptr(p.o.args[2], g, None)))
        if p.o.op == "int" and p.f is I(0) and p.o.val in s.strs.values(): return p.o
        return App("strtext", (p.o, p.f), INT)
    def same_string(s, p, q): return Eq(s.content(p), s.content(q))
    def ext_strcmp(s, st, args, e):
        p, q = s.rv(st, args[0]), s.rv(st, args[1])
        for x in (p, q): s.check(st, And(Lt(I(0), x.o), s.is_alive(st, x.o)) if not (x.o.op == "int" and x.o.val in s.strs.values()) else TRUE, "memory", "strcmp of strings")
        s.notes.add("strings given to strcmp are terminated and do not change")
        r = fresh("strcmp", INT)
        st.assume(Eq(Eq(r, I(0)), s.same_string(p, q)))
        return r
    def ext_free(s, st, args, e): s.do_free(st, s.rv(st, args[0])); return None
    def do_free(s, st, p):
        s.check(st, Or(Eq(p.o, I(0)), And(Lt(I(0), p.o), s.is_alive(st, p.o), Eq(p.f, I(0)))), "memory", "free of a live block start or null")
        s.set_alive(st, Store(st.alive, p.o, FALSE))
    def ext_memcpy(s, st, args, e, move=False):
        d, q, n = s.rv(st, args[0]), s.rv(st, args[1]), s.rv(st, args[2])
        elt = d.elt if d.elt and d.elt != VOID else q.elt
        if elt is None: raise Unsupported("memcpy of untyped memory")
        if q.elt and [s.kind(x) for x in s.u.leaves(q.elt)] != [s.kind(x) for x in s.u.leaves(elt)]: raise Unsupported("memcpy between types")
        if s.imode == "bv": n = s.toidx(n, U64)
        cnt = Mul(I(s.u.slots(elt)), Div(n, I(s.u.sizeof(elt))))
        s.check(st, Eq(Mod(n, I(s.u.sizeof(elt))), I(0)), "memory", "copy of whole elements")
        for p, w in ((d, "destination"), (q, "source")):
            s.check(st, Or(Eq(cnt, I(0)), And(s.is_alive(st, p.o), Le(I(0), p.f), Le(Add(p.f, cnt), s.sz(p.o)))), "memory", f"copy {w} inside an allocated object")
        if not move:
            s.check(st, Or(Not(Eq(d.o, q.o)), Le(Add(d.f, cnt), q.f), Le(Add(q.f, cnt), d.f)), "memory", "memcpy without overlap")
        for k in sorted({k for l in s.u.leaves(elt) for k in s.kinds(l)}):
            h = st.heap(k)
            src, old = Select(h, q.o), Select(h, d.o)
            if cnt.op == "int" and cnt.val <= 16:
                new = old
                for i in range(cnt.val): new = Store(new, Add(d.f, I(i)), Select(src, Add(q.f, I(i))))
            else:
                new = s.new_arr(k, "cp")
                b = fresh_bvar("k", INT)
                st.assume(Forall([b], Implies(And(Le(d.f, b), Lt(b, Add(d.f, cnt))), Eq(Select(new, b), Select(src, Add(q.f, Sub(b, d.f)))))))
                st.assume(Forall([b], Implies(Or(Lt(b, d.f), Le(Add(d.f, cnt), b)), Eq(Select(new, b), Select(old, b)))))
            st.heaps[k] = Store(h, d.o, new); s.wrote(k, d.o)
        return d
    def ext_memmove(s, st, args, e): return s.ext_memcpy(st, args, e, True)
    def ext_memset(s, st, args, e):
        d, c, n = s.rv(st, args[0]), s.rv(st, args[1]), s.rv(st, args[2])
        if not (c.op in ("int", "bv") and c.val == 0): raise Unsupported("memset with non-zero value")
        elt = d.elt
        if elt is None: raise Unsupported("memset of untyped memory")
        if s.imode == "bv": n = s.toidx(n, U64)
        cnt = Mul(I(s.u.slots(elt)), Div(n, I(s.u.sizeof(elt))))
        s.check(st, Eq(Mod(n, I(s.u.sizeof(elt))), I(0)), "memory", "memset of whole elements")
        s.check(st, Or(Eq(cnt, I(0)), And(s.is_alive(st, d.o), Le(I(0), d.f), Le(Add(d.f, cnt), s.sz(d.o)))), "memory", "memset inside an allocated object")
        for l in set(s.u.leaves(elt)):
            z = s.zero(l)
            for k, zv in ([("ptr.o", I(0)), ("ptr.f", I(0))] if isinstance(z, Ptr) else [(s.kind(l), z)]):
                if len(set(s.u.leaves(elt))) > 1 and not (cnt.op == "int"): raise Unsupported("memset of struct array")
                h = st.heap(k); old = Select(h, d.o)
                if cnt.op == "int" and cnt.val <= 64:
                    new = old
                    lv = s.u.leaves(elt)
                    for i in range(cnt.val):
                        if k in s.kinds(lv[i % len(lv)]): new = Store(new, Add(d.f, I(i)), zv)
                else:
                    new = s.new_arr(k, "ms"); b = fresh_bvar("k", INT)
                    ins = And(Le(d.f, b), Lt(b, Add(d.f, cnt)))
                    st.assume(Forall([b], Implies(ins, Eq(Select(new, b), zv))))
                    st.assume(Forall([b], Implies(Not(ins), Eq(Select(new, b), Select(old, b)))))
                st.heaps[k] = Store(h, d.o, new); s.wrote(k, d.o)
        return d
    def ext_printf(s, st, args, e):
        for a in args: s.rv_any(st, a)
        return s.symval(INT32, "printf")
    def ext_abs(s, st, args, e):
        v = s.rv(st, args[0]); return Ite(Le(I(0), v), v, Neg(v))

MATHF = {"fabs", "sin", "cos", "sqrt", "exp", "log", "log2", "pow", "floor", "ceil", "round", "tan", "fmod", "fmin", "fmax", "trunc", "log10", "cbrt", "sinh"}

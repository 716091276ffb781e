"""Hash-consed terms, simplifying constructors, interval analysis, SMT-LIB printing."""
from fractions import Fraction
import struct

class T:
    __slots__ = ("op", "args", "sort", "id", "val", "fv", "bv", "__weakref__")
    def __repr__(s): return show(s)

_tab = {}
_next = [0]
def _mk(op, args, sort, val=None):
    key = (op, tuple(a.id for a in args), sort, val)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = tuple(args); t.sort = sort; t.val = val
        t.id = _next[0]; _next[0] += 1
        b = False
        if op == "bvar": b = True
        else:
            for a in args:
                if a.bv: b = True; break
        # 'bv' : contains a (possibly free) bound variable
        t.bv = b
        _tab[key] = t
    return t

INT, BOOL, REAL, FS = "Int", "Bool", "Real", "F"
def ARR(i, e): return ("Array", i, e)
def BVS(n): return ("BV", n)
FP = "FP"
_fresh = {}
ranges = {}        # term id -> (lo, hi) known from its C type
def sym(name, sort): return _mk("sym", (), sort, name)
def fresh(name, sort):
    n = _fresh.get(name, 0); _fresh[name] = n + 1
    return sym(f"{name}!{n}", sort)
def bvar(name, sort): return _mk("bvar", (), sort, name)
def fresh_bvar(name, sort):
    n = _fresh.get("?" + name, 0); _fresh["?" + name] = n + 1
    return bvar(f"{name}?{n}", sort)
def I(n): return _mk("int", (), INT, int(n))
def R(x): return _mk("real", (), REAL, Fraction(x))
def BV(n, w): return _mk("bv", (), BVS(w), n & ((1 << w) - 1))
TRUE = _mk("true", (), BOOL); FALSE = _mk("false", (), BOOL)
def B(x): return TRUE if x else FALSE
def set_range(t, lo, hi):
    if t.op == "int": return t
    o = ranges.get(t.id)
    if o:
        lo = o[0] if lo is None else (lo if o[0] is None else max(lo, o[0]))
        hi = o[1] if hi is None else (hi if o[1] is None else min(hi, o[1]))
    ranges[t.id] = (lo, hi)
    _rc.pop(t.id, None)
    return t

# ---------------------------------------------------------------- intervals
_rc = {}
def rng(t):
    r = _rc.get(t.id)
    if r is None:
        r = _rng(t)
        o = ranges.get(t.id)
        if o:
            lo = o[0] if r[0] is None else (r[0] if o[0] is None else max(r[0], o[0]))
            hi = o[1] if r[1] is None else (r[1] if o[1] is None else min(r[1], o[1]))
            r = (lo, hi)
        _rc[t.id] = r
    return r
def _rng(t):
    op = t.op
    if op == "int": return (t.val, t.val)
    if op == "+":
        lo = hi = 0
        for a in t.args:
            l, h = rng(a)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return (lo, hi)
    if op == "*":
        a, b = rng(t.args[0]), rng(t.args[1])
        if len(t.args) == 2 and None not in a and None not in b:
            p = [x * y for x in a for y in b]
            return (min(p), max(p))
        if len(t.args) == 2 and a[0] is not None and b[0] is not None and a[0] >= 0 and b[0] >= 0:
            return (a[0] * b[0], None)
        return (None, None)
    if op == "ite":
        a, b = rng(t.args[1]), rng(t.args[2])
        return (None if a[0] is None or b[0] is None else min(a[0], b[0]),
                None if a[1] is None or b[1] is None else max(a[1], b[1]))
    if op == "mod":
        m = t.args[1]
        if m.op == "int" and m.val > 0:
            a = rng(t.args[0])
            hi = m.val - 1
            if a[0] is not None and a[0] >= 0 and a[1] is not None: hi = min(hi, a[1])
            return (0, hi)
        mr = rng(m)
        if mr[0] is not None and mr[0] > 0: return (0, None if mr[1] is None else mr[1] - 1)
        return (None, None)
    if op == "div":
        a, m = rng(t.args[0]), rng(t.args[1])
        if m[0] is not None and m[0] > 0 and a[0] is not None and a[0] >= 0:
            return (0 if m[1] is None else a[0] // m[1], None if a[1] is None else a[1] // m[0])
        return (None, None)
    return (None, None)

# ---------------------------------------------------------------- boolean
def Not(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "<=": return Lt(a.args[1], a.args[0])
    if a.op == "<": return Le(a.args[1], a.args[0])
    return _mk("not", (a,), BOOL)
def And(*xs):
    out = []; seen = set()
    def go(x):
        if x is TRUE: return True
        if x is FALSE: return False
        if x.op == "and":
            for y in x.args:
                if not go(y): return False
            return True
        if x.id in seen: return True
        seen.add(x.id); out.append(x)
        return True
    for x in xs:
        if not go(x): return FALSE
    for x in out:
        if x.op == "not" and x.args[0].id in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return _mk("and", out, BOOL)
def Or(*xs):
    out = []; seen = set()
    def go(x):
        if x is FALSE: return True
        if x is TRUE: return False
        if x.op == "or":
            for y in x.args:
                if not go(y): return False
            return True
        if x.id in seen: return True
        seen.add(x.id); out.append(x)
        return True
    for x in xs:
        if not go(x): return TRUE
    for x in out:
        if Not(x).id in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    return _mk("or", out, BOOL)
def Implies(a, b):
    if a is TRUE: return b
    if a is FALSE or b is TRUE: return TRUE
    if b is FALSE: return Not(a)
    if a is b: return TRUE
    return _mk("=>", (a, b), BOOL)
def _asorted(a, b): return (a, b) if a.id <= b.id else (b, a)
def diff_const(a, b):
    """a-b as python int if syntactically constant"""
    d = lin(a); e = lin(b)
    if d[1].keys() == e[1].keys() and all(d[1][k] == e[1][k] for k in d[1]): return d[0] - e[0]
    return None
def Eq(a, b):
    if a is b: return TRUE
    if a.sort == BOOL:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
    if a.sort == INT:
        d = diff_const(a, b)
        if d is not None: return B(d == 0)
        l, h = rng(a); l2, h2 = rng(b)
        if (h is not None and l2 is not None and h < l2) or (h2 is not None and l is not None and h2 < l): return FALSE
        if b.op == "ite" and a.op == "int": a, b = b, a
        if a.op == "ite" and b.op == "int":
            x, y = Eq(a.args[1], b), Eq(a.args[2], b)
            if x in (TRUE, FALSE) or y in (TRUE, FALSE): return Ite(a.args[0], x, y)
    if a.op == b.op and a.op in ("bv", "real", "fconst"):
        return B(a.val == b.val)
    a, b = _asorted(a, b)
    return _mk("=", (a, b), BOOL)
def Ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if c.op == "not": c, a, b = c.args[0], b, a
    if a.sort == BOOL:
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return Not(c)
        if a is TRUE: return Or(c, b)
        if b is FALSE: return And(c, a)
        if a is FALSE: return And(Not(c), b)
        if b is TRUE: return Or(Not(c), a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if isinstance(a.sort, tuple) and a.sort[0] == "Array":
        # push the condition into single differing stores
        if a.op == "store" and b.op == "store" and a.args[0] is b.args[0] and a.args[1] is b.args[1]:
            return Store(a.args[0], a.args[1], Ite(c, a.args[2], b.args[2]))
        if a.op == "store" and a.args[0] is b:
            return Store(b, a.args[1], Ite(c, a.args[2], Select(b, a.args[1])))
        if b.op == "store" and b.args[0] is a:
            return Store(a, b.args[1], Ite(c, Select(a, b.args[1]), b.args[2]))
        if a.op == "store" and b.op == "store" and a.args[1] is b.args[1]:
            return Store(Ite(c, a.args[0], b.args[0]), a.args[1], Ite(c, a.args[2], b.args[2]))
    return _mk("ite", (c, a, b), a.sort)

# ---------------------------------------------------------------- integers (mathematical)
_lc = {}
def lin(t):
    """(const, {termid: coef}) linear form"""
    r = _lc.get(t.id)
    if r is not None: return r
    if t.op == "int": r = (t.val, {})
    elif t.op == "+":
        c = 0; m = {}
        for a in t.args:
            c2, m2 = lin(a)
            c += c2
            for k, v in m2.items():
                v2 = m.get(k, 0) + v
                if v2: m[k] = v2
                else: m.pop(k, None)
        r = (c, m)
    elif t.op == "*" and len(t.args) == 2 and t.args[0].op == "int":
        c2, m2 = lin(t.args[1]); k0 = t.args[0].val
        r = (c2 * k0, {k: v * k0 for k, v in m2.items()} if k0 else {})
    else: r = (0, {t.id: 1}); _byid[t.id] = t
    _lc[t.id] = r
    return r
_byid = {}
def from_lin(c, m):
    parts = []
    for k in sorted(m):
        v = m[k]
        if v == 1: parts.append(_byid[k])
        elif v: parts.append(_mk("*", (I(v), _byid[k]), INT))
    if c or not parts: parts.append(I(c))
    if len(parts) == 1: return parts[0]
    return _mk("+", parts, INT)
def Add(*xs):
    c = 0; m = {}
    for a in xs:
        c2, m2 = lin(a); c += c2
        for k, v in m2.items():
            v2 = m.get(k, 0) + v
            if v2: m[k] = v2
            else: m.pop(k, None)
    r = from_lin(c, m)
    return r
def Neg(a): return Mul(I(-1), a)
def Sub(a, b): return Add(a, Neg(b))
def Mul(a, b):
    if a.op == "int" or b.op == "int":
        if b.op == "int": a, b = b, a
        c, m = lin(b); k = a.val
        return from_lin(c * k, {x: v * k for x, v in m.items()} if k else {})
    a, b = _asorted(a, b)
    return _mk("*", (a, b), INT)
def Le(a, b):
    d = diff_const(a, b)
    if d is not None: return B(d <= 0)
    la, ha = rng(a); lb, hb = rng(b)
    if ha is not None and lb is not None and ha <= lb: return TRUE
    if la is not None and hb is not None and la > hb: return FALSE
    r = rng(Sub(b, a))
    if r[0] is not None and r[0] >= 0: return TRUE
    if r[1] is not None and r[1] < 0: return FALSE
    return _mk("<=", (a, b), BOOL)
def Lt(a, b):
    d = diff_const(a, b)
    if d is not None: return B(d < 0)
    la, ha = rng(a); lb, hb = rng(b)
    if ha is not None and lb is not None and ha < lb: return TRUE
    if la is not None and hb is not None and la >= hb: return FALSE
    r = rng(Sub(b, a))
    if r[0] is not None and r[0] > 0: return TRUE
    if r[1] is not None and r[1] <= 0: return FALSE
    return _mk("<", (a, b), BOOL)
def Ge(a, b): return Le(b, a)
def Gt(a, b): return Lt(b, a)
def Div(a, b):  # SMT (floor for positive divisor) division; callers guarantee b>0
    if b.op == "int" and b.val > 0:
        if a.op == "int": return I(a.val // b.val)
        if b.val == 1: return a
        c, m = lin(a)
        if all(v % b.val == 0 for v in m.values()):
            return from_lin(c // b.val, {k: v // b.val for k, v in m.items()})
    return _mk("div", (a, b), INT)
def Mod(a, b):
    if b.op == "int" and b.val > 0:
        if a.op == "int": return I(a.val % b.val)
        l, h = rng(a)
        if l is not None and h is not None and l >= 0 and h < b.val: return a
        if b.val == 1: return I(0)
    return _mk("mod", (a, b), INT)
def wrapu(t, w):
    """unsigned wrap of a mathematical integer to w bits"""
    M = 1 << w
    l, h = rng(t)
    if l is not None and h is not None:
        if l >= 0 and h < M: return t
        if l >= 0 and h < 2 * M: return set_range(Ite(Lt(t, I(M)), t, Sub(t, I(M))), 0, M - 1)
        if l >= -M and h < M: return set_range(Ite(Le(I(0), t), t, Add(t, I(M))), 0, M - 1)
    return Mod(t, I(M))

# ---------------------------------------------------------------- arrays
sep_pairs = set()     # pairs of object ids that the precondition of the function under proof separates
def distinct(a, b):
    if a is b: return False
    if sep_pairs and ((a.id, b.id) in sep_pairs or (b.id, a.id) in sep_pairs): return True
    if a.op == "bv" and b.op == "bv": return a.val != b.val
    if a.sort == INT:
        d = diff_const(a, b)
        if d is not None: return d != 0
        l, h = rng(a); l2, h2 = rng(b)
        if (h is not None and l2 is not None and h < l2) or (h2 is not None and l is not None and h2 < l): return True
    return False
def Select(a, i):
    while a.op == "store":
        if a.args[1] is i: return a.args[2]
        if distinct(a.args[1], i): a = a.args[0]
        else: break
    if a.op == "constarr": return a.args[0]
    if a.op == "ite":
        # push select through ite when a branch simplifies
        x, y = Select(a.args[1], i), Select(a.args[2], i)
        if isinstance(a.sort[2], tuple) and a.sort[2][0] == "Array" or not (x.op == "select" and x.args[0] is a.args[1] and y.op == "select" and y.args[0] is a.args[2]):
            return Ite(a.args[0], x, y)
    return _mk("select", (a, i), a.sort[2])
def Store(a, i, v):
    if a.op == "store" and a.args[1] is i: a = a.args[0]
    elif a.op == "store":
        # sort stores at provably distinct constant objects so equal heaps are syntactically equal
        if a.args[1].op == "int" and i.op == "int" and i.val < a.args[1].val:
            return Store(Store(a.args[0], i, v), a.args[1], a.args[2])
        # remove a shadowed earlier store
        b = a; chain = []
        while b.op == "store" and distinct(b.args[1], i): chain.append((b.args[1], b.args[2])); b = b.args[0]
        if b.op == "store" and b.args[1] is i:
            b = b.args[0]
            for (j, w) in reversed(chain): b = _mk("store", (b, j, w), a.sort)
            a = b
    if v.op == "select" and v.args[0] is a and v.args[1] is i: return a
    return _mk("store", (a, i, v), a.sort)
def ConstArr(sort, v): return _mk("constarr", (v,), sort)

# ---------------------------------------------------------------- quantifiers
def Forall(vs, body, pats=None):
    if body in (TRUE, FALSE): return body
    used = free_bvars(body)
    vs = [v for v in vs if v in used]
    if not vs: return body
    if body.op == "forall": vs = list(vs) + list(body.val); body = body.args[0]
    if body.op == "=>" and body.args[1].op == "forall": return Forall(list(vs) + list(body.args[1].val), Implies(body.args[0], body.args[1].args[0]))
    if body.op == "and":
        return And(*[Forall(vs, b) for b in body.args])
    return _mk("forall", (body,), BOOL, tuple(vs))
def Exists(vs, body):
    return Not(Forall(vs, Not(body)))
_fb = {}
def free_bvars(t):
    if not t.bv: return frozenset()
    r = _fb.get(t.id)
    if r is None:
        if t.op == "bvar": r = frozenset((t,))
        else:
            r = frozenset().union(*[free_bvars(a) for a in t.args])
            if t.op == "forall": r = r - frozenset(t.val)
        _fb[t.id] = r
    return r
def App(f, args, sort): return _mk("app", args, sort, f)

def rebuild(t, args):
    op = t.op
    if op == "and": return And(*args)
    if op == "or": return Or(*args)
    if op == "not": return Not(args[0])
    if op == "=>": return Implies(*args)
    if op == "=": return Eq(*args)
    if op == "ite": return Ite(*args)
    if op == "+" and t.sort == INT: return Add(*args)
    if op == "*" and t.sort == INT: return Mul(*args)
    if op == "<=" and args[0].sort == INT: return Le(*args)
    if op == "<" and args[0].sort == INT: return Lt(*args)
    if op == "div": return Div(*args)
    if op == "mod": return Mod(*args)
    if op == "select": return Select(*args)
    if op == "store": return Store(*args)
    if op == "forall": return Forall(list(t.val), args[0])
    return _mk(op, args, t.sort, t.val)
def subst(t, m, cache=None):
    """m: {term: term}"""
    if cache is None: cache = {}
    st = [(t, False)]
    while st:
        x, done = st.pop()
        if x.id in cache: continue
        if x in m: cache[x.id] = m[x]; continue
        if not x.args: cache[x.id] = x; continue
        if not done:
            st.append((x, True))
            for a in x.args:
                if a.id not in cache: st.append((a, False))
        else:
            args = [cache[a.id] for a in x.args]
            cache[x.id] = x if all(p is q for p, q in zip(args, x.args)) else rebuild(x, args)
    return cache[t.id]

# ---------------------------------------------------------------- reals / floats
def RAdd(a, b):
    if a.op == "real" and b.op == "real": return R(a.val + b.val)
    if a.op == "real" and a.val == 0: return b
    if b.op == "real" and b.val == 0: return a
    a, b = _asorted(a, b)
    return _mk("r+", (a, b), REAL)
def RMul(a, b):
    if a.op == "real" and b.op == "real": return R(a.val * b.val)
    for x, y in ((a, b), (b, a)):
        if x.op == "real":
            if x.val == 1: return y
            if x.val == 0: return R(0)
    a, b = _asorted(a, b)
    return _mk("r*", (a, b), REAL)
def RNeg(a): return RMul(R(-1), a)
def RDiv(a, b):
    if b.op == "real" and b.val != 0: return RMul(R(1 / b.val), a)
    return _mk("r/", (a, b), REAL)
def RLe(a, b):
    if a is b: return TRUE
    if a.op == "real" and b.op == "real": return B(a.val <= b.val)
    return _mk("<=", (a, b), BOOL)
def RLt(a, b):
    if a is b: return FALSE
    if a.op == "real" and b.op == "real": return B(a.val < b.val)
    return _mk("<", (a, b), BOOL)
def ToReal(a):
    if a.op == "int": return R(a.val)
    return _mk("to_real", (a,), REAL)

# generic n-ary op without simplification (BV, FP)
def Op(op, args, sort, val=None): return _mk(op, args, sort, val)

# ---------------------------------------------------------------- printing
def sort_str(s):
    if isinstance(s, tuple):
        if s[0] == "Array": return f"(Array {sort_str(s[1])} {sort_str(s[2])})"
        if s[0] == "BV": return f"(_ BitVec {s[1]})"
    if s == FP: return "(_ FloatingPoint 11 53)"
    return s
def q(n):
    return "|" + n + "|"
def _const(t):
    if t.op in ("sym", "bvar"): return q(t.val)
    if t.op == "int": return str(t.val) if t.val >= 0 else f"(- {-t.val})"
    if t.op == "real":
        f = t.val; n, d = abs(f.numerator), f.denominator
        s = f"{n}.0" if d == 1 else f"(/ {n}.0 {d}.0)"
        return s if f >= 0 else f"(- {s})"
    if t.op == "bv": return f"(_ bv{t.val} {t.sort[1]})"
    if t.op in ("true", "false"): return t.op
    if t.op == "fconst": return q("f#" + t.val)
    if t.op == "fpconst":
        b = struct.unpack(">Q", struct.pack(">d", t.val))[0] if isinstance(t.val, float) else t.val
        return f"(fp #b{b >> 63} #b{(b >> 52) & 0x7ff:011b} #b{b & ((1 << 52) - 1):052b})"
    return None
PRINT = {"r+": "+", "r*": "*", "r/": "/"}
def _head(t):
    if t.op == "app_rm": return t.val + " RNE"
    if t.op == "to_fp_s": return "(_ to_fp 11 53) RNE"
    if t.op == "to_fp_u": return "(_ to_fp_unsigned 11 53) RNE"
    if t.op == "fp2bv_u": return f"(_ fp.to_ubv {t.sort[1]}) RTZ"
    if t.op == "fp2bv_s": return f"(_ fp.to_sbv {t.sort[1]}) RTZ"
    if t.op == "app": return q(t.val)
    if t.op == "idx": return t.val          # indexed operators such as (_ extract 3 0)
    if t.op == "constarr": return f"(as const {sort_str(t.sort)})"
    return PRINT.get(t.op, t.op)

def show(t, depth=6):
    c = _const(t)
    if c is not None: return c
    if depth == 0: return "…"
    if t.op == "forall":
        return "(forall (" + " ".join(v.val for v in t.val) + ") " + show(t.args[0], depth - 1) + ")"
    return "(" + _head(t) + " " + " ".join(show(a, depth - 1) for a in t.args) + ")"

class Printer:
    """prints a set of assertions with shared closed subterms as define-funs"""
    def __init__(self): self.decls = {}; self.funs = {}; self.defs = []; self.names = {}; self.fsort = False; self.nl = set()
    def collect(self, roots):
        cnt = {}
        order = []
        seen = set()
        st = [(r, False) for r in reversed(roots)]
        while st:
            t, done = st.pop()
            if done: order.append(t); continue
            cnt[t.id] = cnt.get(t.id, 0) + 1
            if t.id in seen: continue
            seen.add(t.id)
            st.append((t, True))
            for a in reversed(t.args): st.append((a, False))
            if t.op == "forall":
                pass
        return cnt, order
    def run(self, roots):
        cnt, order = self.collect(roots)
        lines = []; txt = {}
        for t in order:
            c = _const(t)
            if c is not None:
                txt[t.id] = c
                if t.op == "sym": self.decls[t.val] = t.sort
                if t.op == "fconst": self.decls["f#" + t.val] = FS
                continue
            if t.op == "app":
                self.funs[t.val] = (tuple(a.sort for a in t.args), t.sort)
            if t.op == "forall":
                s = "(forall (" + " ".join(f"({q(v.val)} {sort_str(v.sort)})" for v in t.val) + ") " + (f"(! {txt[t.args[0].id]} :pattern ({' '.join(txt[a.id] for a in t.args[1:])}))" if len(t.args) > 1 else txt[t.args[0].id]) + ")"
            elif t.op in ("*", "div", "mod") and t.sort == INT and not (t.args[1].op == "int" or t.op == "*" and t.args[0].op == "int"):
                s = "(" + {"*": "nmul", "div": "ndiv", "mod": "nmod"}[t.op] + " " + " ".join(txt[a.id] for a in t.args) + ")"
                self.nl.add(t.op)
            elif t.op == "fp_f32":
                s = "((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE " + txt[t.args[0].id] + "))"
            elif t.args or t.op == "idx":
                s = "(" + _head(t) + " " + " ".join(txt[a.id] for a in t.args) + ")"
            else:
                s = _head(t) if t.op == "app" else t.op
            if cnt[t.id] > 1 and len(s) > 24 and not free_bvars(t):
                n = f"d{len(lines)}"
                lines.append(f"(define-fun {n} () {sort_str(t.sort)} {s})")
                s = n
            txt[t.id] = s
        out = []
        for n, s in self.decls.items(): out.append(f"(declare-fun {q(n)} () {sort_str(s)})")
        for n, (a, r) in self.funs.items():
            out.append(f"(declare-fun {q(n)} ({' '.join(map(sort_str, a))}) {sort_str(r)})")
        return out, lines, [txt[r.id] for r in roots]

def subterms(roots):
    seen = set(); st = list(roots); out = []
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen.add(t.id); out.append(t)
        st.extend(t.args)
    return out

# ------------------------------------------------------------ every verification starts from the same term numbers
_base = None
CACHES = []
def reset():
    """forget the terms made since the first call: results do not depend on what was verified before"""
    global _base
    if _base is None:
        _base = (_next[0], dict(_fresh), dict(ranges)); return
    n = _base[0]; _next[0] = n
    for k in [k for k, t in _tab.items() if t.id >= n]: del _tab[k]
    _fresh.clear(); _fresh.update(_base[1]); ranges.clear(); ranges.update(_base[2])
    for d in (_rc, _lc, _byid, _fb, *CACHES): d.clear()

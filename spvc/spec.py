"""Specification language: Python expression syntax with a C-typed meaning.
 values: Int terms, F terms (doubles), Bool terms, pointers, struct locations.
 ==  on doubles means "the same double value" (identical bits up to NaN payload); feq() is C's ==."""
import ast
from term import *
import term as tm

class SpecError(Exception): pass
_pc = {}
def parse_expr(x):
    r = _pc.get(x)
    if r is None:
        try: r = ast.parse(x.strip(), mode="eval").body
        except SyntaxError as e: raise SpecError(f"{x}: {e}")
        _pc[x] = r
    return r
def holes_of(x):
    return sorted({n.id for n in ast.walk(parse_expr(x)) if isinstance(n, ast.Name) and n.id.startswith("_") and len(n.id) > 1})

class V:
    """spec value: kind in int,double,bool,ptr,loc,arr"""
    __slots__ = ("k", "t", "ct")
    def __init__(s, k, t, ct=None): s.k, s.t, s.ct = k, t, ct

class Macro:
    def __init__(s, params, body): s.params, s.body = params, body
class Rec:
    """recursive logic function: params [(name, kind)], kind in int,double,arr:<leafkind>; body in the spec language"""
    def __init__(s, name, params, ret, body, py=None): s.name, s.params, s.ret, s.body, s.py = name, params, ret, body, py

LOGIC = {}     # name -> Macro | Rec
def macro(sig, body):
    n, ps = sig.split("(", 1); LOGIC[n.strip()] = Macro([p.strip() for p in ps.rstrip(")").split(",") if p.strip()], body)
def rec(sig, ret, body, py=None):
    """rec("sum(a:u32[], n:int)", "int", "0 if n <= 0 else sum(a, n-1) + a[n-1]")"""
    n, ps = sig.split("(", 1); n = n.strip()
    params = [tuple(x.strip() for x in p.split(":")) for p in ps.rstrip(")").split(",") if p.strip()]
    LOGIC[n] = Rec(n, params, ret, body, py)

def cont(x): return V("int", x)

class SpecEval:
    def __init__(s, ex, st, old, pre, bind, result, holes=None, cur=None):
        s.ex, s.st, s.old, s.pre, s.bind, s.result, s.holes = ex, st, old, pre, bind, result, holes or {}
        s.local = {}
        s.cur = cur; s.hst = st
    def at(s, st):
        n = SpecEval(s.ex, st, s.old, s.pre, s.bind, s.result, s.holes, s.cur); n.local = s.local; n.hst = s.hst; return n
    # ---- conversions
    def wrap(s, v, ct):
        k = ct[0]
        if k == "int": return V("int", v, ct)
        if k in ("double", "float", "ldouble"): return V("double", v, ct)
        if k in ("ptr", "func"): return V("ptr", v, ct if k == "ptr" else ("ptr", ct))
        if k in ("struct", "array"):
            return V("sval", v, ct)
        raise SpecError(f"value of type {ct}")
    def bool(s, x):
        v = s.ev(parse_expr(x) if isinstance(x, str) else x)
        return s.tobool(v)
    def tobool(s, v):
        if v.k == "bool": return v.t
        if v.k == "int": return Not(Eq(v.t, I(0))) if v.t.sort == INT else Not(Eq(v.t, BV(0, v.t.sort[1])))
        if v.k == "ptr": return Not(Eq(v.t.o, I(0)))
        raise SpecError("not a truth value: " + v.k)
    def toint(s, v):
        if v.k == "int": return v.t
        if v.k == "bool": return Ite(v.t, I(1), I(0))
        raise SpecError("not an integer: " + v.k)
    def toidx(s, v):
        t = s.toint(v)
        return t if t.sort == INT else s.ex.toidx(t, ("int", 64, False))
    def tof(s, v):
        if v.k == "double": return v.t
        if v.k == "int":
            if v.t.sort != INT:
                return s.ex.d.from_int(v.t, v.ct or ("int", 64, False))
            return s.ex.d.from_int(v.t)
        if v.k == "bool": return s.ex.d.from_int(Ite(v.t, I(1), I(0)))
        raise SpecError("not a double: " + v.k)
    def unify(s, a, b):
        """bring two int values to a common BV width in bv mode"""
        if a.sort == INT and b.sort == INT: return a, b
        w = max(x.sort[1] for x in (a, b) if x.sort != INT)
        w = max(w, 64) if a.sort != INT and b.sort != INT and a.sort != b.sort else w
        def up(x):
            if x.sort == INT:
                if x.op != "int": raise SpecError("mixing Int and BV")
                return BV(x.val, w)
            return s.ex.bvresize(x, x.sort[1], w, False)
        return up(a), up(b)
    # ---- evaluation
    def ev(s, n):
        ex, d = s.ex, s.ex.d
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool): return V("bool", B(n.value))
            if isinstance(n.value, int): return V("int", I(n.value))
            if isinstance(n.value, float): return V("double", d.const(n.value))
            raise SpecError("constant")
        if isinstance(n, ast.Name): return s.name(n.id)
        if isinstance(n, ast.BoolOp):
            vs = [s.tobool(s.ev(x)) for x in n.values]
            return V("bool", And(*vs) if isinstance(n.op, ast.And) else Or(*vs))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not): return V("bool", Not(s.tobool(s.ev(n.operand))))
            v = s.ev(n.operand)
            if isinstance(n.op, ast.USub):
                if v.k == "double": return V("double", d.neg(v.t))
                if s.toint(v).sort != INT: return V("int", Op("bvneg", (v.t,), v.t.sort))
                return V("int", Neg(s.toint(v)))
            if isinstance(n.op, ast.Invert): return V("int", Op("bvnot", (v.t,), v.t.sort))
            raise SpecError("unary")
        if isinstance(n, ast.BinOp):
            a, b = s.ev(n.left), s.ev(n.right)
            return s.binop(type(n.op).__name__, a, b)
        if isinstance(n, ast.Compare):
            out = []; l = s.ev(n.left)
            for op, r in zip(n.ops, n.comparators):
                r = s.ev(r); out.append(s.cmp(type(op).__name__, l, r)); l = r
            return V("bool", And(*out))
        if isinstance(n, ast.IfExp):
            c = s.tobool(s.ev(n.test))
            if c is TRUE: return s.ev(n.body)
            if c is FALSE: return s.ev(n.orelse)
            a, b = s.ev(n.body), s.ev(n.orelse)
            if a.k == "double" or b.k == "double": return V("double", Ite(c, s.tof(a), s.tof(b)))
            if a.k == "bool" and b.k == "bool": return V("bool", Ite(c, a.t, b.t))
            if a.k == "ptr": 
                from sym import Ptr
                bt = b.t if b.k == "ptr" else Ptr(I(0), I(0))
                return V("ptr", Ptr(Ite(c, a.t.o, bt.o), Ite(c, a.t.f, bt.f)), a.ct)
            x, y = s.unify(s.toint(a), s.toint(b))
            return V("int", Ite(c, x, y), a.ct if a.ct == b.ct else None)
        if isinstance(n, ast.Subscript):
            p = s.ev(n.value)
            i = s.ev(n.slice)
            return s.index(p, s.toidx(i))
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == "g":
                l = ex.global_loc(s.st, n.attr); return s.rdloc(l)
            p = s.ev(n.value)
            return s.member(p, n.attr)
        if isinstance(n, ast.Call): return s.call(n)
        raise SpecError("expression " + ast.dump(n)[:60])
    def name(s, x):
        if x in s.local: return s.local[x]
        if x in s.holes:
            v = s.holes[x](s.hst)
            if v is None: raise SpecError("hole " + x)
            return v
        if x == "result":
            if s.result is None: raise SpecError("no result here")
            return s.wrap(*s.result) if s.result[0] is not None else None
        if x == "NULL":
            from sym import NULLP
            return V("ptr", NULLP, ("ptr", ("void",)))
        if x in s.bind: return s.wrap(*s.bind[x])
        if x in s.ex.u.enums: return V("int", I(s.ex.u.enums[x]))
        if x in ("inf", "nan"): return V("double", s.ex.d.const(float(x)))
        raise SpecError("unknown name " + x)
    def rdloc(s, l):
        ct = l.ct
        if ct[0] in ("struct", "array", "opaque"): return V("loc", (l.o, l.f), ct)
        return s.wrap(s.ex.load(s.st, ct, l.o, l.f), ct)
    def index(s, p, i):
        from sym import Loc
        if p.k == "ptr":
            e = p.ct[1]; n = s.ex.u.slots(e)
            return s.rdloc(Loc(e, o=p.t.o, f=Add(p.t.f, Mul(I(n), i))))
        if p.k == "loc" and p.ct[0] == "array":
            e = p.ct[1]; n = s.ex.u.slots(e)
            return s.rdloc(Loc(e, o=p.t[0], f=Add(p.t[1], Mul(I(n), i))))
        if p.k == "sval" and i.op == "int":
            e = p.ct[1]; n = s.ex.u.slots(e)
            ls = p.t.leaves[i.val * n:(i.val + 1) * n]
            if e[0] in ("struct", "array"):
                from sym import SVal
                return V("sval", SVal(ls, e), e)
            return s.wrap(ls[0], e)
        if p.k == "arr":   # (inner array term, offset, leaf ctype)
            a, off = p.t
            t = Select(a, Add(off, i))
            if p.ct[0] == "int" and s.ex.imode == "int" and not free_bvars(t) and t.op == "select":
                from sym import int_range
                set_range(t, *int_range(p.ct))
            return s.wrap(t, p.ct)
        raise SpecError("index of " + p.k)
    def member(s, p, name):
        from sym import Loc, SVal
        if p.k == "ptr": st, o, f = p.ct[1], p.t.o, p.t.f
        elif p.k == "loc": st, (o, f) = p.ct, p.t
        elif p.k == "sval":
            off, ft = s.ex.u.field_off(p.ct, name)
            n = s.ex.u.slots(ft); ls = p.t.leaves[off:off + n]
            if ft[0] in ("struct", "array"): return V("sval", SVal(ls, ft), ft)
            return s.wrap(ls[0], ft)
        else: raise SpecError(f"member {name} of {p.k}")
        off, ft = s.ex.u.field_off(st, name)
        return s.rdloc(Loc(ft, o=o, f=Add(f, I(off))))
    def binop(s, op, a, b):
        d = s.ex.d
        if a.k == "double" or b.k == "double":
            x, y = s.tof(a), s.tof(b)
            return V("double", {"Add": d.add, "Sub": d.sub, "Mult": d.mul, "Div": d.div}[op](x, y))
        if a.k == "ptr" and op in ("Add", "Sub"):
            from sym import Ptr
            i = Mul(I(s.ex.u.slots(a.ct[1])), s.toidx(b))
            return V("ptr", Ptr(a.t.o, Add(a.t.f, i if op == "Add" else Neg(i)), a.t.elt), a.ct)
        if op == "Div": return V("double", d.div(s.tof(a), s.tof(b)))
        x, y = s.unify(s.toint(a), s.toint(b))
        if x.sort != INT:
            nm = {"Add": "bvadd", "Sub": "bvsub", "Mult": "bvmul", "FloorDiv": "bvudiv", "Mod": "bvurem", "BitAnd": "bvand", "BitOr": "bvor", "BitXor": "bvxor", "LShift": "bvshl", "RShift": "bvlshr"}[op]
            if x.op == "bv" and y.op == "bv":
                f = {"Add": lambda p, q: p + q, "Sub": lambda p, q: p - q, "Mult": lambda p, q: p * q, "LShift": lambda p, q: p << q, "RShift": lambda p, q: p >> q}.get(op)
                if f: return V("int", BV(f(x.val, y.val), x.sort[1]))
            if nm in ("bvadd", "bvmul", "bvand", "bvor", "bvxor"): x, y = tm._asorted(x, y)
            return V("int", Op(nm, (x, y), x.sort))
        if op == "Add": return V("int", Add(x, y))
        if op == "Sub": return V("int", Sub(x, y))
        if op == "Mult": return V("int", Mul(x, y))
        if op == "FloorDiv": return V("int", Div(x, y))
        if op == "Mod": return V("int", Mod(x, y))
        if op == "BitAnd" and y.op == "int" and y.val > 0 and y.val & (y.val + 1) == 0: return V("int", Mod(x, I(y.val + 1)))
        if op == "RShift" and y.op == "int": return V("int", Div(x, I(1 << y.val)))
        if op == "LShift" and y.op == "int": return V("int", Mul(x, I(1 << y.val)))
        raise SpecError("operator " + op)
    def cmp(s, op, a, b):
        d = s.ex.d
        if a.k == "double" or b.k == "double":
            x, y = s.tof(a), s.tof(b)
            return {"Eq": lambda: d.same(x, y), "NotEq": lambda: Not(d.same(x, y)), "Lt": lambda: d.lt(x, y), "LtE": lambda: d.le(x, y),
                    "Gt": lambda: d.lt(y, x), "GtE": lambda: d.le(y, x)}[op]()
        if a.k == "bool" and b.k == "bool":
            return Eq(a.t, b.t) if op == "Eq" else Not(Eq(a.t, b.t))
        if a.k == "ptr" or b.k == "ptr":
            from sym import Ptr
            f = lambda v: v.t if v.k == "ptr" else (Ptr(I(0), I(0)) if v.t.op == "int" and v.t.val == 0 else None)
            x, y = f(a), f(b)
            e = And(Eq(x.o, y.o), Or(Eq(x.f, y.f), Eq(x.o, I(0))))
            if op == "Eq": return e
            if op == "NotEq": return Not(e)
            raise SpecError("pointer order")
        if a.k == "sval" or a.k == "loc":
            la, lb = s.leaves(a), s.leaves(b)
            e = And(*[s.leafeq(x, y) for x, y in zip(la, lb)])
            return e if op == "Eq" else Not(e)
        x, y = s.unify(s.toint(a), s.toint(b))
        if op == "Eq": return Eq(x, y)
        if op == "NotEq": return Not(Eq(x, y))
        if x.sort == INT: return {"Lt": Lt, "LtE": Le, "Gt": Gt, "GtE": Ge}[op](x, y)
        return Op({"Lt": "bvult", "LtE": "bvule", "Gt": "bvugt", "GtE": "bvuge"}[op], (x, y), BOOL)
    def leafeq(s, x, y):
        if isinstance(x, T): return Eq(x, y)
        return And(Eq(x.o, y.o), Eq(x.f, y.f))
    def leaves(s, v):
        if v.k == "sval": return v.t.leaves
        if v.k == "loc": return s.ex.load(s.st, v.ct, v.t[0], v.t[1]).leaves
        raise SpecError("leaves")
    def with_local(s, d):
        n = SpecEval(s.ex, s.st, s.old, s.pre, s.bind, s.result, s.holes, s.cur); n.local = {**s.local, **d}; n.hst = s.hst; return n
    def ptr(s, v):
        if v.k == "ptr": return v.t
        if v.k == "loc":
            from sym import Ptr
            return Ptr(v.t[0], v.t[1], v.ct)
        raise SpecError("pointer expected")
    def call(s, n):
        ex, d = s.ex, s.ex.d
        f = n.func.id; a = n.args
        if f in ("forall", "exists"):
            # forall(k, lo, hi, body) / forall(k, body)
            v = a[0].id
            b = fresh_bvar(v, INT)
            if len(a) == 4:
                lo, hi = s.toidx(s.ev(a[1])), s.toidx(s.ev(a[2]))
                e = s.with_local({v: V("int", b)})
                body = e.tobool(e.ev(a[3])); g = And(Le(lo, b), Lt(b, hi))
                return V("bool", Forall([b], Implies(g, body)) if f == "forall" else Exists([b], And(g, body)))
            e = s.with_local({v: V("int", b)})
            body = e.tobool(e.ev(a[1]))
            return V("bool", Forall([b], body) if f == "forall" else Exists([b], body))
        if f == "old": return s.at(s.old).ev(a[0])
        if f == "pre":
            if s.pre is None: raise SpecError("no loop entry state")
            return s.at(s.pre).ev(a[0])
        if f == "start":      # the value of a hole variable before the loop
            if s.pre is None: raise SpecError("no loop entry state")
            v = s.holes[a[0].id](s.pre)
            if v is None: raise SpecError("no value before the loop")
            return v
        if f == "implies":
            x = s.tobool(s.ev(a[0]))
            if x is FALSE: return V("bool", TRUE)
            return V("bool", Implies(x, s.tobool(s.ev(a[1]))))
        if f == "iff": return V("bool", Eq(s.tobool(s.ev(a[0])), s.tobool(s.ev(a[1]))))
        if f == "let":   # let(name, value, body)
            v = s.ev(a[1]); return s.with_local({a[0].id: v}).ev(a[2])
        if f in LOGIC: return s.logic(LOGIC[f], [s.ev(x) for x in a])
        if f in ("u8", "u16", "u32", "u64", "i32", "i64"):
            w = int(f[1:]); v = s.ev(a[0])
            if v.k == "double":
                return V("int", d.to_int(v.t, w, f[0] == "i"), ("int", w, f[0] == "i"))
            t = s.toint(v)
            if t.sort != INT: return V("int", ex.bvresize(t, t.sort[1], w, False), ("int", w, False))
            if f[0] == "u": return V("int", wrapu(t, w), ("int", w, False))
            return V("int", t)
        if f == "cast":
            ct = ex.u.parse(a[0].value); v = s.ev(a[1])
            from sym import Ptr
            p = s.ptr(v)
            return V("ptr", Ptr(p.o, p.f, ct[1]), ct)
        if f == "sizeof": return V("int", I(ex.u.sizeof(ex.u.parse(a[0].value))))
        if f == "deref":
            p = s.ev(a[0]); return s.index(p, I(0))
        if f == "addr" and isinstance(a[0], ast.Attribute) and isinstance(a[0].value, ast.Name) and a[0].value.id == "g":
            from sym import Ptr
            l = ex.global_loc(s.st, a[0].attr); return V("ptr", Ptr(l.o, l.f, l.ct), ("ptr", l.ct))
        if f == "addr" and isinstance(a[0], ast.Attribute):
            from sym import Ptr
            p = s.ev(a[0].value)
            if p.k == "ptr": st, o, fo = p.ct[1], p.t.o, p.t.f
            else: st, (o, fo) = p.ct, p.t
            off, ft = ex.u.field_off(st, a[0].attr)
            return V("ptr", Ptr(o, Add(fo, I(off)), ft), ("ptr", ft))
        if f == "addr":
            v = s.ev(a[0])
            if v.k != "loc": raise SpecError("addr of non-location")
            from sym import Ptr
            return V("ptr", Ptr(v.t[0], v.t[1], v.ct), ("ptr", v.ct))
        if f == "fnptr": return V("ptr", ex.func_value(a[0].id), ("ptr", ("func",)))
        if f == "valid":
            v = s.ev(a[0]); p = s.ptr(v); sl = ex.u.slots(v.ct[1])
            c = s.toidx(s.ev(a[1])) if len(a) > 1 else I(1)
            return V("bool", And(ex.is_alive(s.st, p.o), Le(I(0), p.f), Le(Add(p.f, Mul(I(sl), c)), ex.sz(p.o))))
        if f == "block":   # start of an allocated block (free-able)
            p = s.ptr(s.ev(a[0])); return V("bool", And(Lt(I(0), p.o), ex.is_alive(s.st, p.o), Eq(p.f, I(0))))
        if f == "alive":
            p = s.ptr(s.ev(a[0])); return V("bool", ex.is_alive(s.st, p.o))
        if f == "string":  # string(p, "x"): p points to a string with this content
            p = s.ptr(s.ev(a[0])); i = ex.str_id('"' + a[1].value + '"')
            from sym import Ptr
            return V("bool", ex.same_string(p, Ptr(I(i), I(0), None)))
        if f == "prod":    # product of mathematical integers, multiplied out
            x, y = s.toidx(s.ev(a[0])), s.toidx(s.ev(a[1]))
            (c, l), (d, m) = tm.lin(x), tm.lin(y)
            ts = [I(c * d)] + [Mul(I(c * v), tm._byid[k]) for k, v in m.items()] + [Mul(I(d * v), tm._byid[k]) for k, v in l.items()] + [Mul(I(v * w), Mul(tm._byid[k], tm._byid[j])) for k, v in l.items() for j, w in m.items()]
            return V("int", Add(*ts))
        if f == "idx":     # ghost numbering of objects: a contract that numbers the elements of nd makes them distinct
            return V("int", App("gidx", (s.ptr(s.ev(a[0])).o,), INT))
        if f == "sep":     # different objects
            ps = [s.ptr(s.ev(x)) for x in a]
            return V("bool", And(*[Not(Eq(x.o, y.o)) for i, x in enumerate(ps) for y in ps[i + 1:]]))
        if f == "sepn":    # sepn(p,n,q,m): ranges do not overlap
            p, q_ = s.ptr(s.ev(a[0])), s.ptr(s.ev(a[2])); n_, m = s.toidx(s.ev(a[1])), s.toidx(s.ev(a[3]))
            return V("bool", Or(Not(Eq(p.o, q_.o)), Le(Add(p.f, n_), q_.f), Le(Add(q_.f, m), p.f)))
        if f == "fresh":   # allocated during the call
            p = s.ptr(s.ev(a[0])); v = s.ev(a[0])
            c = [Lt(I(0), p.o), Not(ex.is_alive(s.old, p.o)), ex.is_alive(s.st, p.o), Eq(p.f, I(0))]
            if len(a) > 1: c.append(Le(Mul(I(ex.u.slots(v.ct[1])), s.toidx(s.ev(a[1]))), ex.sz(p.o)))
            return V("bool", And(*c))
        if f == "noleak":  # noleak(p, q...) : everything allocated during the call and still live is one of the given
            ps = [s.ptr(s.ev(x)).o for x in a]
            return V("bool", s.alive_unchanged(ps))
        if f == "unchanged_alive": 
            return V("bool", s.alive_unchanged([]))
        if f == "perm":    # perm(p, n): p[0:n] now is a permutation (by swaps inside the range) of p[0:n] in the old state; perm(p, n, a, b): by swaps inside [a, b)
            v = s.ev(a[0]); p = s.ptr(v); k = ex.kind(v.ct[1])
            if ex.u.slots(v.ct[1]) != 1: raise SpecError("perm of structures")
            lo, hi = (I(0), s.toidx(s.ev(a[1]))) if len(a) == 2 else (s.toidx(s.ev(a[1])), s.toidx(s.ev(a[2])))
            x, y = Select(s.old.heap(k), p.o), Select(s.st.heap(k), p.o)
            if x is y: return V("bool", TRUE)
            return V("bool", App("perm_" + k, (x, y, Add(p.f, lo), Add(p.f, hi)), BOOL))
        if f == "feq":
            return V("bool", d.eq(s.tof(s.ev(a[0])), s.tof(s.ev(a[1]))))
        if f == "isnan": return V("bool", d.isnan(s.tof(s.ev(a[0]))))
        if f == "isfinite": return V("bool", d.fin(s.tof(s.ev(a[0]))))
        if f == "f": return V("double", s.tof(s.ev(a[0])))
        if f == "real": 
            return V("real", d.key(s.tof(s.ev(a[0]))))
        if f in ("min", "max"):
            x, y = s.ev(a[0]), s.ev(a[1])
            if x.k == "double" or y.k == "double":
                p, q_ = s.tof(x), s.tof(y)
                return V("double", Ite(d.lt(p, q_) if f == "min" else d.lt(q_, p), p, q_))
            p, q_ = s.unify(s.toint(x), s.toint(y))
            c = Le(p, q_) if f == "min" else Le(q_, p)
            return V("int", Ite(c, p, q_))
        if f in ("fabs", "sin", "cos", "sqrt", "exp", "log", "pow", "floor", "ceil", "fmod"):
            return V("double", d.call(f, tuple(s.tof(s.ev(x)) for x in a)))
        if f == "f32": return V("double", d.round_f32(s.tof(s.ev(a[0]))))
        if f == "rotl64":
            x = s.toint(s.ev(a[0])); k = a[1].value
            return V("int", Op("idx", (x,), BVS(64), f"(_ rotate_left {k})"))
        if f == "cur":     # current value of a parameter variable
            if s.cur is None: raise SpecError("cur")
            return s.cur(a[0].id, s.st)
        if f == "ghost":
            return V("int", s.st.ghost[a[0].id if isinstance(a[0], ast.Name) else a[0].value])
        if f == "objeq":
            p, q_ = s.ptr(s.ev(a[0])), s.ptr(s.ev(a[1])); return V("bool", Eq(p.o, q_.o))
        if f == "off":
            return V("int", s.ptr(s.ev(a[0])).f)
        raise SpecError("unknown function " + f)
    def alive_unchanged(s, except_objs):
        b = fresh_bvar("o", INT)
        ex = s.ex
        if s.st.alive is s.old.alive: return TRUE
        # compare at every object id written since
        return Forall([b], Or(*[Eq(b, o) for o in except_objs], Le(b, I(0)), Eq(Select(s.st.alive, b), Select(s.old.alive, b))))
    # ---- logic functions
    def arrval(s, v):
        """pointer -> snapshot of its object's array in the current state"""
        if v.k == "arr": return v
        if v.k == "ptr":
            ct = v.ct[1]
            return V("arr", (Select(s.st.heap(s.ex.kind(ct)), v.t.o), v.t.f), ct)
        raise SpecError("array argument")
    def logic(s, L, args):
        if isinstance(L, Macro):
            return s.with_local(dict(zip(L.params, args))).ev(parse_expr(L.body))
        ts = []
        for (n, k), v in zip(L.params, args):
            if k.endswith("[]"):
                if v.k == "ptr" and v.ct[1][0] in ("ptr", "int", "double") and (v.ct[1][0] == "double") != (k == "double[]"): raise SpecError("array of the wrong type")
                v = s.arrval(v); ts += [v.t[0], v.t[1]]
            elif k == "double": ts.append(s.tof(v))
            elif k == "u64" and s.ex.imode == "bv": ts.append(s.ex.bvresize(v.t, v.t.sort[1], 64, False) if v.t.sort != INT else BV(v.t.val, 64))
            else: ts.append(s.toidx(v))
        rs = {"int": INT, "double": s.ex.d.sort, "bool": BOOL}.get(L.ret)
        if L.ret in ("u32", "u53", "u64", "u8"): rs = INT if s.ex.imode == "int" else BVS(64)
        t = App(L.name, tuple(ts), rs)
        if L.ret in ("u32", "u53", "u64", "u8") and rs == INT and not free_bvars(t): set_range(t, 0, (1 << int(L.ret[1:])) - 1)
        s.logic_def(L)
        return V("double" if L.ret == "double" else ("bool" if L.ret == "bool" else "int"), t)
    def logic_def(s, L):
        ex = s.ex
        if L.name not in ex.logic.defs and L.body is not None and L.name not in ex.opts.get("opaque", ()):
            def unfold(targs, L=L, ex=ex):
                st = ex.dummy_state()
                e = SpecEval(ex, st, st, None, {}, None); i = 0
                for n, k in L.params:
                    if k.endswith("[]"):
                        ct = {"u32": ("int", 32, False), "u64": ("int", 64, False), "u8": ("int", 8, False), "double": ("double",)}[k[:-2]]
                        e.local[n] = V("arr", (targs[i], targs[i + 1]), ct); i += 2
                    else:
                        e.local[n] = V("double" if k == "double" else "int", targs[i]); i += 1
                v = e.ev(parse_expr(L.body))
                return e.tof(v) if L.ret == "double" else (e.tobool(v) if L.ret == "bool" else e.toint(v))
            ex.logic.add(L.name, unfold)
    # ---- assigns
    def assign_locs(s, x):
        """'p[lo:hi]', 'p.f', 'deref(p)', 'p[i]' -> [(heap kind, obj, lo slot, hi slot)]"""
        ex = s.ex
        n = parse_expr(x) if isinstance(x, str) else x
        if isinstance(n, ast.IfExp):
            raise SpecError("conditional assigns")
        def add(o, f, ct, cnt=None):
            lv = ex.u.leaves(ct); out = []
            if cnt is None:
                for i, l in enumerate(lv):
                    for k in ex.kinds(l): out.append((k, o, Add(f, I(i)), Add(f, I(i + 1))))
            else:
                ks = sorted({k for l in lv for k in ex.kinds(l)})
                for k in ks: out.append((k, o, f, Add(f, Mul(I(len(lv)), cnt))))
            return out
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            p = s.ev(n.value)
            lo = s.toidx(s.ev(n.slice.lower)) if n.slice.lower else I(0)
            hi = s.toidx(s.ev(n.slice.upper))
            e = p.ct[1]; sl = ex.u.slots(e)
            o, f = (p.t.o, p.t.f) if p.k == "ptr" else p.t
            return add(o, Add(f, Mul(I(sl), lo)), e, Sub(hi, lo))
        if isinstance(n, ast.Subscript):
            p = s.ev(n.value); i = s.toidx(s.ev(n.slice)); e = p.ct[1]; sl = ex.u.slots(e)
            o, f = (p.t.o, p.t.f) if p.k == "ptr" else p.t
            return add(o, Add(f, Mul(I(sl), i)), e)
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == "g":
                l = ex.global_loc(s.st, n.attr); return add(l.o, l.f, l.ct)
            p = s.ev(n.value)
            if p.k == "ptr": st, o, f = p.ct[1], p.t.o, p.t.f
            else: st, (o, f) = p.ct, p.t
            off, ft = ex.u.field_off(st, n.attr)
            return add(o, Add(f, I(off)), ft)
        if isinstance(n, ast.Call) and n.func.id == "deref":
            p = s.ev(n.args[0]); return add(p.t.o, p.t.f, p.ct[1])
        raise SpecError("assigns " + str(x))

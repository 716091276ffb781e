"""Floating point domains.
 U    : values of an uninterpreted sort F with uninterpreted +,*,/ ; only laws that hold for every IEEE-754 double
        are used (commutativity of + and *, a-b = a+(-b), x*-1 = -x, x+x = 2*x, x/2^k = x*2^-k, (-a)*b = -(a*b)); order
        through an embedding key: F -> Real that every total preorder of non-NaN doubles has. Results are bit-exact
        statements (modulo NaN payload/sign).
 R    : exact real arithmetic (an assumption that is reported when used)
 FP   : SMT-LIB FloatingPoint(11,53), round-to-nearest-even: bit-precise"""
import math, struct
from fractions import Fraction
from term import *
import term as tm

def fbits(x): return struct.unpack(">Q", struct.pack(">d", x))[0]

class U:
    name = "U"; sort = FS
    def const(s, x):
        x = float(x)
        return tm._mk("fconst", (), FS, "nan" if x != x else x.hex())
    def val(s, t):
        if t.op == "fconst": return float.fromhex(t.val) if t.val != "nan" else float("nan")
        return None
    def sym(s, n): return fresh(n, FS)
    def _f(s, f, a, b):
        x, y = s.val(a), s.val(b)
        if x is not None and y is not None:
            try: return s.const(f(x, y))
            except (OverflowError, ZeroDivisionError): return None
        return None
    def neg(s, a):
        v = s.val(a)
        if v is not None: return s.const(-v)
        if a.op == "app" and a.val == "fneg": return a.args[0]
        return App("fneg", (a,), FS)
    def add(s, a, b):
        r = s._f(lambda x, y: x + y, a, b)
        if r is not None: return r
        if a is b: return s.mul(s.const(2.0), a)
        if s.val(a) == 0.0 and math.copysign(1, s.val(a)) < 0: return b   # -0 + x = x
        if s.val(b) == 0.0 and math.copysign(1, s.val(b)) < 0: return a
        a, b = tm._asorted(a, b)
        return App("fadd", (a, b), FS)
    def sub(s, a, b): return s.add(a, s.neg(b))
    def mul(s, a, b):
        r = s._f(lambda x, y: x * y, a, b)
        if r is not None: return r
        for x, y in ((a, b), (b, a)):
            v = s.val(x)
            if v is not None:
                if v == 1.0: return y
                if v == -1.0: return s.neg(y)
                if v < 0: return s.neg(s.mul(s.const(-v), y))
        if a.op == "app" and a.val == "fneg": return s.neg(s.mul(a.args[0], b))
        if b.op == "app" and b.val == "fneg": return s.neg(s.mul(a, b.args[0]))
        a, b = tm._asorted(a, b)
        return App("fmul", (a, b), FS)
    def div(s, a, b):
        v = s.val(b)
        if v is not None and v != 0 and abs(v) != float("inf") and v == v:
            m, e = math.frexp(v)
            if abs(m) == 0.5 and -1000 < e < 1000: return s.mul(a, s.const(1.0 / v))
        r = s._f(lambda x, y: x / y, a, b)
        if r is not None: return r
        if a.op == "app" and a.val == "fneg": return s.neg(s.div(a.args[0], b))
        if b.op == "app" and b.val == "fneg": return s.neg(s.div(a, b.args[0]))
        return App("fdiv", (a, b), FS)
    def key(s, a):
        v = s.val(a)
        if v is not None:
            if v == float("inf"): return R(2 ** 1024)
            if v == float("-inf"): return R(-2 ** 1024)
            if v == v: return R(Fraction(v))
        if a.op == "app" and a.val == "i2f":
            l, h = rng(a.args[0])
            if l is not None and h is not None and -2 ** 53 <= l and h <= 2 ** 53: return ToReal(a.args[0])
        if a.op == "app" and a.val == "fneg": return RNeg(s.key(a.args[0]))
        if a.op == "ite": return Ite(a.args[0], s.key(a.args[1]), s.key(a.args[2]))
        return App("fkey", (a,), REAL)
    def isnan(s, a):
        v = s.val(a)
        if v is not None: return B(v != v)
        if a.op == "app" and a.val in ("i2f",): return FALSE
        if a.op == "app" and a.val in ("fneg", "fabs"): return s.isnan(a.args[0])
        if a.op == "ite": return Ite(a.args[0], s.isnan(a.args[1]), s.isnan(a.args[2]))
        return App("fnan", (a,), BOOL)
    def fin(s, a):
        k = s.key(a)
        return And(Not(s.isnan(a)), RLt(R(-2 ** 1024), k), RLt(k, R(2 ** 1024)))
    def lt(s, a, b): return And(Not(s.isnan(a)), Not(s.isnan(b)), RLt(s.key(a), s.key(b)))
    def le(s, a, b): return And(Not(s.isnan(a)), Not(s.isnan(b)), RLe(s.key(a), s.key(b)))
    def eq(s, a, b):
        if a is b: return Not(s.isnan(a))
        return And(Not(s.isnan(a)), Not(s.isnan(b)), Eq(s.key(a), s.key(b)))
    def same(s, a, b): return Eq(a, b)
    def from_int(s, n, ct=None):
        if n.op == "int":
            try: return s.const(float(n.val))
            except OverflowError: pass
        if n.op == "ite" and n.args[1].op == "int" and n.args[2].op == "int":
            return Ite(n.args[0], s.from_int(n.args[1]), s.from_int(n.args[2]))
        if n.sort != INT: return App("bv2f", (n,), FS)
        return App("i2f", (n,), FS)
    def to_int(s, a, bits, signed):
        v = s.val(a)
        if v is not None and v == v and abs(v) < 2 ** 63: return I(int(v))
        t = App(f"f2{'i' if signed else 'u'}{bits}", (a,), INT)
        lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        return set_range(t, lo, hi)
    def call(s, f, args):
        if f == "fabs":
            v = s.val(args[0])
            if v is not None: return s.const(abs(v))
            if args[0].op == "app" and args[0].val == "fneg": return s.call("fabs", args[0].args)
        return App(f, args, FS)
    def round_f32(s, a): return App("f32", (a,), FS)
    def iv(s, t, memo=None):
        """[lo, hi] of a number-valued term from the ranges of its integers: rounding to nearest is monotonic, so bounds may be computed with the operation itself"""
        v = s.val(t)
        if v is not None: return (v, v) if v == v and abs(v) != float("inf") else None
        if t.op != "app": return None
        r = None
        if t.val == "i2f":
            l, h = rng(t.args[0])
            if l is not None and h is not None and abs(l) < 2 ** 1000 and abs(h) < 2 ** 1000: r = (float(l), float(h))
        elif t.val == "bv2f":
            x = t.args[0]; h = 2 ** x.sort[1] - 1
            if x.op == "bvlshr" and x.args[1].op == "bv": h >>= x.args[1].val
            r = (0.0, float(h))
        elif t.val == "fneg":
            a = s.iv(t.args[0])
            if a: r = (-a[1], -a[0])
        elif t.val in ("fmul", "fadd"):
            a, b = s.iv(t.args[0]), s.iv(t.args[1])
            if a and b:
                c = [x * y for x in a for y in b] if t.val == "fmul" else [a[0] + b[0], a[1] + b[1]]
                r = (min(c), max(c))
                if abs(r[0]) == float("inf") or abs(r[1]) == float("inf"): r = None
        return r
    def facts(s, terms):
        """ground facts true of IEEE doubles for the terms of a query"""
        out = []
        done = set()
        work = [t for t in terms if t.sort == FS and not free_bvars(t)] + \
               [t.args[0] for t in terms if t.op == "app" and t.val in ("fkey",) and not free_bvars(t)]
        while work:
            t = work.pop()
            if t.id in done: continue
            done.add(t.id)
            if t.op == "fconst": continue
            if t.op == "app" and t.val == "fabs":
                a = t.args[0]; ka, kt = s.key(a), App("fkey", (t,), REAL)
                out.append(Eq(kt, Ite(RLe(R(0), ka), ka, RNeg(ka))))
                out.append(Implies(And(Not(s.isnan(a)), RLt(R(0), ka)), Eq(t, a)))
                out.append(Implies(And(Not(s.isnan(a)), RLt(ka, R(0))), Eq(t, s.neg(a))))
                work.append(a)
            if t.op == "app" and t.val in ("i2f", "fneg"):
                k = s.key(t)
                if not (k.op == "app" and k.val == "fkey" and k.args[0] is t): out.append(Eq(App("fkey", (t,), REAL), k))
                out.append(Eq(App("fnan", (t,), BOOL), s.isnan(t)))
                if t.val == "fneg": work.append(t.args[0])
            if t.op == "app" and t.val in ("fmul", "fadd"):
                if t.args[0] is not t.args[1]: out.append(Eq(t, App(t.val, t.args[::-1], FS)))
                r = s.iv(t)
                if r:
                    k = App("fkey", (t,), REAL)
                    out += [RLe(R(Fraction(r[0])), k), RLe(k, R(Fraction(r[1]))), Not(s.isnan(t))]
                if t.val == "fmul":
                    for a, b in (t.args, t.args[::-1]):
                        x, y = s.iv(a), s.iv(b)
                        if y and not x and 0 <= y[0] and y[1] <= 1:   # rounding is monotonic and a, 0 are doubles
                            k, ka = App("fkey", (t,), REAL), s.key(a)
                            out.append(Implies(s.fin(a), And(Not(s.isnan(t)), Ite(RLe(R(0), ka), And(RLe(R(0), k), RLe(k, ka)), And(RLe(ka, k), RLe(k, R(0)))))))
            if t.op == "app" and t.val in ("fmul", "fadd", "fdiv"):
                a, b = t.args
                out.append(Implies(Or(s.isnan(a), s.isnan(b)), s.isnan(t)))
        return out

AXIOMS = {
 # 32 bit multiplication as a commutative ring operation
 "mulu32": "(and (forall ((x Int) (y Int)) (! (= (|mulu32| x y) (|mulu32| y x)) :pattern ((|mulu32| x y)))) (forall ((x Int) (y Int) (z Int)) (! (= (|mulu32| (|mulu32| x y) z) (|mulu32| x (|mulu32| y z))) :pattern ((|mulu32| (|mulu32| x y) z)))) (forall ((x Int) (y Int) (z Int)) (! (= (|mulu32| (|mulu32| x y) z) (|mulu32| x (|mulu32| y z))) :pattern ((|mulu32| x (|mulu32| y z))))) (forall ((x Int)) (! (=> (and (<= 0 x) (<= x 4294967295)) (= (|mulu32| 1 x) x)) :pattern ((|mulu32| 1 x)))))",
 "fmul": "(forall ((x F) (y F)) (! (= (|fmul| x y) (|fmul| y x)) :pattern ((|fmul| x y))))",
 "fadd": "(forall ((x F) (y F)) (! (= (|fadd| x y) (|fadd| y x)) :pattern ((|fadd| x y))))",
 "fabs": "(forall ((x F)) (! (and (= (|fkey| (|fabs| x)) (ite (<= 0.0 (|fkey| x)) (|fkey| x) (- (|fkey| x)))) (= (|fnan| (|fabs| x)) (|fnan| x))) :pattern ((|fabs| x))))",
 "fneg": "(forall ((x F)) (! (and (= (|fkey| (|fneg| x)) (- (|fkey| x))) (= (|fnan| (|fneg| x)) (|fnan| x))) :pattern ((|fneg| x))))",
 "i2f": "(forall ((x Int)) (! (=> (and (<= (- 9007199254740992) x) (<= x 9007199254740992)) (and (= (|fkey| (|i2f| x)) (to_real x)) (not (|fnan| (|i2f| x))))) :pattern ((|i2f| x))))",
}

class Rd:
    name = "R"; sort = REAL
    def const(s, x): return R(Fraction(x))
    def val(s, t): return float(t.val) if t.op == "real" else None
    def sym(s, n): return fresh(n, REAL)
    def neg(s, a): return RNeg(a)
    def add(s, a, b): return RAdd(a, b)
    def sub(s, a, b): return RAdd(a, RNeg(b))
    def mul(s, a, b): return RMul(a, b)
    def div(s, a, b): return RDiv(a, b)
    def key(s, a): return a
    def isnan(s, a): return FALSE
    def fin(s, a): return TRUE
    def lt(s, a, b): return RLt(a, b)
    def le(s, a, b): return RLe(a, b)
    def eq(s, a, b): return Eq(a, b)
    def same(s, a, b): return Eq(a, b)
    def from_int(s, n, ct=None):
        if n.op == "ite" and n.args[1].op == "int" and n.args[2].op == "int":
            return Ite(n.args[0], s.from_int(n.args[1]), s.from_int(n.args[2]))
        return ToReal(n)
    def to_int(s, a, bits, signed):
        # truncation toward zero of a value inside the range of the target type
        t = Ite(RLe(R(0), a), Op("to_int", (a,), INT), Neg(Op("to_int", (RNeg(a),), INT)))
        if not signed: t = Op("to_int", (a,), INT)
        return t
    def call(s, f, args):
        if f == "fabs": return Ite(RLe(R(0), args[0]), args[0], RNeg(args[0]))
        if f == "floor": return s.from_int(Op("to_int", args, INT))
        if f == "ceil": return RNeg(s.from_int(Op("to_int", (RNeg(args[0]),), INT)))
        return App(f, args, REAL)
    def round_f32(s, a): return a
    def facts(s, terms): return []

class FPd:
    name = "FP"; sort = FP
    def const(s, x): return Op("fpconst", (), FP, fbits(float(x)))
    def val(s, t):
        if t.op == "fpconst": return struct.unpack(">d", struct.pack(">Q", t.val))[0]
        return None
    def sym(s, n): return fresh(n, FP)
    def _rm(s, f, *a):
        vs = [s.val(x) for x in a]
        if None not in vs:
            try:
                r = {"fp.add": lambda x, y: x + y, "fp.sub": lambda x, y: x - y, "fp.mul": lambda x, y: x * y, "fp.div": lambda x, y: x / y}[f](*vs)
                return s.const(r)
            except (ZeroDivisionError, OverflowError): pass
        return Op("app_rm", a, FP, f)
    def neg(s, a):
        v = s.val(a)
        return s.const(-v) if v is not None else Op("fp.neg", (a,), FP)
    def add(s, a, b): return s._rm("fp.add", a, b)
    def sub(s, a, b): return s._rm("fp.sub", a, b)
    def mul(s, a, b): return s._rm("fp.mul", a, b)
    def div(s, a, b): return s._rm("fp.div", a, b)
    def key(s, a): raise NotImplementedError
    def isnan(s, a): return Op("fp.isNaN", (a,), BOOL)
    def fin(s, a): return And(Not(Op("fp.isNaN", (a,), BOOL)), Not(Op("fp.isInfinite", (a,), BOOL)))
    def lt(s, a, b): return Op("fp.lt", (a, b), BOOL)
    def le(s, a, b): return Op("fp.leq", (a, b), BOOL)
    def eq(s, a, b): return Op("fp.eq", (a, b), BOOL)
    def same(s, a, b): return Eq(a, b)
    def from_int(s, n, ct=None):
        if n.op == "int": return s.const(float(n.val))
        if n.op == "bv": return s.const(float(n.val if not (ct and ct[2] and n.val >> (ct[1] - 1)) else n.val - (1 << ct[1])))
        if n.op == "ite" and n.args[1].op in ("int", "bv") and n.args[2].op in ("int", "bv"):
            return Ite(n.args[0], s.from_int(n.args[1], ct), s.from_int(n.args[2], ct))
        if n.sort == INT: raise NotImplementedError("Int to FP")
        return Op("to_fp_s" if ct and ct[2] else "to_fp_u", (n,), FP)
    def to_int(s, a, bits, signed):
        v = s.val(a)
        if v is not None: return I(int(v))
        return Op("fp2bv_s" if signed else "fp2bv_u", (a,), BVS(bits))
    def call(s, f, args):
        if f == "fabs": return Op("fp.abs", args, FP)
        if f == "sqrt": return Op("app_rm", args, FP, "fp.sqrt")
        return App(f, args, FP)
    def round_f32(s, a): return Op("fp_f32", (a,), FP)
    def facts(s, terms): return []
DOMS = {"U": U(), "R": Rd(), "FP": FPd()}

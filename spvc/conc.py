"""Concrete evaluation of the same contract texts against the compiled code: turns a failed obligation into an input
that fails (or finds none). Never used to accept anything."""
import ast, ctypes as C, json, math, os, random, signal, struct, subprocess, sys, time, bisect
from spec import parse_expr, LOGIC, Macro, Rec, SpecError
from sym import ptype
from cast import include_flags, REPO, SRC, LEMMAS, VOID, Unsupported

class Skip(Exception): pass       # input outside of the precondition, or not evaluable
class Bad(Exception): pass        # contract violated
U64M = (1 << 64) - 1

PRE = r"""
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <stdint.h>
#include <sys/mman.h>
#include <unistd.h>
typedef struct { char* p; size_t n; char* base; size_t map; int live; } vm_blk;
vm_blk vm_tab[65536]; int vm_n = 0; long vm_count = 0; long vm_fail = 0; int vm_err = 0; int vm_guard = 1;
static void* vm_new(size_t n) {
  size_t m, r; char* b;
  if (vm_n >= 65535) { vm_n = 0; }
  if (n > ((size_t)1 << 28)) return 0;
  m = (n + 4095) / 4096 * 4096; if (!m) m = 4096;
  b = mmap(0, m + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (b == MAP_FAILED) return 0;
  mprotect(b + m, 4096, PROT_NONE);
  r = m - (n + 7) / 8 * 8; memset(b, 0xA5, m);
  if (n % 8 == 0 || n % 4 == 0) r = m - n;
  vm_tab[vm_n].p = b + r; vm_tab[vm_n].n = n; vm_tab[vm_n].base = b; vm_tab[vm_n].map = m + 4096; vm_tab[vm_n].live = 1; vm_n++;
  return b + r;
}
static void* vm_malloc(size_t n) { vm_count++; if (vm_fail && vm_count >= vm_fail) return 0; return vm_new(n); }
static void* vm_calloc(size_t a, size_t n) { void* p = vm_malloc(a * n); if (p) memset(p, 0, a * n); return p; }
static void vm_free(void* p) { int i; if (!p) return;
  for (i = vm_n - 1; i >= 0; i--) if (vm_tab[i].p == (char*)p) { if (!vm_tab[i].live) { vm_err = 2; return; } vm_tab[i].live = 0; mprotect(vm_tab[i].base, vm_tab[i].map, PROT_NONE); return; }
  vm_err = 1; }
static void* vm_realloc(void* p, size_t n) { int i; void* q = vm_malloc(n); if (!q) return 0; if (!p) return q;
  for (i = vm_n - 1; i >= 0; i--) if (vm_tab[i].p == (char*)p && vm_tab[i].live) { memcpy(q, p, vm_tab[i].n < n ? vm_tab[i].n : n); vm_free(p); return q; }
  vm_err = 1; return q; }
void* vm_alloc(size_t n) { return vm_new(n); }
void vm_reset() { int i; for (i = 0; i < vm_n; i++) munmap(vm_tab[i].base, vm_tab[i].map); vm_n = 0; vm_count = 0; vm_err = 0; vm_fail = 0; }
#define malloc vm_malloc
#define calloc vm_calloc
#define realloc vm_realloc
#define free vm_free
"""
class Lib:
    def __init__(s, unit, scratch, opt="-O1"):
        s.u = unit
        names = sorted(unit.funcs)
        names = [n for n in names if n != "main"]
        src = PRE + f'#include "{REPO}/{SRC}"\n#include "{LEMMAS}"\n' + "struct { const char* n; void* f; } vm_fns[] = {" + ",".join('{"%s",(void*)%s}' % (n, n) for n in names) + "};\nint vm_nfns = " + str(len(names)) + ";\n"
        f = os.path.join(scratch, "conc.c"); so = os.path.join(scratch, "conc.so")
        open(f, "w").write(src)
        r = subprocess.run(["gcc"] + include_flags(scratch) + ["-w", opt, "-g", "-fPIC", "-shared", "-o", so, f, "-lm", "-lpthread"], capture_output=True)
        if r.returncode: raise RuntimeError(r.stderr.decode()[-3000:])
        s.lib = C.CDLL(so)
        class E(C.Structure): _fields_ = [("n", C.c_char_p), ("f", C.c_void_p)]
        s.fn = {}
        for e in (E * len(names)).in_dll(s.lib, "vm_fns"): s.fn[e.n.decode()] = e.f
        s.byaddr = {v: k for k, v in s.fn.items()}
        class Bk(C.Structure): _fields_ = [("p", C.c_void_p), ("n", C.c_size_t), ("base", C.c_void_p), ("map", C.c_size_t), ("live", C.c_int)]
        s.tab = (Bk * 65536).in_dll(s.lib, "vm_tab")
        s.vn = C.c_int.in_dll(s.lib, "vm_n"); s.cnt = C.c_long.in_dll(s.lib, "vm_count"); s.fail = C.c_long.in_dll(s.lib, "vm_fail"); s.err = C.c_int.in_dll(s.lib, "vm_err")
        s.lib.vm_alloc.restype = C.c_void_p; s.lib.vm_alloc.argtypes = [C.c_size_t]
        s.ctc = {}
        s.libm = C.CDLL("libm.so.6")
    def ctype(s, ct):
        r = s.ctc.get(ct)
        if r: return r
        k = ct[0]
        if k == "int":
            if ct[1] == 1: r = C.c_bool
            else: r = {(8, False): C.c_uint8, (8, True): C.c_int8, (16, False): C.c_uint16, (16, True): C.c_int16, (32, False): C.c_uint32, (32, True): C.c_int32, (64, False): C.c_uint64, (64, True): C.c_int64}[ct[1:]]
        elif k == "double": r = C.c_double
        elif k == "float": r = C.c_float
        elif k in ("ptr", "func"): r = C.c_void_p
        elif k == "void": return None
        elif k == "struct":
            r = type("S", (C.Structure,), {"_fields_": [(n, s.ctype(f)) for n, f in s.u.fields(ct)]})
        elif k == "array": r = s.ctype(ct[1]) * ct[2]
        else: raise Skip(f"type {ct}")
        s.ctc[ct] = r
        return r
    def math(s, f, *a):
        g = getattr(s.libm, f); g.restype = C.c_double; g.argtypes = [C.c_double] * len(a)
        return g(*a)

FMT = {8: "Bb", 16: "Hh", 32: "Ii", 64: "Qq", 1: "BB"}
class Loc:
    __slots__ = ("a", "ct")
    def __init__(s, a, ct): s.a, s.ct = a, ct
class P:
    """pointer value"""
    __slots__ = ("a", "ct")
    def __init__(s, a, ct): s.a, s.ct = a, ct      # ct: pointed-to type
class SV:
    __slots__ = ("b", "ct")
    def __init__(s, b, ct): s.b, s.ct = b, ct
class FB:
    """marks an in-range check failure"""

def same(x, y): return (x != x and y != y) or struct.pack("d", x) == struct.pack("d", y)

class Mem:
    def __init__(s, lib): s.lib = lib; s.snap = None; s.gsnap = []
    def blocks(s):
        t = s.lib.tab
        return [(t[i].p, t[i].n, t[i].live) for i in range(s.lib.vn.value)]
    def find(s, a, n=1):
        for p, z, l in s.blocks():
            if p <= a and a + n <= p + z and l: return (p, z)
        return None
    def read(s, a, n, old=False):
        if old and s.snap is not None:
            i = bisect.bisect_right(s.snapk, a) - 1
            if i >= 0:
                p, b = s.snap[i]
                if a + n <= p + len(b): return b[a - p:a - p + n]
            for p, b in s.gsnap:
                if p <= a and a + n <= p + len(b): return b[a - p:a - p + n]
            if s.lib_global(a): return C.string_at(a, n)
            raise Skip("old read outside of a block")
        if not s.find(a, n) and not s.lib_global(a): raise Bad(f"the contract reads {n} bytes at an address that is no live object")
        return C.string_at(a, n)
    def lib_global(s, a):
        # static storage of the library: accept
        for p, z, l in s.blocks():
            if p - 8192 <= a <= p + z + 8192: return False
        return a > 4096
    def snapshot(s):
        s.snap = sorted((p, C.string_at(p, n)) for p, n, l in s.blocks() if l)
        s.snapk = [p for p, _ in s.snap]
        s.sn = s.lib.vn.value

class Ev:
    def __init__(s, h, bind, result=None, old=False, tol=None):
        s.h, s.m, s.lib, s.u, s.bind, s.result, s.isold, s.tol = h, h.mem, h.lib, h.u, bind, result, old, tol
        s.local = {}
    def sub(s, **k):
        n = Ev(s.h, s.bind, s.result, s.isold, s.tol); n.local = s.local
        for a, b in k.items(): setattr(n, a, b)
        return n
    def load(s, ct, a):
        k = ct[0]
        if k == "int":
            b = s.m.read(a, max(1, ct[1] // 8), s.isold)
            return struct.unpack("<" + FMT[ct[1]][1 if ct[2] else 0], b)[0]
        if k == "double": return struct.unpack("<d", s.m.read(a, 8, s.isold))[0]
        if k == "float": return struct.unpack("<f", s.m.read(a, 4, s.isold))[0]
        if k in ("ptr", "func"): return P(struct.unpack("<Q", s.m.read(a, 8, s.isold))[0], ct[1] if k == "ptr" else ct)
        return Loc(a, ct)
    def text(s, x): return s.truth(s.ev(parse_expr(x)))
    def truth(s, v):
        if isinstance(v, bool): return v
        if isinstance(v, (int, float)): return v != 0
        if isinstance(v, P): return v.a != 0
        raise Skip("truth of " + str(type(v)))
    def ev(s, n):
        if isinstance(n, ast.Constant): return n.value
        if isinstance(n, ast.Name): return s.name(n.id)
        if isinstance(n, ast.BoolOp):
            if isinstance(n.op, ast.And):
                for x in n.values:
                    if not s.truth(s.ev(x)): return False
                return True
            for x in n.values:
                if s.truth(s.ev(x)): return True
            return False
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not): return not s.truth(s.ev(n.operand))
            v = s.ev(n.operand)
            if isinstance(n.op, ast.USub): return -v
            return ~v & U64M
        if isinstance(n, ast.BinOp): return s.bin(type(n.op).__name__, s.ev(n.left), s.ev(n.right))
        if isinstance(n, ast.Compare):
            l = s.ev(n.left)
            for op, r in zip(n.ops, n.comparators):
                r = s.ev(r)
                if not s.cmp(type(op).__name__, l, r): return False
                l = r
            return True
        if isinstance(n, ast.IfExp): 
            c = s.truth(s.ev(n.test)); return s.ev(n.body if c else n.orelse)
        if isinstance(n, ast.Subscript): return s.index(s.ev(n.value), s.ev(n.slice))
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == "g": return s.load(*s.h.glob(n.attr))
            return s.member(s.ev(n.value), n.attr)
        if isinstance(n, ast.Call): return s.call(n)
        raise Skip("expression")
    def name(s, x):
        if x in s.local: return s.local[x]
        if x == "result": return s.result
        if x == "NULL": return P(0, VOID)
        if x in s.bind: return s.bind[x]
        if x in s.u.enums: return s.u.enums[x]
        if x in ("inf", "nan"): return float(x)
        raise Skip("name " + x)
    def index(s, p, i):
        if isinstance(p, P): return s.load(p.ct, p.a + s.u.sizeof(p.ct) * i)
        if isinstance(p, Loc): return s.load(p.ct[1], p.a + s.u.sizeof(p.ct[1]) * i)
        if isinstance(p, tuple): return s.load(p[1], p[0] + s.u.sizeof(p[1]) * i) if not callable(p[0]) else p[0](i)
        if isinstance(p, SV):
            e = p.ct[1]; z = s.u.sizeof(e); return s.unpack(e, p.b[i * z:(i + 1) * z])
        raise Skip("index")
    def unpack(s, ct, b):
        if ct[0] == "int": return struct.unpack("<" + FMT[ct[1]][1 if ct[2] else 0], b)[0]
        if ct[0] == "double": return struct.unpack("<d", b)[0]
        if ct[0] == "ptr": return P(struct.unpack("<Q", b)[0], ct[1])
        return SV(b, ct)
    def member(s, p, name):
        if isinstance(p, SV):
            ft = dict(s.u.fields(p.ct))[name]; o = s.u.field_byte_off(p.ct, name); return s.unpack(ft, p.b[o:o + s.u.sizeof(ft)])
        ct = p.ct; ft = dict(s.u.fields(ct))[name]
        return s.load(ft, p.a + s.u.field_byte_off(ct, name))
    def bin(s, op, a, b):
        if isinstance(a, P):
            return P(a.a + (1 if op == "Add" else -1) * s.u.sizeof(a.ct) * b, a.ct)
        a, b = (int(x) if isinstance(x, bool) else x for x in (a, b))
        if isinstance(a, float) or isinstance(b, float) or op == "Div":
            a, b = float(a), float(b)
            try:
                if op == "Add": return a + b
                if op == "Sub": return a - b
                if op == "Mult": return a * b
                if b == 0: return math.nan if a != a or a == 0 else math.copysign(math.inf, a) * math.copysign(1, b)
                return a / b
            except OverflowError: raise Skip("overflow")
        if op in ("FloorDiv", "Mod") and b == 0: raise Skip("division by zero in the contract")
        if s.h.fn.imode == "bv" and op in ("Add", "Sub", "Mult", "LShift"): return {"Add": a + b, "Sub": a - b, "Mult": a * b, "LShift": a << min(b, 64) if op == "LShift" else 0}[op] & U64M
        return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b, "BitAnd": lambda: a & b, "BitOr": lambda: a | b,
                "BitXor": lambda: a ^ b, "LShift": lambda: a << min(b, 4096), "RShift": lambda: a >> b}[op]()
    def cmp(s, op, a, b):
        if isinstance(a, P) or isinstance(b, P):
            x, y = (v.a if isinstance(v, P) else v for v in (a, b))
            return {"Eq": x == y, "NotEq": x != y}[op]
        if isinstance(a, (Loc, SV)):
            e = s.bytes(a) == s.bytes(b); return e if op == "Eq" else not e
        if (isinstance(a, float) or isinstance(b, float)) and op in ("Eq", "NotEq"):
            a, b = float(a), float(b); e = same(a, b)
            if not e and s.tol is not None: e = abs(a - b) <= s.tol * max(1.0, abs(a), abs(b))
            return e if op == "Eq" else not e
        return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b}[op]()
    def bytes(s, v): return v.b if isinstance(v, SV) else s.m.read(v.a, s.u.sizeof(v.ct), s.isold)
    def ptr(s, v):
        if isinstance(v, P): return v
        if isinstance(v, Loc): return P(v.a, v.ct)
        raise Skip("pointer expected")
    def call(s, n):
        f = n.func.id; a = n.args; lib = s.lib
        if f in ("forall", "exists"):
            if len(a) != 4:
                if s.h.fnspec_dom and a[0].id in s.h.fnspec_dom: lo, hi = s.h.fnspec_dom[a[0].id]
                else: raise Skip("unbounded quantifier")
                body = a[1]
            else: lo, hi, body = s.ev(a[1]), s.ev(a[2]), a[3]
            if hi - lo > 140000: raise Skip("quantifier range")
            for k in range(lo, hi):
                t = s.sub(local={**s.local, a[0].id: k}); v = t.truth(t.ev(body))
                if f == "forall" and not v: return False
                if f == "exists" and v: return True
            return f == "forall"
        if f == "old": return s.sub(isold=True).ev(a[0]) if s.m.snap is not None else s.ev(a[0])
        if f == "implies": return True if not s.truth(s.ev(a[0])) else s.truth(s.ev(a[1]))
        if f == "iff": return s.truth(s.ev(a[0])) == s.truth(s.ev(a[1]))
        if f == "let": v = s.ev(a[1]); return s.sub(local={**s.local, a[0].id: v}).ev(a[2])
        if f in LOGIC: return s.logic(LOGIC[f], [s.ev(x) for x in a])
        if f in ("u8", "u16", "u32", "u64", "i32", "i64"):
            w = int(f[1:]); v = s.ev(a[0])
            if isinstance(v, float):
                if not math.isfinite(v): raise Skip("conversion of a non-finite value")
                v = int(v)
                if not (0 <= v < 1 << w if f[0] == "u" else -(1 << w - 1) <= v < 1 << w - 1): raise Skip("conversion out of range")
                return v
            return v & ((1 << w) - 1) if f[0] == "u" else v
        if f == "cast": return P(s.ptr(s.ev(a[1])).a, s.u.parse(a[0].value)[1])
        if f == "sizeof": return s.u.sizeof(s.u.parse(a[0].value))
        if f == "deref": return s.index(s.ev(a[0]), 0)
        if f == "addr" and isinstance(a[0], ast.Attribute) and isinstance(a[0].value, ast.Name) and a[0].value.id == "g": ct, ad = s.h.glob(a[0].attr); return P(ad, ct)
        if f == "addr" and isinstance(a[0], ast.Attribute):
            p = s.ptr(s.ev(a[0].value)); return P(p.a + s.u.field_byte_off(p.ct, a[0].attr), dict(s.u.fields(p.ct))[a[0].attr])
        if f == "addr": v = s.ev(a[0]); return P(v.a, v.ct)
        if f == "fnptr": return P(lib.fn[a[0].id], ("func",))
        if f == "valid":
            p = s.ptr(s.ev(a[0])); c = s.ev(a[1]) if len(a) > 1 else 1
            z = s.u.sizeof(p.ct) if p.ct[0] != "void" else 1
            return bool(s.m.find(p.a, z * c)) if c > 0 else bool(s.m.find(p.a, 0))
        if f == "block":
            p = s.ptr(s.ev(a[0])); return any(x == p.a and l for x, z, l in s.m.blocks())
        if f == "alive": return bool(s.m.find(s.ptr(s.ev(a[0])).a, 0))
        if f == "string":
            p = s.ptr(s.ev(a[0])); return C.string_at(p.a) == a[1].value.encode()
        if f == "idx":
            p = s.ptr(s.ev(a[0])); nd = s.bind["nd"]; n_ = s.bind["n"]
            for k in range(n_):
                if s.sub(isold=True).index(nd, k).a == p.a if s.m.snap is not None else s.index(nd, k).a == p.a: return k
            raise Skip("idx")
        if f == "prod": return s.ev(a[0]) * s.ev(a[1])
        if f == "sep":
            bs = [s.m.find(s.ptr(s.ev(x)).a, 0) for x in a]
            return all(x is None or x != y for i, x in enumerate(bs) for y in bs[i + 1:])
        if f == "sepn":
            p, q = s.ptr(s.ev(a[0])), s.ptr(s.ev(a[2])); n_, m = s.ev(a[1]) * s.u.sizeof(p.ct), s.ev(a[3]) * s.u.sizeof(q.ct)
            return p.a + n_ <= q.a or q.a + m <= p.a
        if f == "fresh":
            p = s.ptr(s.ev(a[0])); t = s.m.blocks()
            c = s.ev(a[1]) * (s.u.sizeof(p.ct) if p.ct[0] != "void" else 1) if len(a) > 1 else 0
            return any(x == p.a and l and z >= c for x, z, l in t[s.m.sn:])
        if f == "perm":
            p = s.ptr(s.ev(a[0])); lo, hi = (0, s.ev(a[1])) if len(a) == 2 else (s.ev(a[1]), s.ev(a[2])); o = s.sub(isold=True)
            k = lambda e: sorted(struct.pack("<d", x) if isinstance(x, float) else x for x in (e.index(p, i) for i in range(lo, hi)))
            return k(s) == k(o)
        if f == "feq":
            x, y = s.ev(a[0]), s.ev(a[1])
            return x == y or (s.tol is not None and abs(x - y) <= s.tol * max(1.0, abs(x), abs(y)))
        if f == "isnan": v = s.ev(a[0]); return v != v
        if f == "isfinite": return math.isfinite(s.ev(a[0]))
        if f in ("f", "real"): return float(s.ev(a[0]))
        if f == "min": x, y = s.ev(a[0]), s.ev(a[1]); return x if (x < y if isinstance(x, float) or isinstance(y, float) else x <= y) else y
        if f == "max": x, y = s.ev(a[0]), s.ev(a[1]); return x if (y < x if isinstance(x, float) or isinstance(y, float) else y <= x) else y
        if f in ("fabs", "sin", "cos", "sqrt", "exp", "log", "pow", "floor", "ceil", "fmod"): return s.lib.math(f, *[float(s.ev(x)) for x in a])
        if f == "f32":
            try: return struct.unpack("f", struct.pack("f", s.ev(a[0])))[0]
            except OverflowError: raise Skip("f32")
        if f == "rotl64": x = s.ev(a[0]); k = a[1].value; return ((x << k) | (x >> (64 - k))) & U64M
        if f == "objeq":
            p, q = (s.m.find(s.ptr(s.ev(x)).a, 0) for x in a); return p is not None and p == q
        raise Skip("function " + f)
    def logic(s, L, args):
        if isinstance(L, Macro): return s.sub(local={**s.local, **dict(zip(L.params, args))}).ev(parse_expr(L.body))
        if L.py is not None:
            def arr(v, n=parse_expr("_v[_i]")):
                e = s.sub(local={"_v": v, "_i": 0})
                def get(i): e.local["_i"] = i; return e.ev(n)
                return get
            return L.py(*[arr(v) if k.endswith("[]") else v for (n, k), v in zip(L.params, args)])
        if L.body is None: raise Skip("uninterpreted " + L.name)
        loc = {}
        for (n, k), v in zip(L.params, args):
            loc[n] = float(v) if k == "double" else v
        return s.sub(local=loc).ev(parse_expr(L.body))
    # assignable byte ranges
    def locs(s, x):
        n = parse_expr(x) if isinstance(x, str) else x
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            p = s.ptr_of(n.value); lo = s.ev(n.slice.lower) if n.slice.lower else 0; hi = s.ev(n.slice.upper); z = s.u.sizeof(p.ct) if p.ct[0] != "array" else s.u.sizeof(p.ct[1])
            return [(p.a + lo * z, p.a + hi * z)]
        if isinstance(n, ast.Subscript):
            p = s.ptr_of(n.value); i = s.ev(n.slice); z = s.u.sizeof(p.ct) if p.ct[0] != "array" else s.u.sizeof(p.ct[1]); return [(p.a + i * z, p.a + i * z + z)]
        if isinstance(n, ast.Attribute):
            if isinstance(n.value, ast.Name) and n.value.id == "g": ct, ad = s.h.glob(n.attr); return [(ad, ad + s.u.sizeof(ct))]
            p = s.ptr_of(n.value)
            if p.a == 0: return []
            ft = dict(s.u.fields(p.ct))[n.attr]; o = s.u.field_byte_off(p.ct, n.attr); return [(p.a + o, p.a + o + s.u.sizeof(ft))]
        if isinstance(n, ast.Call) and n.func.id == "deref":
            p = s.ev(n.args[0]); return [(p.a, p.a + s.u.sizeof(p.ct))]
        raise Skip("assigns")
    def ptr_of(s, n): return s.ptr(s.ev(n))

DBL = [
    lambda r: r.choice([0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0]),
    lambda r: r.uniform(-1, 1),
    lambda r: r.uniform(0, 10),
    lambda r: float(r.randint(-8, 8)),
    lambda r: r.choice([r.uniform(-1, 1), r.uniform(-1e6, 1e6), 0.0, -0.0, 1e300, -1e-300, 5e-324, 4294967295.0, 1e9]),
    lambda r: r.choice([math.inf, -math.inf, math.nan, 0.0, -0.0, 1.0, r.uniform(-2, 2)]),
]
def ints(bits, signed):
    hi = (1 << bits - (1 if signed else 0)) - 1; lo = -hi - 1 if signed else 0
    cl = lambda x: max(lo, min(hi, x))
    return [lambda r: cl(r.randint(0, 3)), lambda r: cl(r.randint(0, 9)), lambda r: cl(r.randint(0, 40)), lambda r: r.randint(lo, hi),
            lambda r: cl(r.choice([0, 1, 2, hi, hi - 1, hi // 2, hi // 2 + 1, lo, r.randint(lo, hi)]))]

class Harness:
    def __init__(s, lib, fn, seed=1):
        s.lib, s.u, s.fn = lib, lib.u, fn
        s.mem = Mem(lib); s.r = random.Random(seed); s.fnspec_dom = {}
        s.node = s.u.funcs[fn.fn]
        s.ps = [s.u.ty(x) for x in s.node["inner"] if x["kind"] == "ParmVarDecl"]
        s.ps = [("ptr", p[1]) if p[0] == "array" else ("ptr", p) if p[0] == "func" else p for p in s.ps]
        s.names = fn.params or [x.get("name") for x in s.node["inner"] if x["kind"] == "ParmVarDecl"]
        s.ret = s.u.parse(s.node["type"]["qualType"].split("(")[0].strip())
        if len(s.names) != len(s.ps): raise Skip("the number of parameters changed")
        s.ps = [("ptr", ptype(fn.ptypes[n])) if n in fn.ptypes else p for n, p in zip(s.names, s.ps)]
        s.log = []
    def glob(s, name):
        g = s.u.globals.get(name)
        if g is None: raise Skip("global " + name)
        ct = s.u.ty(g)
        try: return ct, C.addressof(C.c_char.in_dll(s.lib.lib, name))
        except ValueError: raise Skip("global " + name)
    def rand_int(s, ct, style): return s.r.choice(ints(ct[1], ct[2])[:style + 1])(s.r) if style < 3 else ints(ct[1], ct[2])[style](s.r)
    def alloc(s, n): return s.lib.lib.vm_alloc(max(0, n))
    def fill(s, a, ct, cnt, st):
        lv = s.layout(ct); z = s.u.sizeof(ct)
        for i in range(cnt):
            for o, l in lv: s.poke(a + i * z + o, l, s.leaf(l, st))
    def layout(s, ct):
        if ct[0] == "struct":
            out = []
            for n, f in s.u.fields(ct):
                o = s.u.field_byte_off(ct, n)
                out += [(o + p, l) for p, l in s.layout(f)]
            return out
        if ct[0] == "array":
            z = s.u.sizeof(ct[1]); return [(i * z + p, l) for i in range(ct[2]) for p, l in s.layout(ct[1])]
        return [(0, ct)]
    def leaf(s, l, st):
        if l[0] == "int": return s.r.choice([ints(l[1], l[2])[st["int"]], ints(l[1], l[2])[0]])(s.r)
        if l[0] in ("double", "float"): return DBL[st["dbl"]](s.r)
        return 0
    def poke(s, a, l, v):
        k = l[0]
        if k == "int": b = (int(v) & ((1 << max(8, l[1])) - 1)).to_bytes(max(1, l[1] // 8), "little")
        elif k == "double": b = struct.pack("<d", v)
        elif k == "float":
            try: b = struct.pack("<f", v)
            except OverflowError: b = struct.pack("<f", 1.0)
        elif k in ("ptr", "func"): b = struct.pack("<Q", v.a if isinstance(v, P) else v)
        else: return
        C.memmove(a, b, len(b))
    def globs(s, reqs):
        return sorted({z.attr for q in reqs if isinstance(q, str) for z in ast.walk(parse_expr(q)) if isinstance(z, ast.Attribute) and isinstance(z.value, ast.Name) and z.value.id == "g"})
    def conj(s, n):
        if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.And):
            for x in n.values: yield from s.conj(x)
        else: yield n
    def generate(s, case):
        """-> argument binding satisfying the precondition"""
        r = s.r
        st = {"int": r.choice([0, 0, 1, 1, 2, 3, 4]), "dbl": r.choice([0, 1, 1, 2, 3, 4, 5] if s.fn.fmode != "R" else [0, 1, 2, 3])}
        s.st = st
        bind = {}
        alias = {}; reqs = list(s.fn.requires); setv = []
        for c in case:
            if c.startswith("alias "): a, b = c[6:].split("="); alias[a.strip()] = b.strip()
            elif c.startswith("null "): continue
            elif c.startswith("set "):
                a, b = c[4:].split("="); setv.append((a.strip(), int(b)))
                if "." in a: reqs.append(f"{a} == {b}")
            else: reqs.append(c)
        for n, ct in list(zip(s.names, s.ps)) + [(v, ("int", 32, False)) for v in s.fn.opts.get("logic_vars", ())]:
            if ct[0] == "int": bind[n] = r.choice([ints(ct[1], ct[2])[0], ints(ct[1], ct[2])[1], ints(ct[1], ct[2])[r.choice([1, 1, 2, 3, 4])]])(r)
            elif ct[0] in ("double", "float"): bind[n] = DBL[r.choice([st["dbl"], 0, 2])](r)
            elif n in s.fn.fns: bind[n] = P(C.cast(s.lib.fn[s.fn.fns[n]], C.c_void_p).value if not isinstance(s.lib.fn[s.fn.fns[n]], int) else s.lib.fn[s.fn.fns[n]], ct[1])
            elif ct[0] == "ptr": bind[n] = P(0, ct[1])
            elif ct[0] in ("struct", "array"):
                b = C.create_string_buffer(s.u.sizeof(ct)); a = s.alloc(s.u.sizeof(ct)); s.fill(a, ct, 1, st); bind[n] = Loc(a, ct)
            else: raise Skip(f"parameter type {ct}")
        def setall():
            for a, b in setv:
                if "." not in a: bind[a] = b; continue
                n, m = a.split(".", 1); l = bind[n]
                if isinstance(l, P): continue
                s.poke(l.a + s.u.field_byte_off(l.ct, m), dict(s.u.fields(l.ct))[m], b)
        setall()
        for n in s.globs(reqs + list(s.fn.ensures) + list(s.fn.assigns or ())):
            try: ct, ad = s.glob(n)
            except Skip: continue
            if n == "sp_random_state":
                for o, l in s.layout(ct): s.poke(ad + o, l, r.getrandbits(64) | 1)
            elif n not in s.globs(reqs): continue
            elif ct[0] == "int": s.poke(ad, ct, r.randint(0, 12))
            elif ct[0] == "ptr": s.poke(ad, ct, 0)
            elif ct[0] == "struct":
                for o, l in s.layout(ct): s.poke(ad + o, l, r.choice([0, 0, r.randint(0, 12)]) if l[0] == "int" else s.leaf(l, st))
        # keep buffer sizes small: integers used in valid() sizes
        big = {x.id for q in reqs for y in s.conj(parse_expr(q)) for z in ast.walk(y) if isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "valid" for w in z.args[1:] for x in ast.walk(w) if isinstance(x, ast.Name)}
        for n in big:
            if isinstance(bind.get(n), int) and abs(bind[n]) > 64: bind[n] = r.randint(0, 12)
        if big and not s.fn.opts.get("small") and r.random() < 0.01:      # now and then sizes around the limits of narrower types
            z = r.choice([127, 128, 129, 255, 256, 257, 300, 32769, 65535, 65536, 65537, 65600])
            for n in big:
                if isinstance(bind.get(n), int) and r.random() < 0.8: bind[n] = z
        for q in reqs:
            for y in s.conj(parse_expr(q)):
                if isinstance(y, ast.Compare) and len(y.ops) == 1 and isinstance(y.ops[0], (ast.Lt, ast.LtE)) and all(isinstance(z, ast.Name) and isinstance(bind.get(z.id), int) for z in (y.left, y.comparators[0])):
                    a, b = y.left.id, y.comparators[0].id
                    if bind[a] > bind[b] or r.random() < 0.1: bind[a] = max(0, bind[b] - r.randint(0 if isinstance(y.ops[0], ast.LtE) else 1, 12))
        if s.fn.gen: s.fn.gen(s, bind); setall()
        atoms = [y for q in reqs for y in s.conj(parse_expr(q))]
        todo = atoms
        for y in atoms:
            # name == expr : set it
            if isinstance(y, ast.Compare) and len(y.ops) == 1 and isinstance(y.ops[0], ast.Eq) and isinstance(y.left, ast.Name) and y.left.id in bind and not (s.fn.gen and False):
                try: v = Ev(s, bind).ev(y.comparators[0])
                except (Skip, Bad): continue
                if isinstance(bind[y.left.id], (int, float)) and isinstance(v, (int, float)): bind[y.left.id] = v
        for y in atoms:
            s.satisfy(y, bind, alias, st, {})
            if setv and isinstance(y, ast.Call) and y.func.id == "valid" and isinstance(y.args[0], ast.Name):
                for a, b in setv:
                    if a.startswith(y.args[0].id + ".") and isinstance(bind[y.args[0].id], P):
                        l = bind[y.args[0].id]; m = a.split(".", 1)[1]; s.poke(l.a + s.u.field_byte_off(l.ct, m), dict(s.u.fields(l.ct))[m], b)
        for a, b in alias.items(): bind[a] = bind[b]
        e = Ev(s, bind)
        for q in reqs:
            if q.startswith("sep") and alias: continue
            if not e.text(q): raise Skip(q)
        return bind
    def satisfy(s, y, bind, alias, st, local):
        if isinstance(y, ast.BoolOp) and isinstance(y.op, ast.Or):
            for z in s.conj(s.r.choice(y.values)): s.satisfy(z, bind, alias, st, local)
            return
        if isinstance(y, ast.Compare) and len(y.ops) == 1 and isinstance(y.ops[0], ast.Eq) and (isinstance(y.left, (ast.Attribute, ast.Subscript)) or isinstance(y.left, ast.Call) and y.left.func.id == "deref"):
            e = Ev(s, bind); e.local = local      # location == value: store the value
            try:
                if e.truth(e.ev(y)): return
                v = e.ev(y.comparators[0]); (lo, hi), = e.locs(y.left)
                if s.mem.find(lo, hi - lo) is None and not (isinstance(y.left, ast.Attribute) and ast.unparse(y.left).startswith("g.")): return
                if isinstance(v, P): s.poke(lo, ("ptr",), v)
                elif isinstance(v, int): C.memmove(lo, (v & ((1 << 8 * (hi - lo)) - 1)).to_bytes(hi - lo, "little"), hi - lo)
                elif isinstance(v, float): s.poke(lo, ("double",), v)
            except (Skip, Bad, ValueError, TypeError): pass
            return
        if isinstance(y, ast.Compare) and len(y.ops) == 1 and isinstance(y.ops[0], ast.LtE) and isinstance(y.left, ast.Attribute) and isinstance(y.comparators[0], ast.Attribute):
            e = Ev(s, bind); e.local = local      # location <= location: store a smaller value
            try:
                if not e.truth(e.ev(y)): (lo, hi), = e.locs(y.left); C.memmove(lo, s.r.randint(0, e.ev(y.comparators[0])).to_bytes(hi - lo, "little"), hi - lo)
            except (Skip, Bad, ValueError, TypeError): pass
            return
        if not (isinstance(y, ast.Call) and isinstance(y.func, ast.Name)): return
        f = y.func.id
        if f == "implies":
            e = Ev(s, bind); e.local = local
            try:
                c = y.args[0]
                free = isinstance(c, ast.Compare) and isinstance(c.ops[0], ast.NotEq) and isinstance(c.left, ast.Attribute) and isinstance(c.comparators[0], ast.Name) and c.comparators[0].id == "NULL" and s.r.random() < 0.6
                if free or e.truth(e.ev(c)):
                    for z in s.conj(y.args[1]): s.satisfy(z, bind, alias, st, local)
            except (Skip, Bad): pass
            return
        if f == "forall" and len(y.args) == 4:
            e = Ev(s, bind); e.local = local
            try: lo, hi = e.ev(y.args[1]), e.ev(y.args[2])
            except (Skip, Bad): return
            for k in range(lo, min(hi, lo + 40)):
                for z in s.conj(y.args[3]): s.satisfy(z, bind, alias, st, {**local, y.args[0].id: k})
            return
        if f in LOGIC and isinstance(LOGIC[f], Macro):
            L = LOGIC[f]; e = Ev(s, bind); e.local = local
            try: args = [e.ev(a) for a in y.args]
            except (Skip, Bad): return
            for z in s.conj(parse_expr(L.body)): s.satisfy(z, bind, alias, st, {**local, **dict(zip(L.params, args))})
            return
        if f not in ("valid", "block"): return
        t = y.args[0]
        e = Ev(s, bind); e.local = local
        if isinstance(t, ast.Name) and t.id in alias: return
        try:
            v = e.ev(t)
            if not isinstance(v, P): return
            c = e.ev(y.args[1]) if len(y.args) > 1 else 1
            if v.a == 0 and len(y.args) > 1 and isinstance(y.args[1], ast.Attribute) and not 0 <= c <= 64:
                c = s.r.randint(0, 12); (lo, hi), = e.locs(y.args[1]); C.memmove(lo, c.to_bytes(hi - lo, "little"), hi - lo)
        except (Skip, Bad, ValueError): return
        z = s.u.sizeof(v.ct) if v.ct[0] not in ("void", "func") else 1
        if v.a != 0:
            b = s.mem.find(v.a, 0)
            if b and v.a + z * c > b[0] + b[1]: raise Skip("grow")
            return
        if c < 0 or c * z > 1 << 20: raise Skip("size")
        a = s.alloc(z * c); s.fill(a, v.ct, c, st) if v.ct[0] not in ("void", "func") else C.memset(a, s.r.randint(0, 255), c)
        if isinstance(t, ast.Name) and t.id in bind: bind[t.id] = P(a, v.ct)
        elif isinstance(t, ast.Name): local[t.id] = P(a, v.ct)
        else:
            lo = e.locs(t); s.poke(lo[0][0], ("ptr", v.ct), a)
    def run(s, case):
        """one sample; raises Bad on violation"""
        lib = s.lib
        lib.lib.vm_reset(); s.mem.snap = None
        bind = s.generate(case)
        s.desc = s.describe(bind, case)
        args = []
        for n, ct in zip(s.names, s.ps):
            v = bind[n]
            if isinstance(v, P): args.append(C.c_void_p(v.a))
            elif isinstance(v, Loc): args.append(lib.ctype(ct).from_buffer_copy(C.string_at(v.a, s.u.sizeof(ct))))
            else: args.append(lib.ctype(ct)(v if ct[0] != "int" else int(v)))
        proto = C.CFUNCTYPE(lib.ctype(s.ret), *[lib.ctype(ct) for ct in s.ps])
        lib.cnt.value = 0; lib.err.value = 0
        lib.fail.value = s.r.choice([0, 0, 0, 1, 2, 3, 4]) if s.fn.opts.get("alloc_fail", True) else 0
        s.desc["allocation that fails"] = lib.fail.value
        s.mem.snapshot(); s.mem.gsnap = []
        for n in s.globs(list(s.fn.requires) + list(s.fn.ensures) + list(s.fn.assigns or ())):
            try: ct, ad = s.glob(n)
            except Skip: continue
            s.mem.gsnap.append((ad, C.string_at(ad, s.u.sizeof(ct))))
        s.announce(s.desc)
        rv = proto(lib.fn[s.fn.fn])(*args)
        lib.fail.value = 0
        s.returned()
        if lib.err.value: raise Bad("a pointer that is no live block is released")
        if isinstance(rv, C.Structure): rv = SV(bytes(rv), s.ret)
        elif s.ret[0] == "ptr": rv = P(rv or 0, s.ret[1])
        elif s.ret[0] == "int" and isinstance(rv, bool): rv = int(rv)
        s.desc["result"] = str(rv if not isinstance(rv, (P, SV)) else (hex(rv.a) if isinstance(rv, P) else rv.b.hex()))
        e = Ev(s, bind, rv, tol=s.fn.opts.get("tol", 1e-9 if s.fn.fmode == "R" else None))
        for q in s.fn.conc_ensures if s.fn.conc_ensures is not None else s.fn.ensures + s.fn.derived:
            try: ok = e.text(q)
            except Skip: continue
            except (RecursionError, KeyError, ZeroDivisionError, OverflowError): continue
            if not ok: raise Bad("postcondition: " + q)
        s.frame(bind, rv)
    def frame(s, bind, rv):
        if s.fn.assigns is None: return
        e = Ev(s, bind, rv, old=True); ls = []
        for x in s.fn.assigns:
            try: ls += e.locs(x)
            except (Skip, Bad): return
        live = {p for p, n, l in s.mem.blocks() if l}
        t = {p: (s.lib.tab[i].base, s.lib.tab[i].map) for i in range(s.lib.vn.value) for p in [s.lib.tab[i].p]}
        for p, b in s.mem.snap:
            if p not in live:
                if not s.fn.frees and s.fn.alive != "any": raise Bad("frame: a block of the caller is released")
                continue
            now = C.string_at(p, len(b))
            if now != b:
                for i in range(len(b)):
                    if now[i] != b[i] and not any(lo <= p + i < hi for lo, hi in ls): raise Bad(f"frame: a byte outside of the assignable ranges is written (offset {i} of a block of {len(b)} bytes)")
            base, mp = t[p]; pad = p - base
            if pad and C.string_at(base, pad) != b"\xa5" * pad: raise Bad("memory: write before the start of a block")
        if s.fn.alive == "any": return
        ok = set()
        e2 = Ev(s, bind, rv)
        for a in s.fn.allocs:
            try: ok.add(e2.ptr(e2.ev(parse_expr(a))).a)
            except (Skip, Bad): pass
        for i in range(s.mem.sn, s.lib.vn.value):
            if s.lib.tab[i].live and s.lib.tab[i].p not in ok: raise Bad("leak: a block allocated in the call is neither released nor handed out")
    def describe(s, bind, case):
        d = {"function": s.fn.name, "case": case}
        def val(v, depth=2):
            if isinstance(v, P):
                b = s.mem.find(v.a, 0)
                if v.a == 0: return None
                if not b: return "fn " + s.lib.byaddr.get(v.a, "?")
                if v.ct[0] in ("int", "double"):
                    z = s.u.sizeof(v.ct); e = Ev(s, bind); return [e.load(v.ct, v.a + i * z) for i in range(min(64, (b[0] + b[1] - v.a) // z))]
                if v.ct[0] == "struct" and depth:
                    e = Ev(s, bind); z = s.u.sizeof(v.ct)
                    return [{n: val(e.load(f, v.a + i * z + s.u.field_byte_off(v.ct, n)), depth - 1) for n, f in s.u.fields(v.ct)} for i in range(min(8, (b[0] + b[1] - v.a) // z))]
                if v.ct[0] == "ptr" and depth:
                    e = Ev(s, bind); return [val(e.load(v.ct, v.a + i * 8), depth - 1) for i in range(min(16, (b[0] + b[1] - v.a) // 8))]
                return f"{b[1]} bytes"
            if isinstance(v, Loc):
                e = Ev(s, bind)
                if v.ct[0] == "struct" and depth: return {n: val(e.load(f, v.a + s.u.field_byte_off(v.ct, n)), depth - 1) for n, f in s.u.fields(v.ct)}
                return s.mem.read(v.a, s.u.sizeof(v.ct)).hex()
            return v
        for n in bind: d[n] = val(bind[n])
        return d
    def announce(s, d): pass
    def returned(s): pass

def search(lib, fn, budget=10.0, seed=1, samples=4000, term=True):
    """-> (description, reason) of an input that violates the contract, or None. Runs in a child process."""
    cases = [[c] if isinstance(c, str) else c for c in (fn.cases or [[]])]
    t0 = time.time(); gone = 0; seeds = seed; stat = {"run": 0, "skipped": 0}
    while time.time() - t0 < budget and gone < 6:
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            code = 0
            try:
                sys.setrecursionlimit(20000)
                dn = os.open("/dev/null", os.O_WRONLY); os.dup2(dn, 1); os.dup2(dn, 2)
                import resource; resource.setrlimit(resource.RLIMIT_CORE, (0, 0)); resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
                out = os.fdopen(wfd, "w")
                def put(o): out.write(json.dumps(o, default=str) + "\n"); out.flush()
                try: h = Harness(lib, fn, seeds)
                except Skip as e: put({"k": "nogen", "why": str(e)}); os._exit(0)
                h.announce = lambda d: put({"k": "in", "d": d})
                h.returned = lambda: put({"k": "ret"})
                runs = 0; tries = 0
                while time.time() - t0 < budget and runs < samples and tries < samples * 50:
                    case = h.r.choice(cases); tries += 1
                    signal.setitimer(signal.ITIMER_REAL, 5)
                    try:
                        h.run(case); runs += 1
                        if runs % 50 == 0: put({"k": "n", "run": 50})
                    except Skip: pass
                    except Bad as e:
                        put({"k": "bad", "why": str(e), "d": h.desc}); os._exit(0)
                put({"k": "end"})
            except BaseException as e:
                try: put({"k": "exc", "why": repr(e)})
                except Exception: pass
            os._exit(0)
        os.close(wfd)
        last = None; res = None; ended = False
        with os.fdopen(rfd, "rb") as f:
            for line in f:
                try: m = json.loads(line)
                except ValueError: continue
                if m["k"] == "in": last = m["d"]; stat["run"] += 1
                elif m["k"] == "ret": last = None
                elif m["k"] == "bad": res = (m["d"], m["why"])
                elif m["k"] in ("end", "nogen"): ended = True
                elif m["k"] == "exc": stat["exc"] = m["why"]; ended = True
        _, status = os.waitpid(pid, 0)
        if res: return res, stat
        if os.WIFSIGNALED(status):
            sg = os.WTERMSIG(status)
            if last is not None and sg in (signal.SIGSEGV, signal.SIGBUS, signal.SIGFPE, signal.SIGABRT, signal.SIGILL): return (last, f"memory/arithmetic: the call dies with signal {signal.Signals(sg).name}"), stat
            if last is not None and sg == signal.SIGALRM and fn.terminates and term: return (last, "termination: the call does not return within 5 s"), stat
        if ended: break
        gone += 1; seeds += 1
    return None, stat

if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    import cast, reg, run
    run.load_specs()
    d = "/tmp/w/scr"; U = cast.Unit(d); L = Lib(U, d)
    for n in [n for n in reg.FNS if not sys.argv[1:] or any(a == n or a in reg.FNS[n].props or (a.endswith("*") and n.startswith(a[:-1])) for a in sys.argv[1:])]:
        r, st = search(L, reg.FNS[n], 5)
        print(n, st, r)

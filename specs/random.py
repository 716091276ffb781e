"""sph-sc-lib/random.c: xoshiro256 and splitmix64, bounded draws"""
from functools import lru_cache
from reg import fn, macro, rec
from driver import Fn

G = 11400714819323198485
M1, M2 = 13787848793156543929, 10723151780598845931
U = 2 ** 64 - 1
macro("sm1(z)", f"(z ^ (z >> 30)) * {M1}")
macro("sm2(z)", f"(z ^ (z >> 27)) * {M2}")
macro("sm3(z)", "z ^ (z >> 31)")
macro("splitmix(z)", "sm3(sm2(sm1(z)))")
P7, P8 = ["C07"], ["C08"]
SEEDED = [f"splitmix(seed + {(i + 1) * G % 2 ** 64})" for i in range(4)]
def sm(seed, i):
    z = (seed + (i + 1) * G) & U
    z = (z ^ z >> 30) * M1 & U; z = (z ^ z >> 27) * M2 & U
    return z ^ z >> 31
for i in range(4): rec(f"SM{i}(seed:int)", "u64", None, lambda seed, i=i: sm(seed, i))
fn("sph_random_state_new", "seed", [], [f"result.data[{i}] == {SEEDED[i]}" for i in range(4)], [], imode="bv",
   abs=Fn("sph_random_state_new", "seed", [], [f"result.data[{i}] == SM{i}(seed)" for i in range(4)], []), props=P7)
# the seed state advanced by two draws
fn("sp_random_state_new", "seed", [], [f"result.data[{i}] == S{i}(SM0(seed), SM1(seed), SM2(seed), SM3(seed), 2)" for i in range(4)], [], opts={"depth": 4}, props=P7)

# ---- concrete versions of the logic functions, only for the search for failing inputs
def rotl(x, k): return ((x << k) | (x >> (64 - k))) & U
def step(s):
    a, b, c, d = s
    c ^= a; d ^= b; b, a = b ^ c, a ^ d
    return (a, b, c ^ (s[1] << 17 & U), rotl(d, 45))
@lru_cache(200000)
def nth(s, k): return s if k <= 0 else step(nth(s, k - 1)) if k < 900 else step(nth(nth(s, k - 900), 899))
def draw(s): return rotl(s[1] * 5 & U, 7) * 9 & U
@lru_cache(20000)
def bounded(s, r):
    while True:
        m = draw(s) * r; s = step(s)
        if r == 0 or m % 2 ** 64 >= 2 ** 64 % r: return m >> 64, s

# ---- one step of the published generator; in contracts over mathematical integers the step functions are names
STEP = ["s.data[0] == {0} ^ {3} ^ {1}", "s.data[1] == {1} ^ {2} ^ {0}", "s.data[2] == {2} ^ {0} ^ ({1} << 17)", "s.data[3] == rotl64({3} ^ {1}, 45)"]
D = [f"old(s.data[{i}])" for i in range(4)]
STEP = [x.format(*D) for x in STEP]
A4 = "a:int, b:int, c:int, d:int"
for i in range(4): rec(f"X{i}({A4})", "u64", None, lambda a, b, c, d, i=i: step((a, b, c, d))[i])
rec(f"XR({A4})", "u64", None, lambda *s: draw(s))
rec(f"XF({A4})", "u53", None, lambda *s: (s[0] + s[3] & U) >> 11)
OD = ", ".join(D)
ABS = [f"s.data[{i}] == X{i}({OD})" for i in range(4)]
def scalar(name, value, absvalue, **kw):
    fn(name, "s" + kw.pop("params", ""), ["valid(s)", *kw.pop("reqs", [])], [f"result == {value}"] + STEP, ["s.data[0:4]"], imode="bv",
       abs=Fn(name, "s" + kw.pop("aparams", ""), ["valid(s)"], [f"result == {absvalue}"] + ABS, ["s.data[0:4]"]), **kw)
scalar("sph_random_u64", "rotl64(old(s.data[1]) * 5, 7) * 9", f"XR({OD})", props=P7 + P8)
UNIT = "f((old(s.data[0]) + old(s.data[3])) >> 11) * 1.1102230246251565e-16"
UNITA = f"f(XF({OD})) * 1.1102230246251565e-16"
IN = "implies(isfinite(range), (0 <= result and result <= range) if range >= 0 else (range <= result and result <= 0))"
INK = IN.replace("result", "out[k]")
fn("sph_random_f64_bounded", "s range", ["valid(s)"], [f"result == range * ({UNIT})", "((old(s.data[0]) + old(s.data[3])) >> 11) <= 9007199254740991", IN] + STEP, ["s.data[0:4]"], imode="bv",
   abs=Fn("sph_random_f64_bounded", "s range", ["valid(s)"], [f"result == range * ({UNITA})", IN] + ABS, ["s.data[0:4]"]), props=P7 + P8)

# ---- the state after k steps
for i in range(4):
    rec(f"S{i}({A4}, k:int)", "u64", f"{'abcd'[i]} if k <= 0 else X{i}(" + ", ".join(f"S{j}(a, b, c, d, k - 1)" for j in range(4)) + ")", lambda a, b, c, d, k, i=i: nth((a, b, c, d), k)[i])
SK = lambda k: ", ".join(f"S{j}({OD}, {k})" for j in range(4))
NOW = "s.data[0], s.data[1], s.data[2], s.data[3]"
def array(name, params, value, extra=(), props=P7, **kw):
    """the array form gives the values and leaves the state of n single draws"""
    fn(name, params, ["valid(s)", "valid(out, n)", "sep(s, out)"],
       [f"forall(k, 0, n, out[k] == {value})"] + [f"s.data[{i}] == S{i}({OD}, n)" for i in range(4)] + list(extra), ["s.data[0:4]", "out[0:n]"],
       inv=[" and ".join(f"s.data[{i}] == S{i}({OD}, _i)" for i in range(4))], props=props, **kw)
array("sph_random_u64_array", "s n out", f"XR({SK('k')})")
array("sph_random_u32_array", "s n out", f"XR({SK('k')}) // 4294967296")
UK = f"f(XF({SK('k')})) * 1.1102230246251565e-16"
array("sph_random_f64_bounded_array", "s range n out", f"range * ({UK})", [f"forall(k, 0, n, {INK})"], props=P7 + P8)
array("sph_random_f64_array_1to1", "s n out", f"2.0 * ({UK}) - 1", ["forall(k, 0, n, -1.0 <= out[k] and out[k] < 1.0)"], props=P7 + P8)
array("sph_random_f64_array_0to1", "s n out", UK, ["forall(k, 0, n, 0.0 <= out[k] and out[k] < 1.0)"], props=P7 + P8)
array("sph_random_f64_array", "s n out", f"f(XR({SK('k')}) >> 11) * 1.1102230246251565e-16")
fn("sph_random_u32", "s", ["valid(s)"], [f"result == XR({OD}) // 4294967296"] + ABS, ["s.data[0:4]"], props=P7)
fn("sph_random_f64", "s", ["valid(s)"], [f"result == f(XR({OD}) >> 11) * 1.1102230246251565e-16"] + ABS, ["s.data[0:4]"], props=P7)
fn("sph_random_f64_1to1", "s", ["valid(s)"], [f"result == 2.0 * ({UNITA}) - 1", "-1.0 <= result and result < 1.0"] + ABS, ["s.data[0:4]"], props=P7 + P8)
fn("sph_random_f64_0to1", "s", ["valid(s)"], [f"result == {UNITA}", "0.0 <= result and result < 1.0"] + ABS, ["s.data[0:4]"], props=P7 + P8)

# ---- bounded integers: the high word of the first draw whose low word is not in the biased part
macro("rejected(m, range)", "m % 18446744073709551616 < 18446744073709551616 % range")
BD = "a, b, c, d"
def brec(name, take):
    rec(f"{name}({A4}, range:int)", "u64", f"{name}(X0({BD}), X1({BD}), X2({BD}), X3({BD}), range) if rejected(XR({BD}) * range, range) else " + take, lambda a, b, c, d, r, n=name: (lambda q: q[0] if n == "BR" else q[1][int(n[1])])(bounded((a, b, c, d), r)))
brec("BR", f"(XR({BD}) * range) // 18446744073709551616")
for i in range(4): brec(f"B{i}", f"X{i}({BD})")
def bnd(name, **kw):
    fn(name, "s range", ["valid(s)", "range > 0"], [f"result == BR({OD}, range)", "result < range"] + [f"s.data[{i}] == B{i}({OD}, range)" for i in range(4)], ["s.data[0:4]"],
      inv=[f"BR({OD}, range) == (BR({NOW}, range) if rejected(_i, range) else _i // 18446744073709551616)"] +
          [f"B{i}({OD}, range) == (B{i}({NOW}, range) if rejected(_i, range) else s.data[{i}])" for i in range(4)] + ["_i2 == _i % 18446744073709551616", "_i < 18446744073709551616 * range"],
      terminates=False, note="the rejection loop ends with probability one, its termination is not a property of the code alone", props=P8, **kw)
bnd("sph_random_u64_bounded")
bnd("sph_random_u32_bounded")

OPQ = ["BR", "B0", "B1", "B2", "B3"]
# ---- discrete distributions given by cumulative sums
GS = ", ".join(f"old(g.sp_random_state.data[{i}])" for i in range(4))
AFTER = [f"g.sp_random_state.data[{i}] == B{i}({GS}, cd[cn - 1])" for i in range(4)]
macro("hit(cd, r)", "cd[r] > (0 if r == 0 else cd[r - 1])")
fn("sp_time_random_discrete", "cd cn", ["cn > 0", "valid(cd, cn)", "cd[cn - 1] > 0"],
   ["result < cn", "hit(cd, result)", f"BR({GS}, cd[cn - 1]) < cd[result]", f"forall(k, 0, result, cd[k] <= BR({GS}, cd[cn - 1]))"] + AFTER, ["g.sp_random_state"],
   inv=[f"forall(k, 0, _i, cd[k] <= BR({GS}, cd[cn - 1]))"], props=P8)
for i in range(4):
    rec(f"T{i}({A4}, range:int, k:int)", "u64", f"{'abcd'[i]} if k <= 0 else B{i}(" + ", ".join(f"T{j}(a, b, c, d, range, k - 1)" for j in range(4)) + ", range)",
        lambda a, b, c, d, r, k, i=i: bnth((a, b, c, d), r, k)[i])
@lru_cache(20000)
def bnth(s, r, k): return s if k <= 0 else bounded(bnth(s, r, k - 1), r)[1]
TK = lambda k, r: ", ".join(f"T{j}({GS}, {r}, {k})" for j in range(4))
DEV = "BR(" + TK("k", "cd[cn - 1]") + ", cd[cn - 1])"
fn("sp_times_random_discrete", "cd cn n out", ["cn > 0", "valid(cd, cn)", "valid(out, n)", "sep(cd, out)", "cd[cn - 1] > 0"],
   [f"forall(k, 0, n, out[k] < cn and {DEV} < cd[out[k]] and forall(j, 0, out[k], cd[j] <= {DEV}))"] +
   [f"g.sp_random_state.data[{i}] == T{i}({GS}, cd[cn - 1], n)" for i in range(4)], ["g.sp_random_state", "out[0:n]"],
   inv=[" and ".join(f"g.sp_random_state.data[{i}] == T{i}({GS}, cd[cn - 1], _i)" for i in range(4)), "forall(k, 0, _i, cd[k] <= _u)"], opts={"depth": 1, "opaque": OPQ}, props=P8)
fn("sp_times_random_discrete_unique", "cd cn n out", ["cn > 0", "valid(cd, cn)", "valid(out, n)", "sep(cd, out)", "cd[cn - 1] > 0"],
   ["forall(k, 0, min(n, cn), out[k] < cn and hit(cd, out[k]))", "forall(k, 0, min(n, cn), forall(j, 0, k, out[j] != out[k]))"], ["g.sp_random_state", "out[0:min(n, cn)]"],
   inv=["forall(k, 0, min(n, cn) - _i, out[k] < cn and hit(cd, out[k]))", "forall(k, 0, min(n, cn) - _i, forall(j, 0, k, out[j] != out[k]))", "_i <= min(n, cn)"],
   terminates=False, note="drawing until enough distinct values came up ends with probability one if enough weights are not zero", opts={"depth": 0, "inv_tmo": 6}, auto=False, props=P8)

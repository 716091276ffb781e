"""statistics.c: C31"""
from reg import fn, macro, rec
P = ["C31"]
rec("isum(a:u32[], n:int)", "int", "0 if n <= 0 else isum(a, n - 1) + a[n - 1]")
rec("imom(a:double[], n:int)", "double", "0.0 if n <= 0 else imom(a, n - 1) + f(n - 1) * a[n - 1]")
for T, V, mean in (("times", "u32", "f(isum(a, size)) / f(size)"), ("samples", "double", "rsum(a, size) / f(size)")):
    t = T[0]; H = "_i2" if t == "t" else "_f"
    A = ["size > 0", "valid(a, size)", "valid(out)", "sep(out, a)"]
    for k in (2, 3, 4):
        rec(f"mom{k}{t}(a:{V}[], m:double, n:int)", "double", f"0.0 if n <= 0 else mom{k}{t}(a, m, n - 1) + " + " * ".join(["(f(a[n - 1]) - m)" if t == "t" else "(a[n - 1] - m)"] * k))
    g = "f" if t == "t" else ""
    for e, o in (("lo", "<"), ("hi", ">")):
        rec(f"S{e}{t}(a:{V}[], n:int)", "int" if t == "t" else "double", f"a[0] if n <= 1 else (a[n - 1] if a[n - 1] {o} S{e}{t}(a, n - 1) else S{e}{t}(a, n - 1))",
            (lambda a, n: min(map(a, range(max(n, 1))))) if e == "lo" else (lambda a, n: max(map(a, range(max(n, 1))))))
    fn(f"sp_stat_{T}_range", "a size out", ["size > 0", "valid(a, size)", "valid(out, 3)", "sep(out, a)"],
       ["exists(k, 0, size, out[0] == f(a[k]))", "exists(k, 0, size, out[1] == f(a[k]))", "forall(k, 0, size, out[0] <= f(a[k]) and f(a[k]) <= out[1])", "out[2] == out[1] - out[0]", "result == 0",
        f"out[0] == f(Slo{t}(a, size))", f"out[1] == f(Shi{t}(a, size))"], ["out[0:3]"], fmode="R",
       inv=[f"{H} == Slo{t}(a, _i)", f"{H} == Shi{t}(a, _i)", f"exists(k, 0, size, {H} == a[k])", f"forall(k, 0, _i, {H} <= a[k])", f"forall(k, 0, _i, a[k] <= {H})", f"{H} <= a[0]", f"a[0] <= {H}"], auto=False, props=P)
    fn(f"sp_stat_{T}_mean", "a size out", A, [f"out[0] == {mean}", "result == 0"], ["out[0:1]"], fmode="R", inv=["_i == isum(a, _i2)", "_i <= 4294967295 * _i2"] if t == "t" else [], auto=False, props=P)
    M = lambda k: f"mom{k}{t}(a, {mean}, size) / f(size)"
    fn(f"sp_stat_{T}_deviation", "a size out", A, [f"out[0] == sqrt({M(2)})", "result == 0"], ["out[0:1]"], fmode="R", inv=[f"_f == mom2{t}(a, _g, _i)"], auto=False, props=P)
    fn(f"sp_stat_{T}_skewness", "a size out", A, [f"out[0] == ({M(3)}) / sqrt(({M(2)}) * ({M(2)}) * ({M(2)}))", "result == 0"], ["out[0:1]"], fmode="R", inv=[f"_f == mom2{t}(a, _g, _i)", f"_f == mom3{t}(a, _g, _i)"], auto=False, props=P)
    fn(f"sp_stat_{T}_kurtosis", "a size out", A, [f"out[0] == ({M(4)}) / (({M(2)}) * ({M(2)}))", "result == 0"], ["out[0:1]"], fmode="R", inv=[f"_f == mom2{t}(a, _g, _i)", f"_f == mom4{t}(a, _g, _i)"], auto=False, props=P)
    S = f"SRT{t}(a, {{}}, size)"
    fn(f"sp_stat_{T}_median", "a size out", A, ["implies(result == 0, out[0] == (" + ("f(" + S.format("size // 2") + ")") + " if size % 2 == 1 else (f(" + S.format("size // 2") + ") + f(" + S.format("size // 2 - 1") + ")) / 2.0))", "implies(result != 0, out[0] == old(out[0]))"],
       ["out[0:1]"], fmode="R", opts={"frame": [f"SRT{t}"]}, props=P)
    IH = "{0} - f(u32({0}))"
    rec(f"IH{t}(x:double)", "double", "(x - f(u32(x))) if 0.5 >= x - f(u32(x)) else 1.0 - (x - f(u32(x)))")
    rec(f"IHS{t}(a:{V}[], d:double, n:int)", "double", f"0.0 if n <= 0 else IHS{t}(a, d, n - 1) + IH{t}(f(a[n - 1]) / d)")
    IM = f"(IHS{t}(a, f(a[k]), size) / f(size))"
    fn(f"sp_stat_{T}_inharmonicity", "a size out", A + (["forall(k, 0, size, a[k] > 0)"] if t == "t" else ["forall(k, 0, size, forall(j, 0, size, 0 <= a[j] / a[k] and a[j] / a[k] < 4294967296.0))"]),
       [f"exists(k, 0, size, out[0] == {IM})", f"forall(k, 0, size, out[0] <= {IM})", "0 <= out[0] and out[0] <= 0.5", "result == 0"], ["out[0:1]"], fmode="R", props=P,
       inv=[f"_f == IHS{t}(a, f(a[_u]), _i)", "_f <= 0.5 * f(_i)", "0 <= _f", "_f <= 0.5 or _i == 0", f"_f == f(_u) if _i == 0 else exists(k, 0, _i, _f == {IM})", f"forall(k, 0, _i, _f <= {IM})"], auto=False, opts={"small": True})
fn("sp_stat_samples_center", "a size out", ["size > 0", "valid(a, size)", "valid(out)", "sep(out, a)"], ["out[0] == imom(a, size) / rsum(a, size)", "result == 0"], ["out[0:1]"], fmode="R", inv=["_f == imom(a, _i)"], auto=False, props=P)
fn("sp_stat_unique_max", "size width", ["1 <= width", "width <= size"], ["result == size - width + 1"], [], props=P)
fn("sp_stat_unique_all_max", "size", ["size > 0", "size < 65536"], ["2 * result == prod(size, size + 1)"], [], inv=["2 * _i == prod(_i2 - 1, 2 * size - _i2 + 2)", "_i2 <= size + 1", "_i <= 65535 * (_i2 - 1)", "1 <= _i2"], auto=False, props=P)
fn("sp_stat_repetition_max", "size width", ["1 <= width", "width <= size"], ["result == size - width"], [], props=P)
fn("sp_stat_repetition_all_max", "size", ["size > 0", "size < 65536"], ["2 * result == prod(size, size - 1)"], [], props=P)
ADD = "(0.0 - Slos(a, size) if Slos(a, size) < 0 else 0.0)"
fn("sp_samples_scale_to_times", "a size max out", ["size > 0", "valid(a, size)", "valid(out, size)", "sep(out, a)"],
   [f"forall(k, 0, size, out[k] == (u32(0.5 + (a[k] + {ADD}) * (f(max) / (Shis(a, size) + {ADD}))) if 0 < Shis(a, size) + {ADD} else 0))", "forall(k, 0, size, out[k] <= max)"], ["out[0:size]"], fmode="R", opts={"small": True}, props=P)
# known finding: the first element is counted twice in the sum of the masses; the exact centre is accepted as well
rec("iimom(a:u32[], n:int)", "int", "0 if n <= 0 else iimom(a, n - 1) + (n - 1) * a[n - 1]")
fn("sp_stat_times_center", "a size out", ["size > 0", "valid(a, size)", "valid(out)", "sep(out, a)", "forall(k, 0, size + 1, isum(a, k) + a[0] < 4294967296 and iimom(a, k) < 4294967296)", "forall(k, 0, size, k * a[k] < 4294967296)"],
   ["out[0] == f(iimom(a, size)) / f(isum(a, size) + a[0]) or out[0] == f(iimom(a, size)) / f(isum(a, size))", "result == 0"], ["out[0:1]"], fmode="R",
   inv=["_i == isum(a, _i2) + a[0]", "_i == isum(a, _i2)", "_i == iimom(a, _i2)"], auto=False, opts={"small": True}, props=P)

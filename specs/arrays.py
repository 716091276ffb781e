"""arrays-template.c, arrays.c: element-wise operations, reductions, rearrangement, thresholds, scaling"""
from reg import fn, macro, rec

# ---------------------------------------------------------------- series and sums (logic functions)
rec("usum(a:u32[], n:int)", "u32", "0 if n <= 0 else u32(usum(a, n - 1) + a[n - 1])")
rec("ucum(a:u32[], n:int)", "u32", "a[0] if n <= 1 else u32(ucum(a, n - 1) + a[n - 1])")
rec("fcum(a:double[], n:int)", "double", "a[0] if n <= 1 else fcum(a, n - 1) + a[n - 1]")
rec("useries_add(s:int, d:int, k:int)", "u32", "s if k <= 0 else u32(useries_add(s, d, k - 1) + d)")
rec("useries_mul(s:int, d:int, k:int)", "u32", "s if k <= 0 else u32(useries_mul(s, d, k - 1) * d)")
rec("fseries_add(s:double, d:double, k:int)", "double", "s if k <= 0 else fseries_add(s, d, k - 1) + d")
rec("fseries_div(s:double, d:double, k:int)", "double", "s if k <= 0 else fseries_div(s, d, k - 1) / d")
rec("smaxabs(a:double[], n:int)", "double", "0.0 if n <= 0 else (fabs(a[n - 1]) if smaxabs(a, n - 1) < fabs(a[n - 1]) else smaxabs(a, n - 1))")
rec("umaxabs(a:u32[], n:int)", "u32", "0 if n <= 0 else (a[n - 1] if umaxabs(a, n - 1) < a[n - 1] else umaxabs(a, n - 1))")
rec("cnt_gt(a:u32[], x:int, n:int)", "int", "0 if n <= 0 else cnt_gt(a, x, n - 1) + (1 if x < a[n - 1] else 0)")
rec("cnt_in(a:u32[], lo:int, hi:int, n:int)", "int", "0 if n <= 0 else cnt_in(a, lo, hi, n - 1) + (1 if lo <= a[n - 1] and a[n - 1] <= hi else 0)")
macro("round_u32(x)", "u32(0.5 + x)")
macro("lerp(a, b, t)", "(1 - t) * a + t * b")

SEP = ["sep(a, b)", "alias b=a"]
INOUT = ["sep(a, out)", "alias out=a"]
INOUT2 = ["sep(in_, out)", "alias out=in_"]

for T, ty, f in (("times", "u32", False), ("samples", "double", True)):
    w = (lambda x: x) if f else (lambda x: f"u32({x})")
    sub = (lambda x, y: f"{x} - {y}") if f else (lambda x, y: f"({x} - {y} if {x} > {y} else 0)")
    nz = [] if f else ["x != 0"]
    O = "old(a[k])"
    def each(name, expr, extra=()):
        fn(f"sp_{T}_{name}", "a n x", ["valid(a, n)", *extra], [f"forall(k, 0, n, a[k] == {expr})"], ["a[0:n]"], props=["C01"])
    each("add", w(f"{O} + x")); each("multiply", w(f"{O} * x")); each("divide", f"{O} / x" if f else f"{O} // x", nz); each("set", "x"); each("subtract", sub(O, "x"))
    fn(f"sp_{T}_square", "a n", ["valid(a, n)"], [f"forall(k, 0, n, a[k] == {w(O + ' * ' + O)})"], ["a[0:n]"], props=["C01"])
    B = "old(b[k])"
    def two(name, expr, extra=()):
        fn(f"sp_{T}_{name}_{T}", "a n b", ["valid(a, n)", "valid(b, n)", *extra], [f"forall(k, 0, n, a[k] == {expr})"], ["a[0:n]"], cases=SEP, props=["C01"])
    two("add", w(f"{O} + {B}")); two("multiply", w(f"{O} * {B}")); two("subtract", sub(O, B))
    two("divide", f"{O} / {B}" if f else f"{O} // {B}", [] if f else ["forall(k, 0, n, b[k] != 0)"])
    fn(f"sp_{T}_copy", "a n out", ["valid(a, n)", "valid(out, n)"], ["forall(k, 0, n, out[k] == old(a[k]))"], ["out[0:n]"], cases=INOUT, props=["C01"])

    # C02
    fn(f"sp_{T}_min", "a n", ["valid(a, n)", "n > 0"], ["forall(k, 0, n, not (a[k] < result))", "exists(k, 0, n, a[k] == result)"],
       inv=[f"forall(k, 0, _{'f' if f else 'i2'}_i0, True)" if 0 else (f"forall(k, 0, _i, not (a[k] < {'_f' if f else '_i2'}))"), f"exists(k, 0, _i, a[k] == {'_f' if f else '_i2'})", "forall(k, 0, _i, not (a[k] < a[_i2]))", "_i2 < n"], props=["C02"])
    fn(f"sp_{T}_max", "a n", ["valid(a, n)", "n > 0"], ["forall(k, 0, n, not (result < a[k]))", "exists(k, 0, n, a[k] == result)"],
       inv=[f"forall(k, 0, _i, not ({'_f' if f else '_i2'} < a[k]))", f"exists(k, 0, _i, a[k] == {'_f' if f else '_i2'})", "forall(k, 0, _i, not (a[_i2] < a[k]))", "_i2 < n"], props=["C02"])
    mag = "fabs(a[k])" if f else "a[k]"
    V = "_f" if f else "_i2"
    mx = "smaxabs" if f else "umaxabs"
    FNSPEC = fn(f"sp_{T}_absolute_max", "a n", ["valid(a, n)"],
       [f"forall(k, 0, n, not (result < {mag}))", f"result == 0 or exists(k, 0, n, {'feq(' + mag + ', result)' if f else mag + ' == result'})", f"result == {mx}(a, n)"] + (["0 <= result"] if f else []),
       inv=[f"{V} == {mx}(a, _i)", f"forall(k, 0, _i, not ({V} < {mag}))", f"{V} == 0 or exists(k, 0, _i, {'feq(' + mag + ', ' + V + ')' if f else mag + ' == ' + V})"] + (["0 <= _f"] if f else []), props=["C02", "C05"])
    eq = "feq(x, a[k])" if f else "a[k] == x"
    fn(f"sp_{T}_equal", "a n x", ["valid(a, n)"], ["result == 0 or result == 1", f"iff(result == 1, forall(k, 0, n, {eq}))"], inv=[f"forall(k, 0, _i, {eq})"], props=["C02"])
    cum = "fcum" if f else "ucum"
    if not f:
        fn("sp_times_cusum", "a n out", ["n > 0", "valid(a, n)", "valid(out, n)"], ["forall(k, 0, n, out[k] == old(ucum(a, k + 1)))"], ["out[0:n]"], cases=["sep(a, out)"],
           inv=["_i2 == old(ucum(a, _i))"], props=["C02"])
        fn("sp_times_additions", "start d n out", ["valid(out, n)"], ["forall(k, 0, n, out[k] == useries_add(start, d, k))"], ["out[0:n]"], inv=["_i2 == useries_add(start, d, _i)"], props=["C02"])
    else:
        fn("sp_samples_cusum", "a c out", ["n > 0", "n <= 4294967295", "c == f(n)", "valid(a, n)", "valid(out, n)"], ["forall(k, 0, n, out[k] == old(fcum(a, k + 1)))"], ["out[0:n]"], cases=["sep(a, out)"],
           inv=["_f == old(fcum(a, _i))"], opts={"logic_vars": ["n"]}, modular=False, props=["C02"])
        fn("sp_samples_additions", "start d c out", ["0 <= n", "n <= 4294967295", "c == f(n)", "valid(out, n)"], ["forall(k, 0, n, out[k] == fseries_add(start, d, k))"], ["out[0:n]"],
           inv=["_f == fseries_add(start, d, _i)"], opts={"logic_vars": ["n"]}, modular=False, props=["C02"])

    # C03
    fn(f"sp_{T}_reverse", "a n out", ["valid(a, n)", "valid(out, n)", "sep(a, out)"], ["forall(k, 0, n, out[n - 1 - k] == a[k])", "forall(k, 0, n, out[k] == a[n - 1 - k])"], ["out[0:n]"],
       inv=["forall(k, 0, n, implies(k >= n - _i, out[k] == a[n - 1 - k]))"], props=["C03"])
    fn(f"sp_{T}_range", "a start end out", ["start <= end", "valid(a, end)", "valid(out, end - start)", "sep(a, out)"], ["forall(k, 0, end - start, out[k] == a[start + k])"], ["out[0:end - start]"], props=["C03"])
    fn(f"sp_{T}_swap", "a i j", ["0 <= i", "0 <= j", "valid(a, i + 1)", "valid(a, j + 1)"], ["a[i] == old(a[j])", "a[j] == old(a[i])"], ["a[i]", "a[j]"], props=["C03"])
    fn(f"sp_{T}_shuffle", "a n", ["valid(a, n)"], ["perm(a, n)"], ["a[0:n]", "g.sp_random_state"], inv=["perm(a, n)"], props=["C03"])
    fn(f"sp_{T}_duplicate", "a n out", ["valid(a, n)", "valid(out)"],
       ["implies(result.id == 0, fresh(deref(out), n) and forall(k, 0, n, deref(out)[k] == a[k]))", "implies(result.id != 0, deref(out) == old(deref(out)))"],
       ["deref(out)"], allocs=["deref(out)"], modular=False, props=["C03"])
    # C04
    L = lambda p: f"{p}[k] >= limit"
    for op, val in (("and", "(b[k] if (a[k] >= limit and b[k] >= limit) else ZERO)"), ("or", "(b[k] if (a[k] < limit and not (b[k] < limit)) else a[k])"),
                    ("xor", "(ZERO if (a[k] >= limit and b[k] >= limit) else (b[k] if (a[k] < limit and not (b[k] < limit)) else a[k]))")):
        fn(f"sp_{T}_{op}_{T}", "a b n limit out", ["valid(a, n)", "valid(b, n)", "valid(out, n)"],
           ["forall(k, 0, n, out[k] == old(" + val.replace("ZERO", "0.0" if f else "0") + "))"], ["out[0:n]"],
           cases=[["sep(a, b, out)"], ["alias out=a", "sep(a, b)"], ["alias out=b", "sep(a, b)"], ["alias b=a", "sep(a, out)"]], props=["C04"])

fn("sp_times_limit", "a n x out", ["valid(a, n)", "valid(out, n)"], ["forall(k, 0, n, out[k] == min(old(a[k]), x))"], ["out[0:n]"], cases=INOUT, props=["C01"])
fn("sp_samples_limit", "a n x", ["valid(a, n)"], ["forall(k, 0, n, a[k] == (x if x < old(a[k]) else old(a[k])))"], ["a[0:n]"], props=["C01"])
fn("sp_samples_limit_abs", "a n x out", ["valid(a, n)", "valid(out, n)", "0.0 <= x"],
   ["forall(k, 0, n, out[k] == (old(a[k]) if (fabs(old(a[k])) <= x or isnan(old(a[k]))) else (x if 0.0 < old(a[k]) else -x)))"], ["out[0:n]"], cases=INOUT, props=["C01", "C05"])
for nm in ("sp_time_sum", "sp_times_sum"):
    fn(nm, "a n", ["valid(a, n)"], ["result == usum(a, n)"], inv=["_i2 == usum(a, _i)"], props=["C02"])
fn("sp_times_contains", "a n x", ["valid(a, n)"], ["result == 0 or result == 1", "iff(result == 1, exists(k, 0, n, a[k] == x))"], inv=["forall(k, 0, _i, a[k] != x)"], props=["C02"])
fn("sp_samples_differences", "a n out", ["n > 0", "valid(a, n)", "valid(out, n - 1)"], ["forall(k, 0, n - 1, out[k] == old(a[k + 1]) - old(a[k]))"], ["out[0:n - 1]"], cases=INOUT,
   inv=["forall(k, 0, _i - 1, out[k] == old(a[k + 1]) - old(a[k]))", "_i >= 1", "forall(k, 0, n, implies(k >= _i - 1, a[k] == old(a[k])))"], props=["C02"])
fn("sp_times_multiplications", "start d n out", ["valid(out, n)"], ["forall(k, 0, n, out[k] == useries_mul(start, d, k))"], ["out[0:n]"], inv=["_i2 == useries_mul(start, d, _i)"], props=["C02"])
fn("sp_samples_divisions", "start d n out", ["valid(out, n)"], ["forall(k, 0, n, out[k] == fseries_div(start, d, k))"], ["out[0:n]"], inv=["_f == fseries_div(start, d, _i)"], props=["C02"])

# C03: selection and rearrangement
fn("sp_times_select", "a idx n out", ["valid(idx, n)", "valid(a, m)", "forall(k, 0, n, idx[k] < m)", "valid(out, n)"], ["forall(k, 0, n, out[k] == old(a[idx[k]]))"], ["out[0:n]"],
   cases=["sep(a, idx, out)", ["alias out=idx", "sep(a, idx)"]], opts={"logic_vars": ["m"]}, modular=False, props=["C03"])

fn("sp_times_gt_indices", "a n x out out_n", ["valid(a, n)", "valid(out, n)", "valid(out_n)", "sep(out_n, a)", "sep(out_n, out)"],
   ["deref(out_n) == old(cnt_gt(a, x, n))", "forall(k, 0, n, implies(x < old(a[k]), old(cnt_gt(a, x, k)) < old(cnt_gt(a, x, n)) and out[old(cnt_gt(a, x, k))] == k))"],
   ["out[0:n]", "deref(out_n)"], cases=INOUT,
   inv=["_i2 == old(cnt_gt(a, x, _i)) and 0 <= _i2 and _i2 <= _i", "forall(k, 0, _i, implies(x < old(a[k]), old(cnt_gt(a, x, k)) < _i2 and 0 <= old(cnt_gt(a, x, k)) and out[old(cnt_gt(a, x, k))] == k))"], props=["C03"])
fn("sp_times_extract_in_range", "a n lo hi out out_n", ["valid(a, n)", "valid(out, n)", "valid(out_n)", "sep(out_n, a)", "sep(out_n, out)"],
   ["deref(out_n) == old(cnt_in(a, lo, hi, n))", "forall(k, 0, n, implies(lo <= old(a[k]) and old(a[k]) <= hi, old(cnt_in(a, lo, hi, k)) < old(cnt_in(a, lo, hi, n)) and out[old(cnt_in(a, lo, hi, k))] == old(a[k])))"],
   ["out[0:n]", "deref(out_n)"], cases=INOUT,
   inv=["_i2 == old(cnt_in(a, lo, hi, _i)) and 0 <= _i2 and _i2 <= _i",
        "forall(k, 0, _i, implies(lo <= old(a[k]) and old(a[k]) <= hi, 0 <= old(cnt_in(a, lo, hi, k)) and old(cnt_in(a, lo, hi, k)) < _i2 and out[old(cnt_in(a, lo, hi, k))] == old(a[k])))"], props=["C03"])
fn("sp_times_remove", "a n index count out", ["index < n", "index + count <= n", "valid(a, n)", "valid(out, n - count)", "sep(a, out)"],
   ["forall(k, 0, index, out[k] == a[k])", "forall(k, index, n - count, out[k] == a[k + count])"], ["out[0:n - count]"], props=["C03"])
fn("sp_times_insert_space", "a n index count out", ["index <= n", "n + count < 4294967296", "valid(a, n)", "valid(out, n + count)", "sep(a, out)"],
   ["forall(k, 0, index, out[k] == a[k])", "forall(k, index, n, out[k + count] == a[k])"], ["out[0:index]", "out[index + count:n + count]"], props=["C03"])
fn("sp_times_subdivide_difference", "a n index count out", ["n >= 2", "index < n - 1", "n + count < 4294967295", "a[index] < a[index + 1]", "valid(a, n)", "valid(out, n + count)", "sep(a, out)"],
   ["forall(k, 0, index + 1, out[k] == a[k])", "forall(k, index + 1, n, out[k + count] == a[k])",
    "forall(k, index + 1, index + count + 1, out[k] == a[index] + (k - index) * ((a[index + 1] - a[index]) // (count + 1)))"], ["out[0:n + count]"], props=["C03"])
fn("sp_times_shuffle_swap", "a i j", ["valid(cast('sp_time_t**', a), i + 1)", "valid(cast('sp_time_t**', a), j + 1)"],
   ["cast('sp_time_t**', a)[i] == old(cast('sp_time_t**', a)[j])", "cast('sp_time_t**', a)[j] == old(cast('sp_time_t**', a)[i])"], ["cast('sp_time_t**', a)[i]", "cast('sp_time_t**', a)[j]"], props=["C03"])
for nm, lt, T in (("sp_times_constant", "u32", "times"), ):
    fn(nm, "n value out", ["valid(out)"], ["implies(result.id == 0, fresh(deref(out), n) and forall(k, 0, n, deref(out)[k] == value))", "implies(result.id != 0, deref(out) == old(deref(out)))"],
       ["deref(out)"], allocs=["deref(out)"], modular=False, props=["C03"])

# C05
fn("sph_f64_sum", "a n", ["n > 0", "valid(a, n)"], ["result == rsum(a, n)"], fmode="R", inv=["_f + _f2 + rsum(a, _i) == rsum(a, n)", "_f + _f2 == rsum(a, _i)", "_f == rsum(a, _i)"], props=["C02"])
fn("sp_samples_scale_y", "a n target", ["valid(a, n)"], ["forall(k, 0, n, a[k] == old(a[k]) * (target / old(smaxabs(a, n))))"], ["a[0:n]"], props=["C05"])
fn("sp_times_scale_y", "a n target out", ["valid(a, n)", "valid(out, n)"], ["forall(k, 0, n, out[k] == round_u32(old(a[k]) * (target / f(old(umaxabs(a, n))))))"], ["out[0:n]"], cases=INOUT, props=["C05"])
fn("sp_times_scale_sum", "a n target out", ["valid(a, n)", "valid(out, n)"], ["forall(k, 0, n, out[k] == round_u32(old(a[k]) * (f(target) / f(old(usum(a, n))))))"], ["out[0:n]"], cases=INOUT, props=["C05"])
fn("sp_samples_scale_sum", "a n target out", ["n > 0", "valid(a, n)", "valid(out, n)"], ["forall(k, 0, n, out[k] == old(a[k]) * (target / old(rsum(a, n))))"], ["out[0:n]"], fmode="R", cases=INOUT, props=["C05"])
fn("sp_samples_set_gain", "a n amp", ["valid(a, n)"],
   ["implies(amp == 0.0 or old(smaxabs(a, n)) == 0.0, forall(k, 0, n, a[k] == old(a[k])))",
    "implies(amp != 0.0 and old(smaxabs(a, n)) != 0.0, forall(k, 0, n, a[k] == old(a[k]) * (amp / old(smaxabs(a, n)))))"], ["a[0:n]"], fmode="R", props=["C05"])
fn("sp_samples_set_unity_gain", "a b n", ["valid(a, n)", "valid(b, n)"],
   ["implies(old(smaxabs(b, n)) == 0.0 or old(smaxabs(a, n)) == 0.0, forall(k, 0, n, a[k] == old(a[k])))",
    "implies(old(smaxabs(b, n)) != 0.0 and old(smaxabs(a, n)) != 0.0, forall(k, 0, n, a[k] == old(a[k]) * (old(smaxabs(b, n)) / old(smaxabs(a, n)))))"], ["a[0:n]"], fmode="R", cases=["sep(a, b)", "alias b=a"], props=["C05"])
rec("rsum(a:double[], n:int)", "double", "0.0 if n <= 0 else rsum(a, n - 1) + a[n - 1]")
AB = [["sep(a, b, out)"], ["alias out=a", "sep(a, b)"], ["alias out=b", "sep(a, b)"]]
fn("sp_samples_blend", "a b t n out", ["valid(a, n)", "valid(b, n)", "valid(out, n)"], ["forall(k, 0, n, out[k] == lerp(old(a[k]), old(b[k]), t))"], ["out[0:n]"], cases=AB, props=["C05"])
fn("sp_times_blend", "a b t n out", ["valid(a, n)", "valid(b, n)", "valid(out, n)"], ["forall(k, 0, n, out[k] == round_u32(f(u32(0.5 + lerp(f(old(a[k])), f(old(b[k])), t)))))"], ["out[0:n]"], cases=AB, props=["C05"])
fn("sp_times_mask", "a b t n out", ["valid(a, n)", "valid(b, n)", "valid(t, n)", "valid(out, n)", "sep(t, a)", "sep(t, b)", "sep(t, out)"],
   ["forall(k, 0, n, out[k] == round_u32(f(u32(0.5 + lerp(f(old(a[k])), f(old(b[k])), t[k])))))"], ["out[0:n]"], cases=AB, props=["C05"])
fn("sp_samples_to_units", "a n", ["valid(a, n)"], ["forall(k, 0, n, a[k] == (old(a[k]) + 1) / 2)"], ["a[0:n]"], props=["C01"])
fn("sp_times_to_samples", "a n out", ["valid(a, n)", "valid(out, n)", "sep(a, out)"], ["forall(k, 0, n, out[k] == f(a[k]))"], ["out[0:n]"], props=["C01"])
fn("sp_samples_to_times", "a n out", ["valid(a, n)", "valid(out, n)", "sep(a, out)"], ["forall(k, 0, n, out[k] == round_u32(a[k]))"], ["out[0:n]"], props=["C01"])

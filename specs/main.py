"""main.c: waveforms, phase, pan, convolution, FFT wrappers, spectral operations, blocks, combinatorics"""
from reg import fn, macro, rec

# ---------------------------------------------------------------- C09 wavetable oscillator
rec("PHC(frq:int, w:int, p:int, k:int)", "u32", "p if k <= 0 else u32(PHC(frq, w, p, k - 1) + frq) % w")
rec("PHM(fm:u32[], w:int, p:int, k:int)", "u32", "p if k <= 0 else u32(PHM(fm, w, p, k - 1) + fm[k - 1]) % w")
macro("PH(frq, fm, w, p, k)", "PHM(fm, w, p, k) if fm != NULL else PHC(frq, w, p, k)")
macro("P0(phs)", "deref(phs) if phs != NULL else 0")
W = "PH(frq, fmod, w, old(P0(phs)), {})"
def wave(name, params, wvf, w, reqs, **k):
    ph = W.replace("w,", w + ",")
    fn(name, params, [*reqs, f"{w} > 0", f"valid({wvf}, {w})", "amod == NULL or valid(amod, n)", "fmod == NULL or valid(fmod, n)", "phs == NULL or valid(phs)", "valid(out, n)",
        f"sep(out, {wvf})", "sep(out, amod)", "fmod == NULL or sep(fmod, phs)", f"P0(phs) < {w}"],
       [f"forall(k, 0, n, out[k] == old(out[k]) + amp * (amod[k] if amod != NULL else amp) * {wvf}[{ph.format('k')}])",
        f"implies(phs != NULL, deref(phs) == {ph.format('n')})", f"implies(phs != NULL, deref(phs) < {w})"], ["out[0:n]", "deref(phs)"],
       inv=[f"_i2 == {ph.format('_i')} and _i2 < {w}"] if name == "sp_wave" else [],
       cases=[["null fmod"], ["valid(fmod, n)", "valid(phs)"], ["null phs", "valid(fmod, n)"]] if name == "sp_wave" else None, props=["C09"], **k)
wave("sp_wave", "n wvf w amp amod frq fmod phs out", "wvf", "w", [])
wave("sp_sine", "n amp amod frq fmod phs out", "g.sp_sine_table", "g.sp_rate", [], )
wave("sp_sine_lfo", "n amp amod frq fmod phs out", "g.sp_sine_table_lfo", "(g.sp_rate * g.sp_sine_lfo_factor)", ["g.sp_rate * g.sp_sine_lfo_factor < 4294967296"])
fn("sp_sine_period", "n out", ["valid(out, n)"], ["forall(k, 0, n, out[k] == sin(k * (3.141592653589793 / (n / 2.0))))"], ["out[0:n]"], props=["C09"])
fn("h_phase_const", "frq w p j n", ["w > 0", "p < w", "j + n < 4294967296"], ["forall(k, 0, n + 1, PHC(frq, w, PHC(frq, w, p, j), k) == PHC(frq, w, p, j + k))"], [], props=["C09"])
fn("h_phase_mod", "fm w p j n", ["w > 0", "p < w", "j + n < 4294967296", "valid(fm, j + n)"], ["forall(k, 0, n + 1, PHM(fm + j, w, PHM(fm, w, p, j), k) == PHM(fm, w, p, j + k))"], [], props=["C09"])
for m, fr, ph in (("const", "frq", "PHC(frq, w, old(deref(phs)), {})"), ("mod", "fmod", "PHM(fmod, w, old(deref(phs)), {})")):
    fn(f"h_wave_split_{m}", f"n1 n2 wvf w amp amod {fr} phs out", ["w > 0", "n1 + n2 < 4294967296", "valid(wvf, w)", "amod == NULL or valid(amod, n1 + n2)", "valid(phs)", "valid(out, n1 + n2)",
        "sep(out, wvf)", "sep(out, amod)", "deref(phs) < w"] + (["valid(fmod, n1 + n2)", "sep(fmod, phs)"] if m == "mod" else []),
       [f"forall(k, 0, n1 + n2, out[k] == old(out[k]) + amp * (amod[k] if amod != NULL else amp) * wvf[{ph.format('k')}])", f"deref(phs) == {ph.format('n1 + n2')}"], ["out[0:n1 + n2]", "deref(phs)"],
       note="lemma over the contract of sp_wave: two blocks render what one call renders", props=["C09"])

# ---------------------------------------------------------------- C10 phase and closed form waveforms
fn("sp_phase", "cur change cycle", ["cycle > 0"], ["result == u32(cur + change) % cycle"], [], props=["C10"])
fn("sp_phase_float", "cur change cycle", ["cycle > 0", "change >= 0", "change <= 4294967295"], ["exists(c, 0, 4294967296, change <= f(c) and f(c) < change + 1 and result == u32(cur + c) % cycle)"], [], fmode="R", props=["C10"])
fn("sp_triangle", "t a b", ["a + b > 0", "a + b < 4294967296"],
   ["result == (f(t % (a + b)) / f(a) if t % (a + b) < a else (f(b) - (f(t % (a + b)) - f(a))) / f(b))", "0 <= result and result <= 1"], [], fmode="R", props=["C10"])
fn("sp_square", "t size", ["size > 0"], ["result == (-1.0 if 2 * (t % size) < size else 1.0)"], [], props=["C10"])
# ---------------------------------------------------------------- C11 pan
fn("sp_pan_to_amp", "v ch", [],
   ["implies(ch % 2 == 1, result == (0.0 if v < f(ch - 1) else (1.0 if v > f(ch) - 0.5 else 2 * (v - f(ch - 1)))))",
    "implies(ch % 2 == 0, result == (1.0 if v < f(ch) + 0.5 else (0.0 if v > f(ch + 1) else 2 * (f(ch + 1) - v))))", "0 <= result and result <= 1"], [], fmode="R", props=["C11"])
# ---------------------------------------------------------------- C12 convolution
rec("CV(o:double, a:double[], b:double[], bl:int, k:int, n:int)", "double",
    "o if n <= 0 or n <= k - bl + 1 else (CV(o, a, b, bl, k, n - 1) + a[n - 1] * b[k - n + 1] if 0 <= k - n + 1 else CV(o, a, b, bl, k, n - 1))")
fn("sp_convolve_one", "a al b bl out", ["bl > 0", "al > 0", "al + bl <= 4294967296", "valid(a, al)", "valid(b, bl)", "valid(out, al + bl - 1)", "sep(out, a)", "sep(out, b)"],
   ["forall(k, 0, al + bl - 1, out[k] == CV(old(out[k]), a, b, bl, k, al))"], ["out[0:al + bl - 1]"],
   inv=["forall(k, 0, al + bl - 1, out[k] == CV(old(out[k]), a, b, bl, k, _i))",
        "forall(k, 0, _o + _i, out[k] == CV(old(out[k]), a, b, bl, k, _o + 1))", "forall(k, _o + _i, al + bl - 1, out[k] == CV(old(out[k]), a, b, bl, k, _o))"], auto=False, props=["C12"])
macro("C0(c, cl, k)", "c[k] if k < cl else 0.0")
fn("sp_convolve", "a al b bl cl c out", ["bl > 0", "al > 0", "al + bl <= 4294967296", "cl + al <= 4294967296", "valid(a, al)", "valid(b, bl)", "valid(out, al)", "valid(c, max(cl, bl - 1))",
    "cl <= bl - 1", "forall(k, cl, bl - 1, c[k] == 0.0)", "sep(out, a)", "sep(out, b)", "sep(out, c)", "sep(c, a)", "sep(c, b)"],
   ["forall(k, 0, al, out[k] == CV(old(C0(c, cl, k)), a, b, bl, k, al))", "forall(k, 0, bl - 1, c[k] == CV(old(C0(c, cl, k + al)), a, b, bl, k + al, al))"], ["out[0:al]", "c[0:bl - 1]"],
   inv=["forall(k, 0, al, out[k] == CV(old(C0(c, cl, k)), a, b, bl, k, _i))", "forall(k, 0, bl - 1, c[k] == CV(old(C0(c, cl, k + al)), a, b, bl, k + al, _i))",
        "forall(k, 0, al, out[k] == (CV(old(C0(c, cl, k)), a, b, bl, k, _o + 1) if k < _o + _i else CV(old(C0(c, cl, k)), a, b, bl, k, _o)))",
        "forall(k, 0, bl - 1, c[k] == (CV(old(C0(c, cl, k + al)), a, b, bl, k + al, _o + 1) if k + al < _o + _i else CV(old(C0(c, cl, k + al)), a, b, bl, k + al, _o)))"],
   cases=[["cl == 0", "al < bl"], ["cl == 0", "bl <= al"], ["0 < cl", "cl <= al", "al < bl"], ["0 < cl", "cl <= al", "bl <= al"], ["al < cl"]], auto=False, props=["C12"])
LR = ["bl > 0", "n1 > 0", "n2 > 0", "n1 + n2 + bl <= 4294967296", "valid(a, n1 + n2)", "valid(b, bl)"]
fn("h_conv_shift", "a n1 n2 b bl", LR, ["forall(k, 0, n2 + bl, CV(CV(0.0, a, b, bl, n1 + k, n1), a + n1, b, bl, k, n2) == CV(0.0, a, b, bl, n1 + k, n1 + n2))"], [],
   inv=["forall(k, 0, n2 + bl, CV(CV(0.0, a, b, bl, n1 + k, n1), a + n1, b, bl, k, _i) == CV(0.0, a, b, bl, n1 + k, n1 + _i))"], auto=False, props=["C12"])
fn("h_conv_done", "a n1 n2 b bl", LR, ["forall(k, 0, n1, CV(0.0, a, b, bl, k, n1 + n2) == CV(0.0, a, b, bl, k, n1))", "forall(k, n1 + bl - 1, n1 + n2 + bl, CV(0.0, a, b, bl, k, n1) == 0.0)"], [],
   inv=["forall(k, 0, n1, CV(0.0, a, b, bl, k, n1 + _i) == CV(0.0, a, b, bl, k, n1))"], auto=False, props=["C12"])
fn("h_convolve_split", "a n1 n2 b bl c out", [*LR, "valid(c, bl - 1)", "valid(out, n1 + n2)", "forall(k, 0, bl - 1, c[k] == 0.0)", "sep(out, a)", "sep(out, b)", "sep(out, c)", "sep(c, a)", "sep(c, b)"],
   ["forall(k, 0, n1 + n2, out[k] == CV(0.0, a, b, bl, k, n1 + n2))", "forall(k, 0, bl - 1, c[k] == CV(0.0, a, b, bl, k + n1 + n2, n1 + n2))"], ["out[0:n1 + n2]", "c[0:bl - 1]"],
   note="lemma over the contract of sp_convolve: a stream convolved in two segments equals one convolution", props=["C12"])
# ---------------------------------------------------------------- C32 blocks and interleaving
CC = [["set a.channel_count=0"], ["set a.channel_count=1"], ["set a.channel_count=2"]]
macro("vblock(a)", "implies(a.channel_count > 0, valid(a.samples[0], a.size)) and implies(a.channel_count > 1, valid(a.samples[1], a.size) and sep(a.samples[0], a.samples[1]))")
BR_ = lambda b: [f"{b}.samples[{c}][0:(a.size if a.channel_count > {c} else 0)]" for c in (0, 1)]
fn("sp_block_zero", "a", ["vblock(a)", "a.channel_count <= 2"], [f"implies(a.channel_count > {c}, forall(k, 0, a.size, a.samples[{c}][k] == 0.0))" for c in (0, 1)], BR_("a"), cases=CC, props=["C32"])
fn("sp_block_copy", "a b", ["vblock(a)", "a.channel_count <= 2", "a.channel_count <= b.channel_count", "implies(a.channel_count > 0, valid(b.samples[0], a.size))", "implies(a.channel_count > 1, valid(b.samples[1], a.size) and sep(b.samples[0], b.samples[1]))",
    *[f"implies(a.channel_count > {max(i, j)}, sep(a.samples[{i}], b.samples[{j}]))" for i in (0, 1) for j in (0, 1)]],
   [f"implies(a.channel_count > {c}, forall(k, 0, a.size, b.samples[{c}][k] == old(a.samples[{c}][k])))" for c in (0, 1)], BR_("b"), cases=CC, props=["C32"])
fn("sp_block_with_offset", "a offset", [f"implies(a.channel_count > {c}, valid(a.samples[{c}], offset))" for c in (0, 1)] + ["a.channel_count <= 2"],
   ["result.size == a.size and result.channel_count == a.channel_count"] + [f"implies(a.channel_count > {c}, result.samples[{c}] == a.samples[{c}] + offset)" for c in (0, 1)], [], cases=CC, props=["C32"])
fn("sp_block_free", "a", ["valid(a)"] + [f"implies(a.size > 0 and a.channel_count > {c}, block(a.samples[{c}]) and sep(a, a.samples[{c}]))" for c in (0, 1)] + ["implies(a.size > 0 and a.channel_count > 1, sep(a.samples[0], a.samples[1]))", "a.channel_count <= 2"],
   [f"implies(a.size > 0 and a.channel_count > {c}, not alive(a.samples[{c}]))" for c in (0, 1)], [], frees=[f"a.samples[{c}] if a.size > 0 and a.channel_count > {c} else NULL" for c in (0, 1)], modular=False, cases=CC, props=["C32"])
C12_ = [["set channel_count=1"], ["set channel_count=2"]]
fn("sp_block_new", "channel_count size out", ["valid(out)", "1 <= channel_count", "channel_count <= 2"],
   ["implies(result.id == 0, out.size == size and out.channel_count == channel_count)"]
   + [f"implies(result.id == 0 and channel_count > {c}, fresh(out.samples[{c}], size) and forall(k, 0, size, out.samples[{c}][k] == 0.0))" for c in (0, 1)]
   + ["implies(result.id == 0 and channel_count > 1, sep(out.samples[0], out.samples[1]))"],
   ["out.samples[0:channel_count]", "out.size", "out.channel_count"], allocs=[f"out.samples[{c}] if result.id == 0 and channel_count > {c} else NULL" for c in (0, 1)], modular=False, cases=C12_, props=["C32"])
for nm in ("sp_interleave", "sp_deinterleave"):
    dl = nm == "sp_deinterleave"
    fn(nm, "a b n channel_count", ["1 <= channel_count", "channel_count <= 2", "n * channel_count < 4294967296", "valid(a, channel_count)", "valid(b, n * channel_count)"]
       + [x for c in (0, 1) for x in (f"implies(channel_count > {c}, valid(a[{c}], n))", f"implies(channel_count > {c}, sep(a[{c}], b))")] + (["implies(channel_count > 1, sep(a[0], a[1]))"] if dl else []),
       [f"implies(channel_count > {c}, forall(k, 0, n, {f'a[{c}][k] == b[k * channel_count + {c}]' if dl else f'b[k * channel_count + {c}] == a[{c}][k]'}))" for c in (0, 1)],
       [f"a[{c}][0:(n if channel_count > {c} else 0)]" for c in (0, 1)] if dl else ["b[0:n * channel_count]"],
       inv=["_i == _i2 * channel_count"] + [f"implies(channel_count > {c}, forall(k, _i, n, {f'a[{c}][k] == b[k * channel_count + {c}]' if dl else f'b[k * channel_count + {c}] == a[{c}][k]'}))" for c in (0, 1)], cases=C12_, auto=False, props=["C32"])
# ---------------------------------------------------------------- C14 windowed sinc impulse responses
P14 = ["C14"]
PI = "3.141592653589793"
macro("SINC(x)", f"1.0 if feq(x, 0.0) else sin({PI} * x) / ({PI} * x)")
macro("BLACKMAN(x, w)", f"(0.42 - 0.5 * cos((2.0 * {PI} * x) / f(w - 1))) + 0.08 * cos((4.0 * {PI} * x) / f(w - 1))")
fn("sp_sinc", "a", [], ["result == SINC(a)"], [], props=P14)
fn("sp_window_blackman", "a width", ["width > 0"], ["result == BLACKMAN(a, width)"], [], props=P14)
fn("sp_spectral_inversion_ir", "a n", ["n > 0", "valid(a, n)"], ["forall(k, 0, n, a[k] == (-old(a[k]) + 1 if k == (n - 1) // 2 else -old(a[k])))"], ["a[0:n]"], inv=["forall(k, 0, n, a[k] == (-old(a[k]) if k < _i else old(a[k])))"], props=P14)
fn("sp_spectral_reversal_ir", "a n", ["n % 2 == 1", "valid(a, n)"], ["forall(k, 0, n, a[k] == (-old(a[k]) if k % 2 == 1 else old(a[k])))"], ["a[0:n]"],
   inv=["1 <= _i and _i <= n and _i % 2 == 1", "forall(k, 0, n, a[k] == (-old(a[k]) if (k % 2 == 1 and k >= _i) else old(a[k])))"], props=P14)
macro("CEIL4(t)", "u32(ceil(4.0 / t))")
rec("LENT(t:double)", "u32", "CEIL4(t) + (1 if CEIL4(t) % 2 == 0 else 0)")
TR = lambda t: [f"0.0 < {t}", f"4.0 / {t} <= 4294967294.0"]
fn("sp_windowed_sinc_lp_hp_ir_length", "t", TR("t"), ["result == LENT(t)", "result % 2 == 1", "4.0 / t <= f(result)", "f(result) < 4.0 / t + 2.0"], [], fmode="R", props=P14)
OUT2 = ["valid(out)", "valid(n)", "sep(out, n)"]
AL = dict(allocs=["deref(out) if result.id == 0 else NULL"], props=P14)
fn("sp_null_ir", "out n", OUT2, ["deref(n) == 1", "implies(result.id == 0, fresh(deref(out), 1) and deref(out)[0] == 0.0)", "implies(result.id != 0, deref(out) == old(deref(out)))"], ["deref(out)", "deref(n)"], **AL)
fn("sp_passthrough_ir", "out n", OUT2, ["implies(result.id == 0, fresh(deref(out), 1) and deref(out)[0] == 1.0 and deref(n) == 1)", "implies(result.id != 0, deref(out) == old(deref(out)))"], ["deref(out)", "deref(n)"], **AL)
rec("WS(c:double, l:int, k:int)", "double", "BLACKMAN(f(k), l) * SINC(2.0 * c * (f(k) - (f(l) - 1.0) / 2.0))")
rec("WSUM(c:double, l:int, n:int)", "double", "0.0 if n <= 0 else WSUM(c, l, n - 1) + WS(c, l, n - 1)")
macro("LP(c, l, k)", "WS(c, l, k) / WSUM(c, l, l)")
macro("HP(c, l, k)", "(1.0 if k == (l - 1) // 2 else 0.0) - LP(c, l, k)")
macro("SI(c, l, h, k)", "HP(c, l, k) if h else LP(c, l, k)")
fn("sp_windowed_sinc_lp_hp_ir", "c t h out n", TR("t") + OUT2,
   ["LENT(t) % 2 == 1", "implies(result.id == 0, fresh(deref(out), LENT(t)) and deref(n) == LENT(t) and forall(k, 0, LENT(t), deref(out)[k] == SI(c, LENT(t), h, k)))", "implies(result.id != 0, deref(out) == old(deref(out)))"],
   ["deref(out)", "deref(n)"], fmode="R", inv=["rsum(_q, _i) == WSUM(c, _u, _i)", "forall(k, 0, _i, _q[k] == WS(c, _u, k))", "forall(k, 0, _u, _q[k] == (LP(c, _u, k) if k < _i else WS(c, _u, k)))"], auto=False, opts={"frame": ["rsum"]}, **AL)
rec("BP(c1:double, l1:int, c2:double, l2:int, k:int, n:int)", "double",
    "0.0 if n <= 0 or n <= k - l2 + 1 else (BP(c1, l1, c2, l2, k, n - 1) + (LP(c1, l1, n - 1)) * (HP(c2, l2, k - n + 1)) if 0 <= k - n + 1 else BP(c1, l1, c2, l2, k, n - 1))")
fn("h_bp", "a al b bl c1 c2", ["al > 0", "bl > 0", "al + bl <= 4294967296", "valid(a, al)", "valid(b, bl)", "forall(k, 0, al, a[k] == LP(c1, al, k))", "forall(k, 0, bl, b[k] == HP(c2, bl, k))"],
   ["forall(k, 0, al + bl - 1, CV(0.0, a, b, bl, k, al) == BP(c1, al, c2, bl, k, al))"], [], inv=["forall(k, 0, al + bl - 1, CV(0.0, a, b, bl, k, _i) == BP(c1, al, c2, bl, k, _i))"], auto=False, props=P14)
macro("BRA(k, i)", "LP(cl, LENT(tl), k) + (HP(ch, LENT(th), k - (LENT(tl) - LENT(th)) // 2) if (LENT(tl) - LENT(th)) // 2 <= k and k < i else 0.0)")     # the shorter response is added in the centre of the longer
macro("BRB(k, i)", "HP(ch, LENT(th), k) + (LP(cl, LENT(tl), k - (LENT(th) - LENT(tl)) // 2) if (LENT(th) - LENT(tl)) // 2 <= k and k < i else 0.0)")
ONE = lambda c, t, h: f"fresh(deref(out), LENT({t})) and deref(n) == LENT({t}) and forall(k, 0, LENT({t}), deref(out)[k] == {h}({c}, LENT({t}), k))"
BRC = {("r != 0", "cl <= 0.0", "0.5 <= ch"): "fresh(deref(out), 1) and deref(n) == 1 and deref(out)[0] == 0.0",
       ("r != 0", "cl <= 0.0", "ch < 0.5"): ONE("ch", "th", "HP"), ("r != 0", "0.0 < cl", "0.5 <= ch"): ONE("cl", "tl", "LP"),
       ("r != 0", "0.0 < cl", "ch < 0.5", "LENT(th) < LENT(tl)"): "fresh(deref(out), LENT(tl)) and deref(n) == LENT(tl) and forall(k, 0, LENT(tl), deref(out)[k] == BRA(k, (LENT(tl) + LENT(th)) // 2))",
       ("r != 0", "0.0 < cl", "ch < 0.5", "LENT(tl) <= LENT(th)"): "fresh(deref(out), LENT(th)) and deref(n) == LENT(th) and forall(k, 0, LENT(th), deref(out)[k] == BRB(k, (LENT(tl) + LENT(th)) // 2))",
       ("r == 0", "cl <= 0.0", "0.5 <= ch"): "fresh(deref(out), 1) and deref(n) == 1 and deref(out)[0] == 1.0",
       ("r == 0", "cl <= 0.0", "ch < 0.5"): ONE("ch", "th", "LP"), ("r == 0", "0.0 < cl", "0.5 <= ch"): ONE("cl", "tl", "HP"),
       ("r == 0", "0.0 < cl", "ch < 0.5"): "fresh(deref(out), LENT(th) + LENT(tl) - 1) and deref(n) == LENT(th) + LENT(tl) - 1 and forall(k, 0, LENT(th) + LENT(tl) - 1, deref(out)[k] == BP(ch, LENT(th), cl, LENT(tl), k, LENT(th)))"}
fn("sp_windowed_sinc_bp_br_ir", "cl ch tl th r out n", TR("tl") + TR("th") + OUT2 + ["LENT(tl) + LENT(th) <= 4294967295"],
   ["implies(result.id == 0, fresh(deref(out), deref(n)))"] + [f"implies(result.id == 0 and {' and '.join(c)}, {e})" for c, e in BRC.items()] + ["implies(result.id != 0, deref(out) == old(deref(out)))"],
   ["deref(out)", "deref(n)"], fmode="R", cases=[list(c) for c in BRC], inv=["forall(k, 0, deref(n), _q[k] == BRA(k, _i))", "forall(k, 0, deref(n), _q[k] == BRB(k, _i))"], auto=False, opts={"opaque": ["LENT", "WS", "WSUM", "BP"], "ghost_after": {"sp_convolve_one": ("h_bp", ["c_a", "c_al", "c_b", "c_bl", "ch", "cl"])}}, **AL)
# ---------------------------------------------------------------- C15 moving average
# the signal extended to both sides (the neighbouring segments, or reflected and negated), summed from -r
rec("MSX(a:double[], p:double[], hp:int, q:double[], hq:int, n:int, r:int, k:int)", "double",
    "0.0 if k <= 0 else MSX(a, p, hp, q, hq, n, r, k - 1) + (a[k - 1 - r] if r < k and k - 1 - r < n else ((p[n + k - 1 - r] if hp == 1 else -a[r - k + 1]) if k <= r else (q[k - 1 - r - n] if hq == 1 else -a[2 * (n - 1) - (k - 1 - r)])))")
macro("MS(k)", "MSX(a, p, 1 if p != NULL else 0, q, 1 if q != NULL else 0, n, r, k)")
MA = ["2 * r + 1 < n", "n + r < 4294967296", "valid(a, n)", "p == NULL or valid(p, n)", "q == NULL or valid(q, n)"]
fn("h_ma_center", "a p q n r", MA, ["implies(p == NULL, MS(2 * r + 1) == a[0])"], [], fmode="R", inv=["implies(p == NULL, MS(r + _i + 1) - MS(r - _i) == a[0])"], auto=False, props=["C15"])
fn("sp_moving_average", "a n p q r out", MA + ["valid(out, n)", "sep(out, a)", "sep(out, p)", "sep(out, q)"],
   ["forall(k, 0, n, out[k] == (MS(k + 2 * r + 1) - MS(k)) / f(2 * r + 1))"], ["out[0:n]"], fmode="R",
   inv=["_i <= r + 1", "_f == MS(r + _i + 1) - MS(r - _i)", "_f == MS(_i + 2 * r) - MS(_i - 1)", "forall(k, 0, _i, out[k] == (MS(k + 2 * r + 1) - MS(k)) / f(2 * r + 1))"],
   cases=[["null p q"], ["null p", "valid(q, n)"], ["valid(p, n)", "null q"], ["valid(p, n)", "valid(q, n)"]], auto=False, opts={"ghost_entry": [("h_ma_center", ["a", "p", "q", "n", "r"])]}, props=["C15"])
# ---------------------------------------------------------------- C30 sorting
for T, V in (("time", "u32"), ("sample", "double")):
    R_ = "forall(i, left, right + 1, forall(j, i, right + 1, a[i] <= a[j]))"
    P0_ = "old(a[left + (right - left) // 2])"
    rec(f"SRT{T[0]}(a:{V}[], k:int, n:int)", "int" if V == "u32" else "double", None, lambda a, k, n: sorted(a(i) for i in range(n))[k])      # the value at position k of the first n elements in order
    fn(f"quicksort#{T}", "less swap a left right", ["0 <= left", "-1 <= right", "right < 4611686018427387904", "valid(a, right + 1)"], [R_, "perm(a, left, right + 1)"], ["a[left:right + 1]"], derived=[f"implies(left == 0, forall(k, 0, right + 1, a[k] == old(SRT{T[0]}(a, k, right + 1))))"],
       fns={"less": f"sp_{T}_sort_less", "swap": f"sp_{T}_sort_swap"}, ptypes={"a": V}, fmode="R" if T == "sample" else "U",
       inv=[f"a[_i] == {P0_} and left <= _i and _i <= right", f"forall(k, left, _i, a[k] <= {P0_})", f"forall(k, _i + 1, right + 1, {P0_} <= a[k])",
            "(_i == left and _i2 == right) or (left < _i and _i2 < right)", "left <= _i and _i <= right + 1", "left - 1 <= _i and _i <= right", "perm(a, left, right + 1)",
            "_i <= _i2 or _i3 < right", "_i <= _i2 or left < _i3", "_i <= _u or _u2 < right", "_u <= _i or start(_i) < right"], auto=False, opts={"decreases": "max(0, right - left + 1)", "instcap": 60}, props=["C30"])
# ---------------------------------------------------------------- C06 powers, factorials
P = ["C06"]
B = dict(auto=False, props=P, levels=(0,), tmo=5, opts={"ring": True, "inv_tmo": 1})
rec("mulu32(x:int, y:int)", "u32", None, lambda x, y: x * y % 2 ** 32)
rec("EX(b:int, e:int)", "u32", "1 if e <= 0 else mulu32(b if e % 2 == 1 else 1, EX(mulu32(b, b), e // 2))", lambda b, e: pow(b, max(0, e), 2 ** 32))
rec("EL(b:int, e:int)", "u32", "1 if e <= 0 else mulu32(EL(b, e - 1), b)", lambda b, e: pow(b, max(0, e), 2 ** 32))
fn("sp_time_expt", "base exp", [], ["result == EX(base, exp)"], [], inv=["mulu32(_i, EX(_i2, _i3)) == EX(base, exp)"], **B)
rec("FA(n:int)", "u32", "1 if n <= 0 else mulu32(n, FA(n - 1))", lambda n: math.factorial(max(0, n)) % 2 ** 32 if n < 40 else 0)
rec("STOP(a:u32[], s:int, i:int, n:int)", "int", "n if i >= n else (i if a[i] < s - 1 else STOP(a, s, i + 1, n))")
fn("sp_time_factorial", "n", [], ["result == FA(n)"], [], inv=["mulu32(_i, FA(_i2)) == FA(n)", "_i == FA(_i2)", "_i == FA(_i2 - 1)", "_i2 <= n", "_i2 <= n + 1"], **B)
fn("sp_set_sequence_max", "s n", [], ["result == (0 if s == 0 else EX(s, n))"], [], **B)
fn("sp_compositions_max", "n", ["n > 0"], ["result == EX(2, n - 1)"], [], **B)
fn("sp_permutations_max", "s n", ["n <= s", "FA(s - n) > 0"], ["result == FA(s) // FA(s - n)"], [], **B)
fn("sp_times_sequence_increment", "a n s", ["s > 0", "valid(a, n)", "forall(k, 0, n, a[k] < s)"], ["forall(k, 0, n, a[k] == old(0 if k < STOP(a, s, 0, n) else a[k] + 1 if k == STOP(a, s, 0, n) else a[k]))"], ["a[0:n]"],
   inv=["old(STOP(a, s, 0, n)) == old(STOP(a, s, _i, n))", "forall(k, 0, _i, a[k] == 0)", "_i <= old(STOP(a, s, 0, n))"], levels=(0,), props=P)
fn("h_square", "p q b", ["mulu32(p, p) == q"], ["mulu32(mulu32(p, b), mulu32(p, b)) == mulu32(mulu32(q, b), b)"], [], **B)
fn("h_expt_square", "b h", [], ["mulu32(EL(b, h), EL(b, h)) == EL(b, 2 * h)", "EL(mulu32(b, b), h) == EL(b, 2 * h)"], [],
   inv=["_i == EL(b, _i3)", "_i2 == EL(b, 2 * _i3)", "_i2 == EL(mulu32(b, b), _i3)", "mulu32(_i, _i) == _i2", "_i <= h"], **B)
fn("h_expt", "b e", [], ["EX(b, e) == EL(b, e)"], [], auto=False, props=P, levels=(0,), opts={"ring": True, "decreases": "e"})

"""sequencer and events: C18-C25, C33. Functions called through pointers are recording functions of harness/lemmas.c"""
from reg import fn, macro, rec
P = ["C25"]
MEM = "memreg2_t"
W = ["valid(a)", "implies(a.memory.data != NULL, block(a.memory.data) and valid(a.memory.data, a.memory.size) and a.memory.used <= a.memory.size)", "sep(a, a.memory.data)", "a.memory.size < 288230376151711744"]
SAMEMEM = ["forall(k, 0, old(a.memory.used), a.memory.data[k].address == old(a.memory.data[k].address) and a.memory.data[k].handler == old(a.memory.data[k].handler))"]
fn("h_handler", "p", ["valid(g.h_log, g.h_log_n + 1)", "sep(g.h_log, addr(g.h_log))", "g.h_log_n < 4294967295"], ["g.h_log_n == old(g.h_log_n) + 1", "g.h_log[old(g.h_log_n)] == p"], ["g.h_log_n", "g.h_log[g.h_log_n]"], props=P)
fn("sp_memory_new", "size a", ["valid(a)", "size < 288230376151711744"], ["result == 0 or result == 1", "implies(result == 0, fresh(a.data, size) and a.size == size and a.used == 0)", "implies(result == 1, a.data == old(a.data) and a.size == old(a.size) and a.used == old(a.used))"],
   ["a.data", "a.size", "a.used"], allocs=["a.data"], modular=False, props=P)
# one registration or none; a failure changes nothing
KEEP = ["implies(result.id != 0, a.memory.data == old(a.memory.data) and a.memory.size == old(a.memory.size))", "implies(result.id != 0, a.memory.used == old(a.memory.used) and a.free == old(a.free))", "implies(result.id != 0, string(result.group, 'sp') and result.id == 8)"]
GROWN = "implies(old(a.memory.data) != NULL, forall(k, 0, old(a.memory.used), a.memory.data[k].address == old(a.memory.data[k].address) and a.memory.data[k].handler == old(a.memory.data[k].handler)))"
FREE = "implies(result.id == 0, a.free == (fnptr(sp_event_memory_free) if old(a.memory.data) == NULL and old(a.free) == NULL else old(a.free)))"
LIVE = "implies(result.id == 0, block(a.memory.data) and valid(a.memory.data, a.memory.size) and a.memory.used <= a.memory.size)"
MA = ["a.memory.data", "a.memory.size", "a.memory.used", "a.free"]
fn("sp_event_memory_add_with_handler", "a address handler", W,
   ["implies(result.id == 0, a.memory.used == (old(a.memory.used) if old(a.memory.data) != NULL else 0) + 1 and a.memory.data[a.memory.used - 1].address == address and a.memory.data[a.memory.used - 1].handler == handler)", GROWN, *KEEP, FREE, LIVE],
   MA + ["a.memory.data[a.memory.used]"], allocs=["a.memory.data"], frees=["a.memory.data"], props=P)
fn("sp_event_memory_ensure", "a additional_size", W,
   ["implies(result.id == 0, a.memory.used == (old(a.memory.used) if old(a.memory.data) != NULL else 0) and a.memory.size >= a.memory.used + additional_size)", GROWN, *KEEP, FREE, LIVE],
   MA, allocs=["a.memory.data"], frees=["a.memory.data"], props=P)
fn("sp_event_memory_fixed_add_with_handler", "a address handler", ["valid(a)", "valid(a.memory.data, a.memory.size)", "a.memory.used < a.memory.size", "sep(a, a.memory.data)"],
   ["a.memory.used == old(a.memory.used) + 1", "a.memory.data[a.memory.used - 1].address == address and a.memory.data[a.memory.used - 1].handler == handler"], ["a.memory.used", "a.memory.data[a.memory.used]"], props=P)
LOG = ["valid(g.h_log, 4294967295)", "sep(g.h_log, addr(g.h_log))"]
fn("sp_event_memory_free", "a", [*W, "implies(a.memory.data != NULL, forall(k, 0, a.memory.used, a.memory.data[k].handler == fnptr(h_handler)))", "g.h_log_n == 0", "valid(g.h_log, a.memory.used)", "a.memory.used < 4294967295", "sep(g.h_log, a.memory.data, addr(g.h_log))", "sep(a, g.h_log)"],
   ["a.memory.data == NULL", "g.h_log_n == (old(a.memory.used) if old(a.memory.data) != NULL else 0)", "implies(old(a.memory.data) != NULL, not alive(old(a.memory.data)) and forall(k, 0, old(a.memory.used), g.h_log[k] == old(a.memory.data[k].address)))"],
   ["a.memory.data", "g.h_log_n", "g.h_log[0:a.memory.used]"], frees=["a.memory.data"], opts={"calls": ["h_handler"]},
   inv=["g.h_log_n == _i", "forall(k, 0, _i, g.h_log[k] == old(a.memory.data[k].address))"], props=P)
# ---------------------------------------------------------------- C21
P = ["C21"]
def gen_steps(h, b):
    b["resolution"] = h.r.randint(1, 9); b["end"] = min(4294967295, b["start"] + h.r.randint(1, 40))
    l = h.glob("h_gen"); h.poke(l[1] + 16, ("int", 32, False), h.r.randint(0, 5))
fn("sp_event_block_generate", "resolution generate start end out event",
   ["resolution > 0", "start < end", "valid(event)", "valid(out.samples[0])", "g.h_gen.res == resolution", "g.h_gen.base == start", "g.h_gen.pos == 0", "g.h_gen.n == 0", "g.h_gen.bad == 0", "g.h_gen.event == event", "g.h_gen.out == out.samples[0]"],
   ["g.h_gen.bad == 0", "implies(result.id == 0, g.h_gen.pos == end - start and (g.h_gen.fail == 0 or g.h_gen.n < g.h_gen.fail))", "implies(result.id != 0, result.id == 77 and string(result.group, 'h') and g.h_gen.n == g.h_gen.fail)"],
   ["g.h_gen"], fns={"generate": "h_generate"}, inv=["g.h_gen.pos == _i", "g.h_gen.bad == 0", "g.h_gen.fail == 0 or g.h_gen.n < g.h_gen.fail", "g.h_gen.n * _u == _i", "g.h_gen.n <= _i", "_i <= prod((end - start) // resolution, resolution)", "prod(g.h_gen.n, resolution) == _i"], cases=[["resolution <= end - start"], ["end - start < resolution"]], gen=gen_steps, opts={"calls": ["h_generate"], "nlax": 1}, props=P)
# ---------------------------------------------------------------- C18
P = ["C18"]
LIST = ["valid(nd, n)", "valid(head)", "sep(nd, head)", "forall(k, 0, n, block(nd[k]) and valid(nd[k]) and sep(nd[k], nd, head))", "forall(k, 0, n, idx(nd[k]) == k)",
        "deref(head) == (NULL if n == 0 else nd[0])", "forall(k, 0, n, nd[k].next == (nd[k + 1] if k + 1 < n else NULL))", "forall(k, 0, n, nd[k].previous == (nd[k - 1] if k > 0 else NULL))"]
LO = {"measures": ["n - idx(_p)"], "order": ["z3n", "z3", "cvc5", "z348"]}
MEMF = ["memory.data", "memory.used", "memory.size"]
EV = ["start", "end", "generate", "prepare", "free", "config"]
PRV = "(nd[at - 1] if at > 0 else NULL)"
NEW = "(deref(head) if at == 0 else nd[at - 1].next)"
ADDW = ["deref(head)", "(nd[at] if at < n else NULL).previous", f"{PRV}.next"]
ADDA = ["deref(head) if result.id == 0 and at == 0 else NULL", f"{PRV}.next if result.id == 0 and at > 0 else NULL"]
fn("h_event_list_add", "nd n at head event", LIST + ["at <= n", "forall(k, 0, at, nd[k].event.start > event.start)", "implies(at < n, nd[at].event.start <= event.start)"],
   ["implies(result.id == 0 and at == 0, fresh(deref(head), 1))", f"implies(result.id == 0 and at > 0, fresh({PRV}.next, 1))", f"implies(result.id == 0, {NEW}.next == (nd[at] if at < n else NULL) and {NEW}.previous == (nd[at - 1] if at > 0 else NULL))",
    *[f"implies(result.id == 0, {NEW}.event.{x} == event.{x})" for x in EV + MEMF],
    f"implies(result.id == 0 and at < n, nd[at].previous == {NEW})",
    "forall(k, 0, n, implies(result.id != 0 or k + 1 != at, nd[k].next == old(nd[k].next)))", "forall(k, 0, n, implies(result.id != 0 or k != at, nd[k].previous == old(nd[k].previous)))", "implies(result.id != 0 or at > 0, deref(head) == old(deref(head)))"],
   ADDW, allocs=ADDA, inv=["_p == nd[idx(_p)] and 0 <= idx(_p) and idx(_p) < at"], opts=LO, levels=(0,), props=P)
ALT = lambda new, old: f"(({new}) if (_p == NULL or k < idx(_p)) else ({old}))"
NX, PV = "nd[k + 1] if k + 1 < n else NULL", "nd[k - 1] if k > 0 else NULL"
fn("h_event_list_reverse", "nd n head", LIST, ["deref(head) == (NULL if n == 0 else nd[n - 1])", f"forall(k, 0, n, nd[k].next == ({PV}))", f"forall(k, 0, n, nd[k].previous == ({NX}))", "forall(k, 0, n, nd[k] == old(nd[k]))", "forall(k, 0, n, nd[k].event.start == old(nd[k].event.start) and nd[k].event.end == old(nd[k].event.end))"], None, auto=False,
   inv=["forall(k, 0, n, nd[k] == old(nd[k]))", "_p == NULL or (_p == nd[idx(_p)] and 0 <= idx(_p) and idx(_p) < n)", f"forall(k, 0, n, nd[k].next == {ALT(PV, NX)})", f"forall(k, 0, n, nd[k].previous == {ALT(NX, PV)})",
        "_p2 == (NULL if n == 0 else nd[n - 1] if _p == NULL else nd[idx(_p) - 1] if idx(_p) > 0 else NULL)"],
   opts=dict(LO, measures=["0 if _p == NULL else n - idx(_p)"]), levels=(0,), modular=False, props=P)
CNT = ["valid(cnt, n)", "sep(cnt, nd, head)", "forall(k, 0, n, sep(nd[k], cnt))", "forall(k, 0, n, (nd[k].event.free == NULL or nd[k].event.free == fnptr(h_event_free)) and nd[k].event.config == cnt + k)"]
fn("h_event_list_remove", "nd n at head cnt", LIST + CNT + ["at < n"],
   ["not alive(old(nd[at]))", "implies(at > 0, deref(head) == old(deref(head)) and nd[at - 1].next == (nd[at + 1] if at + 1 < n else NULL))", "implies(at == 0, deref(head) == (nd[1] if n > 1 else NULL))",
    "implies(at + 1 < n, nd[at + 1].previous == (nd[at - 1] if at > 0 else NULL))", "cnt[at] == u32(old(cnt[at]) + (0 if old(nd[at].event.free) == NULL else 1))"],
   ["deref(head)", "nd[at - 1].next", "nd[at + 1].previous", "cnt[at]"], frees=["nd[at]"], opts=dict(LO, calls=["h_event_free"]), levels=(0,), modular=False, props=P)

fn("h_event_list_free", "nd n head cnt", LIST + CNT + ["forall(k, 0, n, cnt[k] == 0)"], ["forall(k, 0, n, not alive(old(nd[k])))", "deref(head) == NULL", "forall(k, 0, n, cnt[k] == (0 if old(nd[k].event.free) == NULL else 1))", "alive(nd) and alive(cnt) and alive(head)", "forall(k, 0, n, nd[k] == old(nd[k]))"], None, alive="any", auto=False,
   inv=["_p == NULL or (_p == nd[idx(_p)] and 0 <= idx(_p) and idx(_p) < n)", "forall(k, 0, n, alive(nd[k]) == (_p != NULL and k >= idx(_p)))", "alive(nd) and alive(cnt) and alive(head)",
        "forall(k, 0, n, implies(_p == NULL or k < idx(_p), cnt[k] == (0 if old(nd[k].event.free) == NULL else 1)))", "forall(k, 0, n, implies(_p != NULL and k >= idx(_p), cnt[k] == 0))"],
   opts=dict(LO, calls=["h_event_free"], measures=["0 if _p == NULL else n - idx(_p)"]), levels=(0,), modular=False, props=P)
# ---------------------------------------------------------------- C33
P = ["C33"]
C12 = [["set out.channel_count=1"], ["set out.channel_count=2"]]
ch = lambda c: f"out.channel_count > {c}"
MV = ["1 <= out.channel_count and out.channel_count <= 2", "valid(c)", "valid(event)", "event.config == c", "g.h_at < out.size"] + [f"implies({ch(c)}, valid(out.samples[{c}], out.size))" for c in (0, 1)] + ["implies(out.channel_count > 1, sep(out.samples[0], out.samples[1]))", "sep(c, addr(g.h_cg), addr(g.h_cm), event)", "sep(event, addr(g.h_cg), addr(g.h_cm))"] \
    + ["g.h_cg.n == 0 and g.h_cm.n == 0", "c.event.generate == fnptr(h_ev_generate)", "c.map_generate == fnptr(h_map)"]
REC = lambda r, ev: [f"g.{r}.start == start and g.{r}.end == end and g.{r}.size == out.size and g.{r}.channels == out.channel_count and g.{r}.event == {ev}"]
ARGS_G = "g.h_cg.start == start and g.h_cg.end == end and g.h_cg.size == out.size and g.h_cg.channels == out.channel_count and g.h_cg.event == addr(c.event)"
ARGS_M = "g.h_cm.start == start and g.h_cm.end == end and g.h_cm.size == out.size and g.h_cm.channels == out.channel_count and g.h_cm.event == old(c.config)"
SAME = lambda a, b: "(" + " and ".join(f"implies({ch(c)}, {a.format(c)} == {b.format(c)})" for c in (0, 1)) + ")"
STAT = ["implies(g.h_cg.n == 1 and g.h_cg.fail != 0, result.id == 77 and string(result.group, 'h') and g.h_cm.n == 0)", "implies(g.h_cg.n == 1 and g.h_cg.fail == 0, g.h_cm.n == 1 and result.id == (0 if g.h_cm.fail == 0 else 78))"]
OW = ["g.h_cg", "g.h_cm"] + [f"out.samples[{c}][g.h_at:(g.h_at + 1 if {ch(c)} else g.h_at)]" for c in (0, 1)]
fn("h_map_generate", "c start end out event", MV, ["g.h_cg.n == 1", ARGS_G, SAME("g.h_cg.s{0}", "out.samples[{0}]"), SAME("g.h_cg.v{0}", "old(out.samples[{0}][g.h_at])"), *STAT,
   f"implies(g.h_cm.n == 1, {ARGS_M})", f"implies(g.h_cm.n == 1, {SAME('g.h_cm.s{0}', 'out.samples[{0}]')} and {SAME('g.h_cm.i{0}', 'out.samples[{0}]')} and {SAME('g.h_cm.in{0}', 'g.h_cg.set{0}')} and {SAME('out.samples[{0}][g.h_at]', 'g.h_cm.set{0}')})"], OW, cases=C12, opts={"calls": ["h_ev_generate", "h_map"]}, props=P)
fn("h_map_isolated", "c start end out event", MV, ["g.h_cg.n <= 1", "implies(result.id == 0, g.h_cg.n == 1)", f"implies(g.h_cg.n == 1, {ARGS_G})", f"implies(g.h_cg.n == 1, {SAME('g.h_cg.v{0}', '0.0')} and implies(out.channel_count > 0, g.h_cg.s0 != out.samples[0]))", *STAT,
   f"implies(g.h_cm.n == 1, {ARGS_M})", f"implies(g.h_cm.n == 1, {SAME('g.h_cm.s{0}', 'out.samples[{0}]')} and {SAME('g.h_cm.i{0}', 'g.h_cg.s{0}')} and {SAME('g.h_cm.in{0}', 'g.h_cg.set{0}')} and {SAME('g.h_cm.v{0}', 'old(out.samples[{0}][g.h_at])')} and {SAME('out.samples[{0}][g.h_at]', 'g.h_cm.set{0}')})",
   f"implies(g.h_cm.n == 0, {SAME('out.samples[{0}][g.h_at]', 'old(out.samples[{0}][g.h_at])')})"], OW, cases=C12, opts={"calls": ["h_ev_generate", "h_map"], "loop_merge": False, "merge_labels": 60}, props=P)
fn("h_map_prepare", "c event", ["valid(c)", "valid(event)", "event.config == c", "sep(c, event, addr(g.h_prepared))", "sep(event, addr(g.h_prepared))", "c.event.prepare == NULL or c.event.prepare == fnptr(h_prepare)", "g.h_prepared == 0"],
   ["g.h_prepared == (0 if old(c.event.prepare) == NULL else 1)", "result.id == (79 if old(c.event.prepare) != NULL and g.h_prepare_fail != 0 else 0)", "implies(result.id == 0, c.event.prepare == NULL and event.free == fnptr(sp_map_event_free))"], ["c.event.prepare", "event.free", "g.h_prepared"], opts={"calls": ["h_prepare"]}, props=P)
EM = [*[x.replace("a.", "event.").replace("(a)", "(event)").replace("(a,", "(event,") for x in W], "implies(event.memory.data != NULL, forall(k, 0, event.memory.used, event.memory.data[k].handler == fnptr(h_handler)))", "g.h_log_n == 0", "valid(g.h_log, event.memory.used)", "event.memory.used < 4294967295", "sep(g.h_log, event.memory.data, addr(g.h_log))", "sep(event, g.h_log, addr(g.h_log))"]
fn("h_map_free", "c event cnt", ["valid(c)", "valid(event)", "event.config == c", "valid(cnt)", "c.event.config == cnt", "deref(cnt) == 0", "c.event.free == NULL or c.event.free == fnptr(h_event_free)", *EM, "sep(c, event, event.memory.data, g.h_log, addr(g.h_log), cnt)", "sep(cnt, event, event.memory.data, g.h_log, addr(g.h_log))"],
   ["deref(cnt) == (0 if old(c.event.free) == NULL else 1)", "event.free == NULL and event.memory.data == NULL", "g.h_log_n == (old(event.memory.used) if old(event.memory.data) != NULL else 0)", "implies(old(event.memory.data) != NULL, not alive(old(event.memory.data)) and forall(k, 0, old(event.memory.used), g.h_log[k] == old(event.memory.data[k].address)))"],
   ["event.free", "deref(cnt)", "event.memory.data", "g.h_log_n", "g.h_log[0:event.memory.used]"], frees=["event.memory.data"], opts={"calls": ["h_event_free", "h_handler"]}, props=P)
# ---------------------------------------------------------------- C24
P = ["C24"]
def gen_group(nm):
    def g(h, b):
        ct = h.ps[h.names.index(nm)][1]; st = {"int": 0, "dbl": 0}
        a = h.alloc(h.u.sizeof(ct)); h.fill(a, ct, 1, st)
        import conc
        b[nm] = conc.P(a, ct); b["head"] = conc.P(a + h.u.field_byte_off(ct, "config"), h.ps[h.names.index("head")][1])
    return g
GL = ["valid(group)", "head == addr(group.config)"] + LIST
PREP = "(event.end == 0 and event.prepare != NULL)"
GP = ["event.prepare == NULL or event.prepare == fnptr(h_prepare_end)", "g.h_prepared == 0", "sep(addr(g.h_prepared), nd, group)", "forall(k, 0, n, sep(nd[k], addr(g.h_prepared)))"]
EEND = f"(g.h_prepare_to if {PREP} else event.end)"
def GA(shift, end): return [f"g.h_prepared == (1 if {PREP} else 0)", f"implies({PREP} and g.h_prepare_fail != 0, result.id == 79)",
   "implies(result.id == 0 and at == 0, fresh(deref(head), 1))", f"implies(result.id == 0 and at > 0, fresh({PRV}.next, 1))", f"implies(result.id == 0, {NEW}.next == (nd[at] if at < n else NULL) and {NEW}.previous == (nd[at - 1] if at > 0 else NULL))",
   f"implies(result.id == 0, {NEW}.event.start == event.start + {shift})", f"implies(result.id == 0, {NEW}.event.end == {EEND} + {shift})", f"implies(result.id == 0, {NEW}.event.prepare == (NULL if {PREP} else event.prepare))",
   *[f"implies(result.id == 0, {NEW}.event.{x} == event.{x})" for x in ["generate", "free", "config"] + MEMF],
   f"implies(result.id == 0 and at < n, nd[at].previous == {NEW})", f"implies(result.id == 0, group.end == {end})",
   "forall(k, 0, n, implies(result.id != 0 or k + 1 != at, nd[k].next == old(nd[k].next)))", "forall(k, 0, n, implies(result.id != 0 or k != at, nd[k].previous == old(nd[k].previous)))", "implies(result.id != 0 or at > 0, deref(head) == old(deref(head)))"]
GW = [*ADDW, "group.end", "g.h_prepared"]
fn("h_group_add", "nd n at head group event", GL + GP + ["at <= n", "forall(k, 0, at, nd[k].event.start > event.start)", "implies(at < n, nd[at].event.start <= event.start)"],
   GA("0", f"(old(group.end) if old(group.end) >= {EEND} else {EEND})"), GW, allocs=ADDA, opts=dict(LO, calls=["h_prepare_end"], via={"sp_event_list_add": ("h_event_list_add", ["nd", "n", "at", 0, 1])}), levels=(0,), modular=False, tmo=20, cases=[["at == 0"], ["at > 0"]], gen=gen_group("group"), props=P)
fn("h_group_append", "nd n at head group event", GL + GP + ["at <= n", f"event.start + group.end < 4294967296 and {EEND} + group.end < 4294967296", "forall(k, 0, at, nd[k].event.start > event.start + group.end)", "implies(at < n, nd[at].event.start <= event.start + group.end)"],
   GA("old(group.end)", f"{EEND} + old(group.end)"), GW, allocs=ADDA, opts=dict(LO, calls=["h_prepare_end"], via={"sp_event_list_add": ("h_event_list_add", ["nd", "n", "at", 0, 1])}), levels=(0,), modular=False, tmo=20, cases=[["at == 0"], ["at > 0"]], gen=gen_group("group"), props=P)
from reg import FNS
R_ = FNS["h_event_list_reverse"]
fn("h_group_prepare", "nd n head group", GL, R_.ensures + ["result.id == 0", "group.free == fnptr(sp_group_free)"], None, inv=R_.inv, auto=False, opts=R_.opts, levels=(0,), modular=False, gen=gen_group("group"), props=P)
F_ = FNS["h_event_list_free"]
fn("h_group_free", "nd n head event cnt", ["valid(event)", "head == addr(event.config)"] + LIST + CNT + ["forall(k, 0, n, cnt[k] == 0)"] + EM + ["sep(event.memory.data, nd, cnt)", "sep(g.h_log, nd, cnt)", "sep(addr(g.h_log), nd, cnt, event.memory.data)", "sep(nd, cnt, event)", "sep(cnt, event)", "sep(cnt, addr(g.h_log_n))", "forall(k, 0, n, sep(nd[k], event.memory.data, g.h_log, addr(g.h_log)))"],
   F_.ensures + ["event.free == NULL and event.memory.data == NULL", "g.h_log_n == (old(event.memory.used) if old(event.memory.data) != NULL else 0)", "implies(old(event.memory.data) != NULL, not alive(old(event.memory.data)) and forall(k, 0, old(event.memory.used), g.h_log[k] == old(event.memory.data[k].address)))"], None, alive="any", auto=False,
   inv=F_.inv + ["alive(event)", "event.memory.data == NULL or alive(event.memory.data)", "alive(g.h_log)", "g.h_log_n == 0"], opts=dict(F_.opts, calls=["h_event_free", "h_handler"]), levels=(0,), modular=False, gen=gen_group("event"), props=P)

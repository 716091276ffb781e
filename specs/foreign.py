"""bundled helper library: C29 queue, C28 status and memory helpers"""
from reg import fn, macro, rec
P = ["C29"]
fn("sph_queue_init", "a", ["valid(a)"], ["a.size == 0", "a.first == NULL", "a.last == NULL"], ["a.size", "a.first", "a.last"], props=P)
fn("sph_queue_enq", "a node", ["valid(a)", "valid(node)", "sep(a, node)", "(a.first == NULL) == (a.size == 0)", "implies(a.first != NULL, valid(a.last) and sep(a, a.last) and a.last != node)", "a.size < 4294967295"],
   ["a.size == old(a.size) + 1", "a.last == node", "node.next == NULL", "a.first == (node if old(a.first) == NULL else old(a.first))", "implies(old(a.first) != NULL, old(a.last).next == node)"],
   ["a.size", "a.first", "a.last", "node.next", "a.last.next"], modular=False, props=P)
fn("sph_queue_deq", "a", ["valid(a)", "valid(a.first)", "sep(a, a.first)", "a.size > 0"],
   ["result == old(a.first)", "a.first == old(a.first.next)", "a.size == old(a.size) - 1", "a.last == (NULL if old(a.first.next) == NULL else old(a.last))"], ["a.size", "a.first", "a.last"], props=P)
fn("h_queue_history", "q ops n e", ["valid(q)", "valid(ops, n)", "valid(e, n)", "sep(q, e)", "sep(q, ops)", "sep(ops, e)", "n < 2147483648"], ["result == 1"], ["q.size", "q.first", "q.last", "e[0:n]"],
   inv=["_i <= _i2", "q.size == _i - _i2", "q.first == (NULL if _i == _i2 else e + _i2)", "_i == _i2 or q.last == e + (_i - 1)", "forall(k, _i, _i2 - 1, e[k].next == e + (k + 1))", "_i == _i2 or e[_i - 1].next == NULL"],
   note="any sequence of queue operations from an empty queue", props=P)
# ---------------------------------------------------------------- C28
P = ["C28"]
IDS = {"eof": 6, "file_eof": 5, "file_not_implemented": 4, "file_read": 3, "file_write": 2, "input_type": 7, "invalid_argument": 9, "memory": 8, "not_implemented": 10}
GR = ["valid(a.group, 1)"]
def table(names, sph):
    return [f"implies(string(a.group, 'sp') and a.id == {IDS[k]}, string(result, '{v}'))" for k, v in names.items()] + [f"implies(string(a.group, 'sph') and a.id == 1, string(result, '{sph}'))", "result != NULL"]
fn("sp_status_name", "a", GR, table({"eof": "end-of-file", "file_eof": "end-of-file", "file_not_implemented": "not-implemented", "file_read": "invalid-file-read", "file_write": "invalid-file-write", "input_type": "input-type",
   "invalid_argument": "invalid-argument", "memory": "memory", "not_implemented": "not-implemented"}, "memory"), [], props=P)
fn("sp_status_description", "a", GR, table({"eof": "end of file", "file_eof": "end of file", "file_not_implemented": "unsupported format (only 32 bit float supported)", "file_read": "invalid file read", "file_write": "invalid file write",
   "input_type": "input argument is of wrong type", "invalid_argument": "invalid argument", "memory": "memory allocation error", "not_implemented": "not implemented"}, "not enough memory or other memory allocation error"), [], props=P)
fn("sph_helper_status_name", "a", [], ["string(result, 'memory') if a.id == 1 else string(result, 'unknown')"], [], modular=False, props=P)
fn("sph_helper_status_description", "a", [], ["string(result, 'not enough memory or other memory allocation error') if a.id == 1 else string(result, '')"], [], modular=False, props=P)
FAIL = ["implies(result.id != 0, deref(out) == old(deref(out)) and result.id == 1 and string(result.group, 'sph'))"]
for T in ("u32", "double"):
    fn(f"h_malloc_{T}", "n out", ["valid(out)"], ["implies(result.id == 0, fresh(deref(out), n))", *FAIL], ["deref(out)"], allocs=["deref(out)"], modular=False, props=P)
    fn(f"h_calloc_{T}", "n out", ["valid(out)"], ["implies(result.id == 0, fresh(deref(out), n) and forall(k, 0, n, deref(out)[k] == " + ("0.0" if T == "double" else "0") + "))", *FAIL], ["deref(out)"], allocs=["deref(out)"], modular=False, props=P)
fn("sph_helper_primitive_malloc_string", "n out", ["valid(out)", "n < 4294967296"], ["implies(result.id == 0, fresh(deref(out), n + 1) and deref(out)[n] == 0)", *FAIL], ["deref(out)"], allocs=["deref(out)"], modular=False, props=P)
for T, N, Z in (("times", "u32", "0"), ("samples", "double", "0.0")):
    fn(f"sp_{T}_new", "n out", ["valid(out)"], [f"implies(result.id == 0, fresh(deref(out), n) and forall(k, 0, n, deref(out)[k] == {Z}))", *FAIL], ["deref(out)"], allocs=["deref(out)"], modular=False, props=P)
    fn(f"h_realloc_{N}", "n out", ["valid(out)", "block(deref(out))", "valid(deref(out), m)", "sep(out, deref(out))"],
       ["implies(result.id == 0, fresh(deref(out), n) and not alive(old(deref(out))) and forall(k, 0, min(n, m), deref(out)[k] == old(deref(out)[k])))",
        "implies(result.id != 0, alive(deref(out)) and forall(k, 0, m, deref(out)[k] == old(deref(out)[k])))", *FAIL], ["deref(out)"],
       allocs=["deref(out)"], frees=["deref(out) if True else NULL"], opts={"logic_vars": ["m"]}, modular=False, props=P)

/* Ghost code: lemmas over the contracts of the functions in /repo. Nothing of this is part of the library.
   A loop without a body is a proof by induction, its statement is the invariant in /verif/specs. */
typedef uint32_t vt;
void h_phase_const(vt frq, vt w, vt p, vt j, vt n) { for (vt i = 0; i < n; i += 1) { } }
void h_phase_mod(vt* fmod, vt w, vt p, vt j, vt n) { for (vt i = 0; i < n; i += 1) { } }
/* a wave rendered in two blocks */
void h_wave_split_const(vt n1, vt n2, double* wvf, vt w, double amp, double* amod, vt frq, vt* phs, double* out) {
  h_phase_const(frq, w, *phs, n1, n2);
  sp_wave(n1, wvf, w, amp, amod, frq, 0, phs, out);
  sp_wave(n2, wvf, w, amp, (amod ? amod + n1 : 0), frq, 0, phs, out + n1);
}
void h_wave_split_mod(vt n1, vt n2, double* wvf, vt w, double amp, double* amod, vt* fmod, vt* phs, double* out) {
  h_phase_mod(fmod, w, *phs, n1, n2);
  sp_wave(n1, wvf, w, amp, amod, 0, fmod, phs, out);
  sp_wave(n2, wvf, w, amp, (amod ? amod + n1 : 0), 0, fmod + n1, phs, out + n1);
}
/* a stream convolved in two segments */
void h_conv_shift(double* a, vt n1, vt n2, double* b, vt bl) { for (vt i = 0; i < n2; i += 1) { } }
void h_conv_done(double* a, vt n1, vt n2, double* b, vt bl) { for (vt i = 0; i < n2; i += 1) { } }
void h_convolve_split(double* a, vt n1, vt n2, double* b, vt bl, double* c, double* out) {
  h_conv_shift(a, n1, n2, b, bl);
  h_conv_done(a, n1, n2, b, bl);
  sp_convolve(a, n1, b, bl, 0, c, out);
  sp_convolve(a + n1, n2, b, bl, bl - 1, c, out + n1);
}
/* the convolution of a low-pass and a high-pass response, by their formulas */
void h_bp(double* a, vt al, double* b, vt bl, double c1, double c2) { for (vt i = 0; i < al; i += 1) { } }
/* a signal reflected and negated at its start cancels out around it */
void h_ma_center(double* in, double* p, double* q, vt n, vt r) { for (vt i = 0; i < r; i += 1) { } }
/* any sequence of queue operations: entries leave in the order in which they came */
uint8_t h_queue_history(sph_queue_t* q, uint8_t* ops, vt n, sph_queue_node_t* e) {
  vt t = 0;
  vt h = 0;
  sph_queue_init(q);
  for (vt i = 0; i < n; i += 1) {
    if (ops[i]) {
      sph_queue_enq(q, e + t);
      t += 1;
    } else if (q->size) {
      if (sph_queue_deq(q) != e + h) return 0;
      h += 1;
    }
    if (q->size != t - h) return 0;
  }
  return 1;
}
/* the allocation helpers at the types the library uses */
status_t h_malloc_u32(vt n, vt** out) { return sph_helper_malloc((n * sizeof(vt)), out); }
status_t h_malloc_double(vt n, double** out) { return sph_helper_malloc((n * sizeof(double)), out); }
status_t h_calloc_u32(vt n, vt** out) { return sph_helper_calloc((n * sizeof(vt)), out); }
status_t h_calloc_double(vt n, double** out) { return sph_helper_calloc((n * sizeof(double)), out); }
status_t h_realloc_u32(vt n, vt** out) { return sph_helper_realloc((n * sizeof(vt)), out); }
status_t h_realloc_double(vt n, double** out) { return sph_helper_realloc((n * sizeof(double)), out); }
/* functions that record how they are called, for the contracts of functions that call through pointers */
void** h_log;
vt h_log_n;
void h_handler(void* p) {
  h_log[h_log_n] = p;
  h_log_n += 1;
}
/* a generator that accepts consecutive pieces only and fails once, at call number fail */
typedef struct {
  vt res;
  vt base;
  vt pos;
  vt n;
  vt fail;
  vt bad;
  sp_event_t* event;
  sp_sample_t* out;
} h_gen_t;
h_gen_t h_gen;
status_t h_generate(vt duration, vt block_i, vt event_i, sp_block_t out, sp_event_t* event) {
  status_t status = { 0, (uint8_t*)"" };
  if (block_i != h_gen.pos || event_i != (vt)(h_gen.base + block_i) || duration > h_gen.res || duration == 0 || event != h_gen.event || out.samples[0] != h_gen.out) h_gen.bad = 1;
  if (h_gen.fail && h_gen.n >= h_gen.fail) h_gen.bad = 1;
  h_gen.pos += duration;
  h_gen.n += 1;
  if (h_gen.fail && h_gen.n == h_gen.fail) {
    status.id = 77;
    status.group = (uint8_t*)"h";
  }
  return status;
}
/* event lists: nd holds the elements of a list in order */
status_t h_event_list_add(sp_event_list_t** nd, vt n, vt at, sp_event_list_t** head, sp_event_t event) { return sp_event_list_add(head, event); }
void h_event_list_reverse(sp_event_list_t** nd, vt n, sp_event_list_t** head) { sp_event_list_reverse(head); }
void h_event_list_remove(sp_event_list_t** nd, vt n, vt at, sp_event_list_t** head, vt* cnt) { sp_event_list_remove(head, nd[at]); }
void h_event_list_free(sp_event_list_t** nd, vt n, sp_event_list_t** head, vt* cnt) { sp_event_list_free(head); }
/* an event.free function that counts its calls where event.config points to */
void h_event_free(sp_event_t* event) {
  vt* c = event->config;
  *c += 1;
}
/* recorders for functions that take blocks: of each channel they take and set the sample at index h_at, which is any index */
typedef struct {
  vt n;
  vt fail;
  vt start;
  vt end;
  vt size;
  vt channels;
  void* event;
  sp_sample_t* s0;
  sp_sample_t* s1;
  sp_sample_t* i0;
  sp_sample_t* i1;
  sp_sample_t v0;
  sp_sample_t v1;
  sp_sample_t in0;
  sp_sample_t in1;
  sp_sample_t set0;
  sp_sample_t set1;
} h_call_t;
vt h_at;
h_call_t h_cg;
h_call_t h_cm;
status_t h_status(vt fail, int id) {
  status_t status = { 0, (uint8_t*)"" };
  if (fail) {
    status.id = id;
    status.group = (uint8_t*)"h";
  }
  return status;
}
void h_record(h_call_t* c, vt start, vt end, sp_block_t in, sp_block_t out, void* event) {
  c->n += 1;
  c->start = start;
  c->end = end;
  c->size = out.size;
  c->channels = out.channel_count;
  c->event = event;
  c->s0 = out.samples[0];
  c->v0 = out.samples[0][h_at];
  c->i0 = in.samples[0];
  c->in0 = in.samples[0][h_at];
  if (out.channel_count > 1) {
    c->s1 = out.samples[1];
    c->v1 = out.samples[1][h_at];
    c->i1 = in.samples[1];
    c->in1 = in.samples[1][h_at];
  }
  out.samples[0][h_at] = c->set0;
  if (out.channel_count > 1) out.samples[1][h_at] = c->set1;
}
status_t h_ev_generate(vt start, vt end, sp_block_t out, sp_event_t* event) {
  h_record(&h_cg, start, end, out, out, event);
  return h_status(h_cg.fail, 77);
}
status_t h_map(vt start, vt end, sp_block_t in, sp_block_t out, void* state) {
  h_record(&h_cm, start, end, in, out, state);
  return h_status(h_cm.fail, 78);
}
vt h_prepared;
vt h_prepare_fail;
status_t h_prepare(sp_event_t* event) {
  h_prepared += 1;
  return h_status(h_prepare_fail, 79);
}
status_t h_map_prepare(sp_map_event_config_t* c, sp_event_t* event) { return sp_map_event_prepare(event); }
void h_map_free(sp_map_event_config_t* c, sp_event_t* event, vt* cnt) { sp_map_event_free(event); }
status_t h_map_generate(sp_map_event_config_t* c, vt start, vt end, sp_block_t out, sp_event_t* event) { return sp_map_event_generate(start, end, out, event); }
status_t h_map_isolated(sp_map_event_config_t* c, vt start, vt end, sp_block_t out, sp_event_t* event) { return sp_map_event_isolated_generate(start, end, out, event); }
/* groups: nd holds the elements of the list of the group in order, head points to the list of the group */
vt h_prepare_to;
status_t h_prepare_end(sp_event_t* event) {
  h_prepared += 1;
  event->end = h_prepare_to;
  return h_status(h_prepare_fail, 79);
}
status_t h_group_add(sp_event_list_t** nd, vt n, vt at, sp_event_list_t** head, sp_event_t* group, sp_event_t event) { return sp_group_add(group, event); }
status_t h_group_append(sp_event_list_t** nd, vt n, vt at, sp_event_list_t** head, sp_event_t* group, sp_event_t event) { return sp_group_append(group, event); }
status_t h_group_prepare(sp_event_list_t** nd, vt n, sp_event_list_t** head, sp_event_t* group) { return sp_group_prepare(group); }
void h_group_free(sp_event_list_t** nd, vt n, sp_event_list_t** head, sp_event_t* event, vt* cnt) { sp_group_free(event); }
/* C06: powers by squaring are powers */
void h_square(vt p, vt q, vt b) {}
void h_expt_square(vt b, vt h) {
  vt p = 1;
  vt q = 1;
  vt k = 0;
  while (k < h) {
    h_square(p, q, b);
    p *= b;
    q *= b;
    q *= b;
    k += 1;
  }
}
void h_expt(vt b, vt e) {
  if (e) {
    h_expt(b * b, e >> 1);
    h_expt_square(b, e >> 1);
  }
}

// Symbolic host and step/execute drivers, shared by every evmc based interpreter.
struct evmc_host_context { int dummy; };
static evmc_tx_context g_tx;
static evmc_bytes32 g_blobs[4];

static bool hs_account_exists(evmc_host_context*, const evmc_address* a) { uint8_t r; sym_uf("present", a->bytes, 20, &r, 1); return r & 1; }
static evmc_bytes32 hs_get_storage(evmc_host_context*, const evmc_address* a, const evmc_bytes32* k) {
  uint8_t in[52]; __builtin_memcpy(in, a->bytes, 20); __builtin_memcpy(in + 20, k->bytes, 32);
  evmc_bytes32 r; sym_uf("storage", in, 52, r.bytes, 32); return r;
}
static evmc_bytes32 hs_get_tstorage(evmc_host_context*, const evmc_address* a, const evmc_bytes32* k) {
  uint8_t in[52]; __builtin_memcpy(in, a->bytes, 20); __builtin_memcpy(in + 20, k->bytes, 32);
  evmc_bytes32 r; sym_uf("tstorage", in, 52, r.bytes, 32); return r;
}
static enum evmc_storage_status hs_set_storage(evmc_host_context*, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) {
  uint8_t in[84]; __builtin_memcpy(in, a->bytes, 20); __builtin_memcpy(in + 20, k->bytes, 32); __builtin_memcpy(in + 52, v->bytes, 32);
  sym_event("set_storage", in, 84);
  uint8_t r; sym_fresh("sstatus", &r, 1); sym_assume(r <= 8); return (enum evmc_storage_status)r;
}
static void hs_set_tstorage(evmc_host_context*, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) {
  uint8_t in[84]; __builtin_memcpy(in, a->bytes, 20); __builtin_memcpy(in + 20, k->bytes, 32); __builtin_memcpy(in + 52, v->bytes, 32);
  sym_event("set_tstorage", in, 84);
}
static evmc_uint256be hs_get_balance(evmc_host_context*, const evmc_address* a) { evmc_bytes32 r; sym_uf("balance", a->bytes, 20, r.bytes, 32); return r; }
static uint64_t be64(const uint8_t* p) { uint64_t v; __builtin_memcpy(&v, p, 8); return __builtin_bswap64(v); }
static size_t hs_get_code_size(evmc_host_context*, const evmc_address* a) { uint8_t r[8]; sym_uf("codesize", a->bytes, 20, r, 8); return be64(r); }
static evmc_bytes32 hs_get_code_hash(evmc_host_context*, const evmc_address* a) { evmc_bytes32 r; sym_uf("codehash", a->bytes, 20, r.bytes, 32); return r; }
static size_t hs_copy_code(evmc_host_context*, const evmc_address* a, size_t off, uint8_t* buf, size_t n) {
  uint8_t r[8]; sym_uf("codesize", a->bytes, 20, r, 8);
  uint64_t cs = be64(r);
  sym_assume(cs <= 64);
  if (off >= cs) return 0;
  uint64_t m = cs - off < n ? cs - off : n;
  const uint8_t* p = sym_ufbytes("code", a->bytes, 20, 64);
  __builtin_memcpy(buf, p + off, m);
  return m;
}
static bool hs_selfdestruct(evmc_host_context*, const evmc_address* a, const evmc_address* b) {
  uint8_t in[40]; __builtin_memcpy(in, a->bytes, 20); __builtin_memcpy(in + 20, b->bytes, 20);
  sym_event("selfdestruct", in, 40);
  uint8_t r; sym_fresh("sdresult", &r, 1); return r & 1;
}
static void put64(uint8_t* p, uint64_t v) { v = __builtin_bswap64(v); __builtin_memcpy(p, &v, 8); }
static uint8_t g_callout[4][64]; static unsigned g_ncall;
static void hs_release(const struct evmc_result*) { sym_event("release", 0, 0); }
static struct evmc_result hs_call(evmc_host_context*, const struct evmc_message* m) {
  // observable message: kind flags depth gas recipient sender value salt codeaddr input
  uint8_t in[8 * 5 + 20 * 3 + 64];
  put64(in, (uint64_t)m->kind); put64(in + 8, m->flags); put64(in + 16, (uint64_t)(int64_t)m->depth); put64(in + 24, (uint64_t)m->gas); put64(in + 32, m->input_size);
  __builtin_memcpy(in + 40, m->recipient.bytes, 20); __builtin_memcpy(in + 60, m->sender.bytes, 20); __builtin_memcpy(in + 80, m->code_address.bytes, 20);
  __builtin_memcpy(in + 100, m->value.bytes, 32); __builtin_memcpy(in + 132, m->create2_salt.bytes, 32);
  sym_eventv("call", in, sizeof(in), m->input_data, m->input_size);
  struct evmc_result r;
  __builtin_memset(&r, 0, sizeof(r));
  uint8_t b[8];
  sym_fresh("callstatus", b, 1); sym_assume(b[0] <= 3); r.status_code = (enum evmc_status_code)b[0];
  sym_fresh("callgas", b, 8); r.gas_left = (int64_t)be64(b); sym_assume(r.gas_left >= 0 && r.gas_left <= m->gas);
  sym_fresh("callrefund", b, 8); r.gas_refund = (int64_t)be64(b); sym_assume(r.gas_refund >= -(1ll << 40) && r.gas_refund <= (1ll << 40));
  uint64_t max = sym_param("callout_max");
  sym_fresh("calloutsize", b, 8); r.output_size = be64(b); sym_assume(r.output_size == 0 || r.output_size == max);
  // EVMC: a call that failed leaves no gas and no output; only a successful one reports a refund
  sym_assume(r.status_code == EVMC_SUCCESS || r.status_code == EVMC_REVERT || (r.gas_left == 0 && r.output_size == 0));
  sym_assume(r.status_code == EVMC_SUCCESS || r.gas_refund == 0);
  uint8_t* co = g_callout[g_ncall++ & 3];
  sym_fresh("callout", co, 64); r.output_data = co;
  sym_fresh("calladdr", r.create_address.bytes, 20);
  r.release = hs_release;
  return r;
}
static struct evmc_tx_context hs_get_tx_context(evmc_host_context*) { return g_tx; }
static evmc_bytes32 hs_get_block_hash(evmc_host_context*, int64_t n) { uint8_t in[8]; put64(in, (uint64_t)n); evmc_bytes32 r; sym_uf("blockhash", in, 8, r.bytes, 32); return r; }
static void hs_emit_log(evmc_host_context*, const evmc_address* a, const uint8_t* d, size_t n, const evmc_bytes32 t[], size_t k) {
  uint8_t in[20 + 8 + 8 + 128];
  __builtin_memset(in, 0, sizeof(in));
  __builtin_memcpy(in, a->bytes, 20); put64(in + 20, n); put64(in + 28, k);
  for (size_t i = 0; i < k && i < 4; i++) __builtin_memcpy(in + 36 + 32 * i, t[i].bytes, 32);
  sym_eventv("log", in, sizeof(in), d, n);
}
static enum evmc_access_status hs_access_account(evmc_host_context*, const evmc_address* a) {
  sym_event("access_account", a->bytes, 20);
  uint8_t r; sym_uf("warm", a->bytes, 20, &r, 1); return (enum evmc_access_status)(r & 1);
}
static enum evmc_access_status hs_access_storage(evmc_host_context*, const evmc_address* a, const evmc_bytes32* k) {
  uint8_t in[52]; __builtin_memcpy(in, a->bytes, 20); __builtin_memcpy(in + 20, k->bytes, 32);
  sym_event("access_storage", in, 52);
  uint8_t r; sym_uf("swarm", in, 52, &r, 1); return (enum evmc_access_status)(r & 1);
}
static const evmc_host_interface g_host = {
  hs_account_exists, hs_get_storage, hs_set_storage, hs_get_balance, hs_get_code_size, hs_get_code_hash, hs_copy_code, hs_selfdestruct, hs_call,
  hs_get_tx_context, hs_get_block_hash, hs_emit_log, hs_access_account, hs_access_storage, hs_get_tstorage, hs_set_tstorage };

static uint8_t g_code[256];
static uint8_t g_input[64];
static uint8_t g_mem[256];
static uint8_t g_rd[256];
static evmc_bytes32 g_stack[1024];
static evmc_message g_msg;
static evmc_host_context g_ctx;
static uint64_t g_codelen, g_sp, g_memsize, g_rdsize, g_pc;
static int64_t g_refund;

static void setup() {
  __builtin_memset(&g_msg, 0, sizeof(g_msg)); __builtin_memset(&g_tx, 0, sizeof(g_tx));
  g_codelen = sym_param("codelen");
  for (uint64_t i = 0; i < g_codelen; i++) sym_bytes_i(&g_code[i], 1, "code", i);
  g_sp = sym_param("sp");
  for (uint64_t i = 0; i < g_sp; i++) sym_bytes_i(g_stack[g_sp - 1 - i].bytes, 32, "s", i);   // s0 is the top
  g_memsize = sym_param("memsize");
  sym_bytes(g_mem, g_memsize, "mem");
  g_rdsize = sym_param("rdsize");
  sym_bytes(g_rd, g_rdsize, "rd");
  g_pc = sym_param("pc");
  g_refund = (int64_t)sym_u64("refund");
  g_msg.kind = EVMC_CALL;
  g_msg.flags = (uint32_t)(sym_u64("static") & 1);
  g_msg.depth = (int32_t)sym_u64("depth");
  g_msg.gas = (int64_t)sym_u64("gas");
  sym_bytes(g_msg.recipient.bytes, 20, "recipient");
  sym_bytes(g_msg.sender.bytes, 20, "sender");
  sym_bytes(g_msg.value.bytes, 32, "value");
  sym_bytes(g_input, 64, "input");
  g_msg.input_data = g_input;
  g_msg.input_size = sym_u64("inputsize");
  sym_bytes(g_msg.code_address.bytes, 20, "codeaddr");
  g_msg.code = g_code; g_msg.code_size = g_codelen;
  sym_bytes(g_tx.tx_gas_price.bytes, 32, "gasprice");
  sym_bytes(g_tx.tx_origin.bytes, 20, "origin");
  sym_bytes(g_tx.block_coinbase.bytes, 20, "coinbase");
  g_tx.block_number = (int64_t)sym_u64("number");
  g_tx.block_timestamp = (int64_t)sym_u64("timestamp");
  g_tx.block_gas_limit = (int64_t)sym_u64("gaslimit");
  sym_bytes(g_tx.block_prev_randao.bytes, 32, "prevrandao");
  sym_bytes(g_tx.chain_id.bytes, 32, "chainid");
  sym_bytes(g_tx.block_base_fee.bytes, 32, "basefee");
  sym_bytes(g_tx.blob_base_fee.bytes, 32, "blobbasefee");
  for (uint64_t i = 0; i < 4; i++) sym_bytes_i(g_blobs[i].bytes, 32, "blob", i);
  g_tx.blob_hashes = g_blobs;
  g_tx.blob_hashes_count = sym_u64("blobcount");
}

static void out_step(const evmc_step_result* r) {
  sym_out_u64("step_status", (uint64_t)r->step_status_code);
  sym_out_u64("revision", (uint64_t)r->revision);
  sym_out_u64("status", (uint64_t)(int64_t)r->status_code);
  sym_out_u64("pc", r->pc);
  sym_out_u64("gas", (uint64_t)r->gas_left);
  sym_out_u64("refund", (uint64_t)r->gas_refund);
  sym_out_u64("outsize", r->output_size);
  sym_out("out", r->output_data, r->output_size);
  sym_out_u64("sp", r->stack_size);
  sym_out("stack", r->stack, 32 * r->stack_size);
  sym_out_u64("memsize", r->memory_size);
  sym_out("mem", r->memory, r->memory_size);
  sym_out_u64("rdsize", r->last_call_return_data_size);
  sym_out("rd", r->last_call_return_data, r->last_call_return_data_size);
}

static void run_step(evmc_vm_steppable* vm) {
  setup();
  evmc_step_result r = vm->step_n(vm, &g_host, &g_ctx, (enum evmc_revision)sym_param("revision"), &g_msg, g_code, g_codelen,
                                  (enum evmc_step_status_code)sym_param("status"), g_pc, g_refund, g_stack, g_sp, g_mem, g_memsize, g_rd, g_rdsize, (int32_t)sym_param("steps"));
  out_step(&r);
  if (r.release) r.release(&r);
  sym_reach("end");
}

static void out_exec(const evmc_result* e) {
  sym_out_u64("e_status", (uint64_t)(int64_t)e->status_code);
  sym_out_u64("e_gas", (uint64_t)e->gas_left);
  sym_out_u64("e_refund", (uint64_t)e->gas_refund);
  sym_out_u64("e_outsize", e->output_size);
  sym_out("e_out", e->output_data, e->output_size);
}

// complete run from an empty frame
static void run_exec(evmc_vm* vm) {
  setup();
  evmc_result e = vm->execute(vm, &g_host, &g_ctx, (enum evmc_revision)sym_param("revision"), &g_msg, g_code, g_codelen);
  out_exec(&e);
  if (e.release) e.release(&e);
  sym_reach("end");
}

// the same code in one go (twice) and by steps; with param "hash" the code is identified by a hash
static void run_stepexec(evmc_vm_steppable* vm) {
  setup();
  enum evmc_revision rev = (enum evmc_revision)sym_param("revision");
  evmc_bytes32 h1, h2;
  __builtin_memset(&h1, 0, 32); __builtin_memset(&h2, 0, 32); h1.bytes[31] = 1; h2.bytes[31] = 2;
  evmc_message msg = g_msg;
  if (sym_param("hash")) {
    static uint8_t other[48];
    __builtin_memset(other, 0x5b, 40); __builtin_memset(other + 40, 0, 8);
    msg.code = other; msg.code_size = sizeof(other); msg.code_hash = &h2;
    evmc_result o = vm->vm->execute(vm->vm, &g_host, &g_ctx, rev, &msg, other, sizeof(other));
    if (o.release) o.release(&o);
    msg = g_msg; msg.code_hash = &h1;
  }
  sym_event("run", 0, 0); sym_fresh_reset();
  evmc_result e = vm->vm->execute(vm->vm, &g_host, &g_ctx, rev, &msg, g_code, g_codelen);
  out_exec(&e);
  if (sym_param("hash")) {
    sym_event("run", 0, 0); sym_fresh_reset();
    evmc_result f = vm->vm->execute(vm->vm, &g_host, &g_ctx, rev, &msg, g_code, g_codelen);
    sym_out_u64("f_status", (uint64_t)(int64_t)f.status_code); sym_out_u64("f_gas", (uint64_t)f.gas_left); sym_out_u64("f_refund", (uint64_t)f.gas_refund);
    sym_out_u64("f_outsize", f.output_size); sym_out("f_out", f.output_data, f.output_size);
    if (f.release) f.release(&f);
  }
  sym_event("run", 0, 0); sym_fresh_reset();
  evmc_step_result prev; bool has = false;
  enum evmc_step_status_code st = EVMC_STEP_RUNNING;
  uint64_t pc = 0; int64_t refund = 0;
  const evmc_bytes32* stack = 0; size_t sp = 0; const uint8_t* mem = 0; size_t ms = 0; const uint8_t* rd = 0; size_t rs = 0;
  uint64_t max = sym_param("maxsteps");
  for (uint64_t i = 0; i < max && st == EVMC_STEP_RUNNING; i++) {
    evmc_step_result r = vm->step_n(vm, &g_host, &g_ctx, rev, &msg, g_code, g_codelen, st, pc, refund, (evmc_bytes32*)stack, sp, (uint8_t*)mem, ms, (uint8_t*)rd, rs, (int32_t)sym_param("steps"));
    if (has && prev.release) prev.release(&prev);
    prev = r; has = true;
    st = r.step_status_code; pc = r.pc; refund = r.gas_refund; msg.gas = r.gas_left;
    stack = r.stack; sp = r.stack_size; mem = r.memory; ms = r.memory_size; rd = r.last_call_return_data; rs = r.last_call_return_data_size;
  }
  if (st != EVMC_STEP_RUNNING) {
    out_step(&prev);
    sym_reach("end");
  } else sym_reach("unfinished");
}

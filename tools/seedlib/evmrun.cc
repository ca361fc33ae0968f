// Runs one program on evmzero (compiled from the repository with stand-ins for the absent third-party headers) and prints what can be observed.
// usage: evmrun CODEHEX GAS REVISION [static] [input=HEX] [warm] [sstatus=N] [storage=N] [step] [mem=HEX] [steps=N] [callgas=N] [callstatus=N] [callrefund=N] [callout=HEX] [depth=N] [exists] [twice] [balance=N] [codesize=N] [blocknumber=N]
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <evmc/evmc.h>
struct evmc_host_context { int x; };
extern "C" evmc_vm_steppable* evmc_create_steppable_evmzero() noexcept;
static std::map<std::string, std::string> opt;
static long on(const char* k, long d) { auto i = opt.find(k); return i == opt.end() ? d : i->second.empty() ? 1 : strtol(i->second.c_str(), 0, 0); }
static std::vector<uint8_t> unhex(const std::string& s) { std::vector<uint8_t> r; for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((uint8_t)strtol(s.substr(i, 2).c_str(), 0, 16)); return r; }
static void hex(const char* n, const uint8_t* p, size_t k) { printf(" %s=", n); for (size_t i = 0; i < k; i++) printf("%02x", p[i]); }
extern "C" void evmsym_keccak(const uint8_t* d, uint64_t n, uint8_t* o) { uint64_t h = 1469598103934665603ull + n; for (uint64_t i = 0; i < n; i++) h = (h ^ d[i]) * 1099511628211ull; memset(o, 0, 32); memcpy(o + 24, &h, 8); }
extern "C" void evmsym_exp(const uint64_t* a, const uint64_t* e, uint64_t* r) {
  // 256-bit square and multiply on 32-bit limbs
  uint32_t b[8], x[8], res[8] = {1}; memcpy(b, a, 32); memcpy(x, e, 32);
  auto mul = [](const uint32_t* p, const uint32_t* q, uint32_t* o) { uint32_t t[8] = {0}; for (int i = 0; i < 8; i++) { uint64_t c = 0; for (int j = 0; i + j < 8; j++) { uint64_t v = (uint64_t)p[i] * q[j] + t[i + j] + c; t[i + j] = (uint32_t)v; c = v >> 32; } } memcpy(o, t, 32); };
  for (int k = 0; k < 256; k++) { if (x[k / 32] >> (k % 32) & 1) mul(res, b, res); mul(b, b, b); }
  memcpy(r, res, 32);
}
static evmc_bytes32 word(uint64_t v) { evmc_bytes32 r; memset(&r, 0, 32); for (int i = 0; i < 8; i++) r.bytes[31 - i] = (uint8_t)(v >> (8 * i)); return r; }
static bool h_ex(evmc_host_context*, const evmc_address*) { return on("exists", 0); }
static evmc_bytes32 h_gs(evmc_host_context*, const evmc_address*, const evmc_bytes32*) { return word(on("storage", 0)); }
static enum evmc_storage_status h_ss(evmc_host_context*, const evmc_address*, const evmc_bytes32* k, const evmc_bytes32* v) { printf("set_storage"); hex("key", k->bytes, 32); hex("value", v->bytes, 32); puts(""); return (enum evmc_storage_status)on("sstatus", 0); }
static evmc_uint256be h_gb(evmc_host_context*, const evmc_address* a) { printf("get_balance"); hex("of", a->bytes, 20); puts(""); return word(on("balance", 5)); }
static size_t h_cs(evmc_host_context*, const evmc_address*) { return on("codesize", 3); }
static evmc_bytes32 h_ch(evmc_host_context*, const evmc_address*) { return word(77); }
static size_t h_cc(evmc_host_context*, const evmc_address*, size_t off, uint8_t* b, size_t n) { size_t cs = on("codesize", 3), k = 0; for (; off + k < cs && k < n; k++) b[k] = (uint8_t)(0xa0 + off + k); return k; }
static bool h_sd(evmc_host_context*, const evmc_address*, const evmc_address* b) { printf("selfdestruct"); hex("to", b->bytes, 20); puts(""); return on("firstsd", 1); }
static std::vector<uint8_t> callout;
static struct evmc_result h_call(evmc_host_context*, const struct evmc_message* m) {
  printf("call kind=%d flags=%u depth=%d gas=%lld", (int)m->kind, m->flags, m->depth, (long long)m->gas); hex("to", m->recipient.bytes, 20); hex("from", m->sender.bytes, 20); hex("value", m->value.bytes, 32); hex("input", m->input_data, m->input_size); puts("");
  struct evmc_result r; memset(&r, 0, sizeof r);
  r.status_code = (enum evmc_status_code)on("callstatus", 0); r.gas_left = on("callgas", 0); r.gas_refund = on("callrefund", 0);
  callout = opt.count("callout") ? unhex(opt["callout"]) : std::vector<uint8_t>(); r.output_data = callout.data(); r.output_size = callout.size(); return r;
}
static struct evmc_tx_context h_tx(evmc_host_context*) { evmc_tx_context t; memset(&t, 0, sizeof t); t.block_number = on("blocknumber", 1000); t.block_timestamp = 7; t.block_gas_limit = 9; return t; }
static evmc_bytes32 h_bh(evmc_host_context*, int64_t n) { return word(0xb10c0000 + n); }
static void h_log(evmc_host_context*, const evmc_address*, const uint8_t* d, size_t n, const evmc_bytes32 t[], size_t k) { printf("log"); hex("data", d, n); for (size_t i = 0; i < k; i++) hex("topic", t[i].bytes, 32); puts(""); }
static enum evmc_access_status h_aa(evmc_host_context*, const evmc_address*) { return (enum evmc_access_status)on("warm", 0); }
static enum evmc_access_status h_as(evmc_host_context*, const evmc_address*, const evmc_bytes32*) { return (enum evmc_access_status)on("warm", 0); }
static evmc_bytes32 h_gt(evmc_host_context*, const evmc_address*, const evmc_bytes32*) { return word(on("tstorage", 0)); }
static void h_st(evmc_host_context*, const evmc_address*, const evmc_bytes32* k, const evmc_bytes32* v) { printf("set_tstorage"); hex("key", k->bytes, 32); hex("value", v->bytes, 32); puts(""); }
static const evmc_host_interface host = {h_ex, h_gs, h_ss, h_gb, h_cs, h_ch, h_cc, h_sd, h_call, h_tx, h_bh, h_log, h_aa, h_as, h_gt, h_st};
int main(int argc, char** argv) {
  auto code = unhex(argv[1]);
  for (int i = 4; i < argc; i++) { std::string s = argv[i]; auto p = s.find('='); opt[s.substr(0, p)] = p == std::string::npos ? "" : s.substr(p + 1); }
  evmc_message m; memset(&m, 0, sizeof m);
  auto in = opt.count("input") ? unhex(opt["input"]) : std::vector<uint8_t>();
  m.gas = strtoll(argv[2], 0, 0); m.flags = on("static", 0) ? EVMC_STATIC : 0; m.depth = (int)on("depth", 0); m.input_data = in.data(); m.input_size = in.size(); m.code = code.data(); m.code_size = code.size();
  memset(m.recipient.bytes, 0x11, 20); memset(m.sender.bytes, 0x22, 20); m.value = word(on("value", 0));
  evmc_host_context c; auto vm = evmc_create_steppable_evmzero(); auto rev = (enum evmc_revision)atoi(argv[3]);
  if (opt.count("step")) {
    auto mem = opt.count("mem") ? unhex(opt["mem"]) : std::vector<uint8_t>();
    auto r = vm->step_n(vm, &host, &c, rev, &m, code.data(), code.size(), EVMC_STEP_RUNNING, on("pc", 0), 0, 0, 0, mem.data(), mem.size(), 0, 0, (int)on("steps", 1));
    printf("step status=%d code=%d pc=%llu gas=%lld refund=%lld", (int)r.step_status_code, (int)r.status_code, (unsigned long long)r.pc, (long long)r.gas_left, (long long)r.gas_refund);
    for (size_t i = 0; i < r.stack_size; i++) hex("s", r.stack[i].bytes, 32);
    hex("mem", r.memory, r.memory_size); hex("rd", r.last_call_return_data, r.last_call_return_data_size); puts("");
    return 0;
  }
  int runs = (int)on("runs", 1);
  for (int k = 0; k < runs; k++) {
    auto r = vm->vm->execute(vm->vm, &host, &c, rev, &m, code.data(), code.size());
    printf("result status=%d gas=%lld refund=%lld", (int)r.status_code, (long long)r.gas_left, (long long)r.gas_refund); hex("out", r.output_data, r.output_size); puts("");
  }
  return 0;
}

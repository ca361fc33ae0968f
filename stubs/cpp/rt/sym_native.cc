// Native side of the harness interface: replays one solver model on the really
// compiled code.  Input file (argv[2]): lines
//   param NAME DEC | var NAME HEX | uf NAME INHEX OUTHEX | ufdef NAME OUTHEX
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <memory>
static std::map<std::string, uint64_t> params;
static std::map<std::string, std::string> vars;
static std::map<std::string, std::map<std::string, std::string>> ufs;
static std::map<std::string, std::string> ufdef;
static std::map<std::string, int> fresh_count;
static std::vector<std::unique_ptr<uint8_t[]>> keep;
static std::string hex(const void* p, size_t n) {
  static const char* d = "0123456789abcdef";
  std::string s;
  for (size_t i = 0; i < n; i++) { uint8_t b = ((const uint8_t*)p)[i]; s += d[b >> 4]; s += d[b & 15]; }
  return s;
}
static void unhex(std::string h, void* out, size_t n) {
  if (h.size() < 2 * n) h = std::string(2 * n - h.size(), '0') + h;
  if (h.size() > 2 * n) h = h.substr(h.size() - 2 * n);
  for (size_t i = 0; i < n; i++) ((uint8_t*)out)[i] = (uint8_t)strtoul(h.substr(2 * i, 2).c_str(), nullptr, 16);
}
static void getvar(const std::string& name, void* out, size_t n) {
  auto it = vars.find(name);
  unhex(it == vars.end() ? "" : it->second, out, n);
}
static std::string uf(const std::string& name, const std::string& in) {
  auto& t = ufs[name];
  auto it = t.find(in);
  if (it != t.end()) return it->second;
  auto d = ufdef.find(name);
  return d == ufdef.end() ? "" : d->second;
}
extern "C" {
uint64_t sym_param(const char* n) { auto it = params.find(n); if (it == params.end()) { printf("missing-param %s\n", n); exit(3); } return it->second; }
void sym_bytes(void* d, uint64_t n, const char* name) { getvar(name, d, n); }
void sym_bytes_i(void* d, uint64_t n, const char* name, uint64_t i) { getvar(std::string(name) + std::to_string(i), d, n); }
uint64_t sym_u64(const char* name) { uint8_t b[8]; getvar(name, b, 8); uint64_t v = 0; for (int i = 0; i < 8; i++) v = v << 8 | b[i]; return v; }
void sym_assume(uint64_t c) { if (!c) { printf("assume-failed\n"); fflush(stdout); _Exit(0); } }
void sym_uf(const char* name, const void* in, uint64_t n, void* out, uint64_t m) { unhex(uf(name, hex(in, n)), out, m); }
const uint8_t* sym_ufbytes(const char* name, const void* in, uint64_t n, uint64_t max) {
  keep.emplace_back(new uint8_t[max]);
  uint8_t* p = keep.back().get();
  for (uint64_t i = 0; i < max; i++) {
    uint8_t idx[8];
    for (int k = 0; k < 8; k++) idx[k] = (uint8_t)(i >> (8 * (7 - k)));
    unhex(uf(name, hex(in, n) + hex(idx, 8)), p + i, 1);
  }
  return p;
}
void sym_event(const char* name, const void* d, uint64_t n) { printf("event %s %s -\n", name, hex(d, n).c_str()); fflush(stdout); }
void sym_eventv(const char* name, const void* d, uint64_t n, const void* v, uint64_t m) { printf("event %s %s %s\n", name, hex(d, n).c_str(), ("x" + hex(v, m)).c_str()); fflush(stdout); }
void sym_fresh(const char* name, void* out, uint64_t n) { getvar(std::string(name) + "#" + std::to_string(fresh_count[name]++), out, n); }
void sym_fresh_reset() { fresh_count.clear(); }
void sym_out(const char* name, const void* p, uint64_t n) { printf("out %s x%s\n", name, hex(p, n).c_str()); fflush(stdout); }
void sym_out_u64(const char* name, uint64_t v) { printf("outi %s %llu\n", name, (unsigned long long)v); fflush(stdout); }
void sym_check(uint64_t c, const char* l) { printf("check %s %d\n", l, c != 0); fflush(stdout); }
void sym_check_u64(uint64_t a, uint64_t b, const char* l) { printf("check %s %d\n", l, a == b); fflush(stdout); }
void sym_reach(const char*) {}
void sym_interfere(uint64_t) {}
void sym_guard(const void*, uint64_t) {}
void evmsym_keccak(const uint8_t* d, uint64_t n, uint8_t* out) {
  uint8_t len[8];
  for (int k = 0; k < 8; k++) len[k] = (uint8_t)(n >> (8 * (7 - k)));
  std::string in = hex(d, n);
  if (in.size() < 2 * 256) in += std::string(2 * 256 - in.size(), '0');
  unhex(uf("keccak", hex(len, 8) + in), out, 32);
}
void evmsym_exp(const uint64_t* a, const uint64_t* e, uint64_t* r) {
  // exact 256-bit square and multiply
  unsigned _BitInt(256) b, x, res = 1;
  memcpy(&b, a, 32); memcpy(&x, e, 32);
  while (x != 0) { if (x & 1) res *= b; b *= b; x >>= 1; }
  memcpy(r, &res, 32);
}
}
struct Entry { const char* name; void (*fn)(); };
extern Entry sym_entries[];
int main(int argc, char** argv) {
  std::ifstream f(argv[2]);
  std::string line;
  while (std::getline(f, line)) {
    std::istringstream s(line);
    std::string k, a, b, c;
    s >> k >> a >> b >> c;
    if (k == "param") params[a] = strtoull(b.c_str(), nullptr, 10);
    else if (k == "var") vars[a] = b;
    else if (k == "uf") ufs[a][b] = c;
    else if (k == "ufdef") ufdef[a] = b;
  }
  for (Entry* e = sym_entries; e->name; e++)
    if (!strcmp(e->name, argv[1])) { e->fn(); printf("end\n"); fflush(stdout); return 0; }
  printf("no-entry\n");
  return 2;
}

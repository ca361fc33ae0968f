// The jump-target analysis of the C++ interpreter on symbolic code.
#include <cstdint>
#include "vm/evmzero/opcodes.h"
#include "rt/sym.h"
extern "C" void h_jumpdest() {
  uint64_t n = sym_param("len");
  uint8_t* code = new uint8_t[n];
  for (uint64_t i = 0; i < n; i++) sym_bytes_i(code + i, 1, "code", i);
  auto r = tosca::evmzero::op::CalculateValidJumpTargets({code, n});
  sym_check_u64(r.size(), n, "one entry per code byte");
  if (r.size() != n) return;
  auto r2 = tosca::evmzero::op::CalculateValidJumpTargets({code, n});
  uint64_t skip = 0, diff = 0, same = 0;
  for (uint64_t i = 0; i < n; i++) {
    uint64_t c = code[i], data = skip != 0;
    uint64_t want = (uint64_t)(!data) & (uint64_t)(c == 0x5b);
    diff |= want ^ (uint64_t)(r[i] != 0);
    same |= (uint64_t)((r2[i] != 0) ^ (r[i] != 0));
    uint64_t push = (uint64_t)(c - 0x60 <= 0x1f);
    skip = data ? skip - 1 : push * (c - 0x5f);
  }
  sym_check_u64(diff, 0, "marked exactly when a JUMPDEST outside PUSH data");
  sym_check_u64(same, 0, "deterministic");
}

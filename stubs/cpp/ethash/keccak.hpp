#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" void evmsym_keccak(const uint8_t* d, uint64_t n, uint8_t* out);
namespace ethash {
union hash256 {
  uint64_t word64s[4];
  uint32_t word32s[8];
  uint8_t bytes[32];
  char str[32];
};
inline hash256 keccak256(const uint8_t* d, size_t n) noexcept { hash256 h; evmsym_keccak(d, n, h.bytes); return h; }
}

// Stand-in for the intx library (not available offline): 256-bit words on
// clang's unsigned _BitInt(256), so that the compiler lowers every operation to
// a single i256 IR instruction that the symbolic executor maps to a bit-vector
// operation.  Same observable semantics as intx for the functions evmzero uses.
#pragma once
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>

extern "C" void evmsym_exp(const uint64_t* a, const uint64_t* e, uint64_t* r);

namespace intx {
using u256_t = unsigned _BitInt(256);
using s256_t = signed _BitInt(256);

struct raw_t {};
template <unsigned N> struct uint;
template <>
struct uint<256> {
  uint64_t words_[4];
  static constexpr unsigned num_bits = 256;
  static constexpr unsigned num_words = 4;

  constexpr uint() noexcept : words_{0, 0, 0, 0} {}
  constexpr uint(u256_t v, raw_t) noexcept
      : words_{(uint64_t)v, (uint64_t)(v >> 64), (uint64_t)(v >> 128), (uint64_t)(v >> 192)} {}
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
  constexpr uint(T v) noexcept
      : words_{static_cast<uint64_t>(v),
               (std::is_signed_v<T> && v < T{}) ? ~uint64_t{0} : 0,
               (std::is_signed_v<T> && v < T{}) ? ~uint64_t{0} : 0,
               (std::is_signed_v<T> && v < T{}) ? ~uint64_t{0} : 0} {}
  // word-wise constructor, as in intx
  constexpr uint(uint64_t a, uint64_t b, uint64_t c = 0, uint64_t d = 0) noexcept : words_{a, b, c, d} {}

  constexpr u256_t v() const noexcept {
    if (std::is_constant_evaluated())
      return (u256_t)words_[0] | ((u256_t)words_[1] << 64) | ((u256_t)words_[2] << 128) | ((u256_t)words_[3] << 192);
    u256_t r;
    std::memcpy(&r, words_, 32);
    return r;
  }
  constexpr uint64_t& operator[](size_t i) noexcept { return words_[i]; }
  constexpr const uint64_t& operator[](size_t i) const noexcept { return words_[i]; }
  constexpr explicit operator bool() const noexcept { return v() != 0; }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
  constexpr explicit operator T() const noexcept { return static_cast<T>(words_[0]); }

  friend constexpr uint operator+(const uint& a, const uint& b) noexcept { return {(u256_t)(a.v() + b.v()), raw_t{}}; }
  friend constexpr uint operator-(const uint& a, const uint& b) noexcept { return {(u256_t)(a.v() - b.v()), raw_t{}}; }
  friend constexpr uint operator*(const uint& a, const uint& b) noexcept { return {(u256_t)(a.v() * b.v()), raw_t{}}; }
  friend constexpr uint operator/(const uint& a, const uint& b) noexcept { return {(u256_t)(a.v() / b.v()), raw_t{}}; }
  friend constexpr uint operator%(const uint& a, const uint& b) noexcept { return {(u256_t)(a.v() % b.v()), raw_t{}}; }
  friend constexpr uint operator&(const uint& a, const uint& b) noexcept { return {(u256_t)(a.v() & b.v()), raw_t{}}; }
  friend constexpr uint operator|(const uint& a, const uint& b) noexcept { return {(u256_t)(a.v() | b.v()), raw_t{}}; }
  friend constexpr uint operator^(const uint& a, const uint& b) noexcept { return {(u256_t)(a.v() ^ b.v()), raw_t{}}; }
  constexpr uint operator~() const noexcept { return {(u256_t)(~v()), raw_t{}}; }
  constexpr uint operator-() const noexcept { return {(u256_t)(0 - v()), raw_t{}}; }
  friend constexpr bool operator==(const uint& a, const uint& b) noexcept { return a.v() == b.v(); }
  friend constexpr bool operator!=(const uint& a, const uint& b) noexcept { return a.v() != b.v(); }
  friend constexpr bool operator<(const uint& a, const uint& b) noexcept { return a.v() < b.v(); }
  friend constexpr bool operator>(const uint& a, const uint& b) noexcept { return a.v() > b.v(); }
  friend constexpr bool operator<=(const uint& a, const uint& b) noexcept { return a.v() <= b.v(); }
  friend constexpr bool operator>=(const uint& a, const uint& b) noexcept { return a.v() >= b.v(); }
  // shifts by 64-bit and by 256-bit amounts: an amount of 256 or more gives 0
  friend constexpr uint operator<<(const uint& a, uint64_t s) noexcept { return s < 256 ? uint{(u256_t)(a.v() << (unsigned)s), raw_t{}} : uint{}; }
  friend constexpr uint operator>>(const uint& a, uint64_t s) noexcept { return s < 256 ? uint{(u256_t)(a.v() >> (unsigned)s), raw_t{}} : uint{}; }
  friend constexpr uint operator<<(const uint& a, const uint& s) noexcept { return s.v() < 256 ? uint{(u256_t)(a.v() << s.v()), raw_t{}} : uint{}; }
  friend constexpr uint operator>>(const uint& a, const uint& s) noexcept { return s.v() < 256 ? uint{(u256_t)(a.v() >> s.v()), raw_t{}} : uint{}; }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
  friend constexpr uint operator<<(const uint& a, T s) noexcept { return a << uint(s); }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
  friend constexpr uint operator>>(const uint& a, T s) noexcept { return a >> uint(s); }
#define INTX_ASSIGN(op) \
  template <typename T> constexpr uint& operator op##=(const T& b) noexcept { return *this = *this op uint(b); }
  INTX_ASSIGN(+) INTX_ASSIGN(-) INTX_ASSIGN(*) INTX_ASSIGN(/) INTX_ASSIGN(%) INTX_ASSIGN(&) INTX_ASSIGN(|) INTX_ASSIGN(^) INTX_ASSIGN(<<) INTX_ASSIGN(>>)
#undef INTX_ASSIGN
  constexpr uint& operator++() noexcept { return *this += 1; }
  constexpr uint& operator--() noexcept { return *this -= 1; }
};
using uint256 = uint<256>;

template <typename Q, typename R = Q> struct div_result { Q quot; R rem; };
template <typename T> struct result_with_carry { T value; bool carry; };

constexpr div_result<uint256> udivrem(const uint256& a, const uint256& b) noexcept { return {a / b, a % b}; }
inline div_result<uint256> sdivrem(const uint256& a, const uint256& b) noexcept {
  // truncated signed division; MIN / -1 wraps to MIN with remainder 0
  u256_t ua = a.v(), ub = b.v();
  bool na = (ua >> 255) != 0, nb = (ub >> 255) != 0;
  u256_t aa = na ? 0 - ua : ua, ab = nb ? 0 - ub : ub;
  u256_t q = aa / ab, r = aa % ab;
  return {uint256{(u256_t)(na != nb ? 0 - q : q), raw_t{}}, uint256{(u256_t)(na ? 0 - r : r), raw_t{}}};
}
inline bool slt(const uint256& a, const uint256& b) noexcept { return (s256_t)a.v() < (s256_t)b.v(); }
inline uint256 addmod(const uint256& x, const uint256& y, const uint256& m) noexcept {
  using u264 = unsigned _BitInt(264);
  return {(u256_t)(((u264)x.v() + (u264)y.v()) % (u264)m.v()), raw_t{}};
}
inline uint256 mulmod(const uint256& x, const uint256& y, const uint256& m) noexcept {
  using u512 = unsigned _BitInt(512);
  return {(u256_t)(((u512)x.v() * (u512)y.v()) % (u512)m.v()), raw_t{}};
}
inline uint256 exp(const uint256& b, const uint256& e) noexcept {
  uint256 r;
  evmsym_exp(b.words_, e.words_, r.words_);
  return r;
}
constexpr result_with_carry<uint256> addc(const uint256& x, const uint256& y, bool c = false) noexcept {
  u256_t s = x.v() + y.v();
  bool k = s < x.v();
  u256_t t = s + (u256_t)(c ? 1 : 0);
  return {uint256{t, raw_t{}}, k || t < s};
}
constexpr result_with_carry<uint256> subc(const uint256& x, const uint256& y) noexcept { return {x - y, x < y}; }
constexpr uint64_t bswap(uint64_t v) noexcept { return __builtin_bswap64(v); }
constexpr uint32_t bswap(uint32_t v) noexcept { return __builtin_bswap32(v); }
inline uint256 bswap(const uint256& v) noexcept {
  return uint256(bswap(v.words_[3]), bswap(v.words_[2]), bswap(v.words_[1]), bswap(v.words_[0]));
}
inline unsigned count_significant_bytes(const uint256& x) noexcept {
  unsigned n = 0;
  for (unsigned i = 0; i < 32; i++)
    n = (x.v() >> (8 * i)) != 0 ? i + 1 : n;
  return n;
}
inline uint8_t* as_bytes(uint256& v) noexcept { return reinterpret_cast<uint8_t*>(v.words_); }
inline const uint8_t* as_bytes(const uint256& v) noexcept { return reinterpret_cast<const uint8_t*>(v.words_); }
inline std::string to_string(const uint256&, int = 10) { return "?"; }
inline std::string hex(const uint256&) { return "?"; }

namespace be {
template <typename Int, typename T>
inline Int load(const T& t) noexcept {
  static_assert(sizeof(t.bytes) <= 32);
  uint256 r{};
  uint8_t* p = reinterpret_cast<uint8_t*>(r.words_);
  std::memcpy(p + 32 - sizeof(t.bytes), t.bytes, sizeof(t.bytes));
  return bswap(r);
}
template <typename Int, unsigned N>
inline Int load(const uint8_t (&b)[N]) noexcept {
  uint256 r{};
  uint8_t* p = reinterpret_cast<uint8_t*>(r.words_);
  std::memcpy(p + 32 - N, b, N);
  return bswap(r);
}
template <typename T>
inline T store(const uint256& x) noexcept {
  T t{};
  uint256 s = bswap(x);
  std::memcpy(t.bytes, s.words_, 32);
  return t;
}
template <typename T>
inline T trunc(const uint256& x) noexcept {
  T t{};
  uint256 s = bswap(x);
  std::memcpy(t.bytes, reinterpret_cast<uint8_t*>(s.words_) + 32 - sizeof(t.bytes), sizeof(t.bytes));
  return t;
}
namespace unsafe {
template <typename Int> inline Int load(const uint8_t* s) noexcept { uint256 r; std::memcpy(r.words_, s, 32); return bswap(r); }
inline void store(uint8_t* d, const uint256& x) noexcept { uint256 s = bswap(x); std::memcpy(d, s.words_, 32); }
}
}  // namespace be

inline namespace literals {
constexpr uint256 operator""_u256(unsigned long long v) noexcept { return uint256(v); }
}
}  // namespace intx
using namespace intx::literals;

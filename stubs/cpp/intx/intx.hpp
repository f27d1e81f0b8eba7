// Stub of the (absent) intx dependency: 256-bit words as native _BitInt integers. Semantics follow intx.
#pragma once
#include <array>
#include <cstdint>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>
#include "vc.h"
namespace intx {
using u256n = unsigned _BitInt(256);
using i256n = _BitInt(256);
using u512n = unsigned _BitInt(512);
struct uint256 {
  u256n v;
  using word_type = uint64_t;
  static constexpr unsigned num_bits = 256;
  constexpr uint256() : v(0) {}
  template <class T, class = std::enable_if_t<std::is_integral_v<T>>>
  constexpr uint256(T x) : v(static_cast<uint64_t>(x)) {}
  constexpr uint256(uint64_t a, uint64_t b, uint64_t c = 0, uint64_t d = 0)
      : v(u256n(a) | (u256n(b) << 64) | (u256n(c) << 128) | (u256n(d) << 192)) {}
  static constexpr uint256 raw(u256n x) { uint256 r; r.v = x; return r; }
  uint64_t& operator[](size_t i) { return reinterpret_cast<uint64_t*>(&v)[i]; }
  const uint64_t& operator[](size_t i) const { return reinterpret_cast<const uint64_t*>(&v)[i]; }
  explicit constexpr operator bool() const { return v != 0; }
  template <class T, class = std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>>
  explicit constexpr operator T() const { return static_cast<T>(static_cast<uint64_t>(v)); }
  friend constexpr uint256 operator+(const uint256& a, const uint256& b) { return raw(a.v + b.v); }
  friend constexpr uint256 operator-(const uint256& a, const uint256& b) { return raw(a.v - b.v); }
  friend constexpr uint256 operator*(const uint256& a, const uint256& b) { return raw(a.v * b.v); }
  friend constexpr uint256 operator/(const uint256& a, const uint256& b) { return raw(a.v / b.v); }
  friend constexpr uint256 operator%(const uint256& a, const uint256& b) { return raw(a.v % b.v); }
  friend constexpr uint256 operator&(const uint256& a, const uint256& b) { return raw(a.v & b.v); }
  friend constexpr uint256 operator|(const uint256& a, const uint256& b) { return raw(a.v | b.v); }
  friend constexpr uint256 operator^(const uint256& a, const uint256& b) { return raw(a.v ^ b.v); }
  constexpr uint256 operator~() const { return raw(~v); }
  constexpr uint256 operator-() const { return raw(-v); }
  friend constexpr uint256 operator<<(const uint256& a, const uint256& s) { return s.v < 256 ? raw(a.v << unsigned(s.v)) : uint256{}; }
  friend constexpr uint256 operator>>(const uint256& a, const uint256& s) { return s.v < 256 ? raw(a.v >> unsigned(s.v)) : uint256{}; }
  friend constexpr uint256 operator<<(const uint256& a, uint64_t s) { return s < 256 ? raw(a.v << unsigned(s)) : uint256{}; }
  friend constexpr uint256 operator>>(const uint256& a, uint64_t s) { return s < 256 ? raw(a.v >> unsigned(s)) : uint256{}; }
  friend constexpr uint256 operator<<(const uint256& a, int s) { return a << static_cast<uint64_t>(s); }
  friend constexpr uint256 operator>>(const uint256& a, int s) { return a >> static_cast<uint64_t>(s); }
  friend constexpr bool operator==(const uint256& a, const uint256& b) { return a.v == b.v; }
  friend constexpr bool operator!=(const uint256& a, const uint256& b) { return a.v != b.v; }
  friend constexpr bool operator<(const uint256& a, const uint256& b) { return a.v < b.v; }
  friend constexpr bool operator>(const uint256& a, const uint256& b) { return a.v > b.v; }
  friend constexpr bool operator<=(const uint256& a, const uint256& b) { return a.v <= b.v; }
  friend constexpr bool operator>=(const uint256& a, const uint256& b) { return a.v >= b.v; }
  constexpr uint256& operator++() { v += 1; return *this; }
  constexpr uint256& operator--() { v -= 1; return *this; }
#define VC_ASSIGN(op) template <class T> constexpr uint256& operator op##=(const T& b) { return *this = *this op b; }
  VC_ASSIGN(+) VC_ASSIGN(-) VC_ASSIGN(*) VC_ASSIGN(/) VC_ASSIGN(%) VC_ASSIGN(&) VC_ASSIGN(|) VC_ASSIGN(^) VC_ASSIGN(<<) VC_ASSIGN(>>)
#undef VC_ASSIGN
};
template <unsigned N> struct uint_sel;
template <> struct uint_sel<256> { using type = uint256; };
template <unsigned N> using uint = typename uint_sel<N>::type;
template <class T> struct result_with_carry { T value; bool carry; };
struct div_result { uint256 quot; uint256 rem; };
inline constexpr result_with_carry<uint256> addc(const uint256& a, const uint256& b, bool c = false) {
  u512n s = u512n(a.v) + u512n(b.v) + (c ? 1 : 0);
  return {uint256::raw(u256n(s)), (s >> 256) != 0};
}
inline constexpr result_with_carry<uint256> subc(const uint256& a, const uint256& b, bool c = false) {
  uint256 r = uint256::raw(a.v - b.v - (c ? 1 : 0));
  return {r, u512n(b.v) + (c ? 1 : 0) > u512n(a.v)};
}
inline constexpr bool slt(const uint256& a, const uint256& b) { return i256n(a.v) < i256n(b.v); }
inline constexpr div_result udivrem(const uint256& a, const uint256& b) { return {a / b, a % b}; }
inline constexpr div_result sdivrem(const uint256& a, const uint256& b) {
  bool an = (a.v >> 255) != 0, bn = (b.v >> 255) != 0;
  u256n x = an ? -a.v : a.v, y = bn ? -b.v : b.v;
  u256n q = x / y, r = x % y;
  return {uint256::raw(an != bn ? -q : q), uint256::raw(an ? -r : r)};
}
inline constexpr uint256 addmod(const uint256& x, const uint256& y, const uint256& m) {
  return uint256::raw(u256n((u512n(x.v) + u512n(y.v)) % u512n(m.v)));
}
inline constexpr uint256 mulmod(const uint256& x, const uint256& y, const uint256& m) {
  return uint256::raw(u256n((u512n(x.v) * u512n(y.v)) % u512n(m.v)));
}
inline uint256 exp(const uint256& base, const uint256& exponent) {
  uint256 in[2] = {base, exponent}, out;
  __vc_uf("exp256", &out, 32, in, 64);
  return out;
}
inline constexpr unsigned count_significant_bytes(uint64_t x) {
  unsigned n = 0;
  for (unsigned i = 0; i < 8; i++) if (x >> (8 * i)) n = i + 1;
  return n;
}
inline constexpr unsigned count_significant_bytes(const uint256& x) {
  unsigned n = 0;
  for (unsigned i = 0; i < 32; i++) n += (x.v >> (8 * i)) != 0 ? 1 : 0;
  return n;
}
inline constexpr unsigned clz(const uint256& x) {
  unsigned n = 0;
  for (unsigned i = 0; i < 256; i++) n += (x.v >> i) == 0 ? 1 : 0;
  return n;
}
inline constexpr uint64_t bswap(uint64_t x) { return __builtin_bswap64(x); }
inline constexpr uint32_t bswap(uint32_t x) { return __builtin_bswap32(x); }
inline constexpr uint256 bswap(const uint256& x) {
  return uint256{__builtin_bswap64(uint64_t(x.v >> 192)), __builtin_bswap64(uint64_t(x.v >> 128)),
                 __builtin_bswap64(uint64_t(x.v >> 64)), __builtin_bswap64(uint64_t(x.v))};
}
template <class T> inline uint8_t* as_bytes(T& x) { return reinterpret_cast<uint8_t*>(&x); }
template <class T> inline const uint8_t* as_bytes(const T& x) { return reinterpret_cast<const uint8_t*>(&x); }
inline std::string to_string(const uint256& x, int base = 10) {
  std::string s;
  u256n v = x.v;
  do { s.insert(s.begin(), "0123456789abcdef"[unsigned(v % unsigned(base))]); v /= unsigned(base); } while (v != 0);
  return s;
}
inline std::string hex(const uint256& x) { return to_string(x, 16); }
namespace be {
template <class T, size_t N> inline T load_n(const uint8_t* p) {
  uint8_t buf[32] = {};
  std::memcpy(buf + (32 - N), p, N);
  uint256 r;
  std::memcpy(&r, buf, 32);
  return bswap(r);
}
template <class IntT, size_t N> inline IntT load(const uint8_t (&b)[N]) { return load_n<IntT, N>(b); }
template <class IntT, class T> inline IntT load(const T& t) { return load_n<IntT, sizeof(t.bytes)>(t.bytes); }
template <class T> inline T store(const uint256& x) {
  T r{};
  uint256 s = bswap(x);
  static_assert(sizeof(r.bytes) == 32);
  std::memcpy(r.bytes, &s, 32);
  return r;
}
template <class T> inline T trunc(const uint256& x) {
  T r{};
  uint8_t buf[32];
  uint256 s = bswap(x);
  std::memcpy(buf, &s, 32);
  std::memcpy(r.bytes, buf + (32 - sizeof(r.bytes)), sizeof(r.bytes));
  return r;
}
namespace unsafe {
template <class IntT> inline IntT load(const uint8_t* p) { return load_n<IntT, 32>(p); }
inline void store(uint8_t* p, const uint256& x) { uint256 s = bswap(x); std::memcpy(p, &s, 32); }
}
}
}

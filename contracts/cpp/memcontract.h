// Contracts of the Memory operations used by the interpreter. C06 proves them for the real class (one arbitrary byte index);
// the interpreter's contracts (C10, C13) use these functions in place of the calls.
#pragma once
#include <cstring>
#include <span>
#include "vc.h"
#include "vm/evmzero/memory.h"
namespace memspec {
using tosca::evmzero::Memory;
constexpr uint64_t kMax = uint64_t{1} << 40;   // addressable range of the contract (see DESIGN.md: gas limits accesses to less)
inline uint64_t g_k = 0;                       // the arbitrary index whose content the callers' contracts track
inline bool in(uint64_t k, uint64_t off, uint64_t n) { return (k >= off) & (k - off < n); }
inline uint64_t align32(uint64_t x) { return (x + 31) & ~uint64_t{31}; }
// size after an access of n bytes at off
inline uint64_t size_after(uint64_t size, uint64_t off, uint64_t n) { return (n == 0) | (off + n <= size) ? size : align32(off + n); }
// byte k of the zero-extended buffer p[0..n)
inline uint8_t byte_of(const uint8_t* p, uint64_t n, uint64_t k) { return __vc_peek(k < n, p, k); }
// byte k after copying n bytes, zero padded, from src[0..len) to off
inline uint8_t byte_after_read(uint8_t old, uint64_t k, const uint8_t* src, uint64_t len, uint64_t off, uint64_t n) {
  bool inside = in(k, off, n), covered = inside & (k - off < len);
  uint8_t s = __vc_peek_checked(covered, src, k - off);
  return inside ? s : old;
}
// byte k after moving n bytes from src to dst within the zero-extended buffer p[0..size)
inline uint8_t byte_after_move(const uint8_t* p, uint64_t size, uint64_t k, uint64_t dst, uint64_t src, uint64_t n) {
  bool inside = in(k, dst, n);
  return byte_of(p, size, inside ? src + (k - dst) : k);
}
struct Rep { uint8_t *b, *e, *cap; };
inline Rep rep(Memory* m) { Rep r; std::memcpy(&r, static_cast<void*>(m), sizeof(r)); return r; }
inline void becomes(Memory* m, Rep r, uint64_t size, uint8_t at_k) {
  // capacity is abstracted: the contracts start from memories with spare room
  __vc_assert(size <= uint64_t(r.cap - r.b), "requires memory access within the addressable range");
  __vc_forget(r.b);
  r.b[g_k] = at_k;
  r.e = r.b + size;
  std::memcpy(static_cast<void*>(m), &r, sizeof(r));
}
}  // namespace memspec
extern "C" void vcontract_memory_grow(memspec::Memory* m, uint64_t off, uint64_t n) {
  using namespace memspec;
  __vc_assert((n == 0) | ((off <= kMax / 2) & (n <= kMax / 2)), "requires memory access within the addressable range");
  Rep r = rep(m);
  uint64_t s = uint64_t(r.e - r.b);
  becomes(m, r, size_after(s, off, n), byte_of(r.b, s, g_k));
}
extern "C" void vcontract_memory_read_from_with_size(memspec::Memory* m, std::span<const uint8_t> src, uint64_t off, uint64_t n) {
  using namespace memspec;
  __vc_assert((n == 0) | ((off <= kMax / 2) & (n <= kMax / 2)), "requires memory access within the addressable range");
  Rep r = rep(m);
  uint64_t s = uint64_t(r.e - r.b);
  __vc_readable(src.data(), src.size() < n ? src.size() : n);
  uint8_t e = byte_after_read(byte_of(r.b, s, g_k), g_k, src.data(), src.size(), off, n);
  becomes(m, r, size_after(s, off, n), e);
}
extern "C" void vcontract_memory_mem_copy(memspec::Memory* m, uint64_t dst, uint64_t src, uint64_t n) {
  using namespace memspec;
  __vc_assert((n == 0) | ((dst <= kMax / 2) & (src <= kMax / 2) & (n <= kMax / 2)), "requires memory access within the addressable range");
  Rep r = rep(m);
  uint64_t s = uint64_t(r.e - r.b);
  uint8_t e = byte_after_move(r.b, s, g_k, dst, src, n);
  becomes(m, r, size_after(size_after(s, src, n), dst, n), e);
}

// Contracts for evmzero::Memory (property C06). Includes the real sources; every harness starts from an arbitrary memory
// (any content, any word-aligned size, any growth history) and an arbitrary access.
#include <cstring>
#include "vc.h"
#include "vm/evmzero/memory.h"
#include "vm/evmzero/memory.cc"
#include "memcontract.h"
using namespace memspec;
using namespace tosca::evmzero;
namespace {
struct Pre {
  Memory m;
  uint64_t size;   // size before the operation
  uint64_t k;      // arbitrary index
  uint8_t at_k;    // content of index k before the operation (zero beyond the size)
};
// An arbitrary well-formed memory: word-aligned size, any content, any spare capacity (the representation is a single byte
// vector; otherwise the state is built through the public interface).
inline void arbitrary(Pre& p) {
  auto words = vc_any<uint64_t>("words");
  VC_REQUIRES(words <= kMax / 32);
  uint64_t n = words * 32;
  if constexpr (sizeof(Memory) == sizeof(std::vector<uint8_t>)) {
    auto cap = vc_any<uint64_t>("capacity");
    VC_REQUIRES(cap >= n && cap <= 4 * kMax);
    uint8_t* b = cap == 0 ? nullptr : static_cast<uint8_t*>(__vc_buffer(cap, 16, "init"));
    uint8_t* rep[3] = {b, b + n, b + cap};
    std::memcpy(static_cast<void*>(&p.m), rep, sizeof(rep));
  } else {
    auto* b = static_cast<const uint8_t*>(__vc_buffer(n, 16, "init"));
    p.m.~Memory();
    new (&p.m) Memory(std::span<const uint8_t>(b, n));
  }
  p.size = p.m.GetSize();
  p.k = vc_any<uint64_t>("k");
  VC_REQUIRES(p.k < 4 * kMax);
  p.at_k = p.k < p.size ? p.m[p.k] : 0;
}
// byte k of the infinite zero-extended memory
inline uint8_t byte_at(const Memory& m, uint64_t k) { return k < m.GetSize() ? m[k] : 0; }
inline void grown(const Pre& p, uint64_t off, uint64_t size, const char* lbl) {
  __vc_assert(p.m.GetSize() == size_after(p.size, off, size), lbl);
}
}

extern "C" void vch_construct() {
  auto n = vc_any<uint64_t>("size");
  VC_REQUIRES(n <= kMax);
  auto* b = static_cast<const uint8_t*>(__vc_buffer(n, 16, "init"));
  Memory m(std::span<const uint8_t>(b, n));
  VC_ENSURES("constructed size is the word-aligned initial size", m.GetSize() == align32(n));
  auto k = vc_any<uint64_t>("k");
  VC_REQUIRES(k < m.GetSize());
  VC_ENSURES("constructed memory holds the initial bytes, zero padded", m[k] == (k < n ? b[k] : 0));
  __vc_cover("construct");
}
extern "C" void vch_construct_default() {
  Memory m;
  VC_ENSURES("default memory is empty", m.GetSize() == 0);
  __vc_cover("construct_default");
}
extern "C" void vch_construct_list() {
  uint8_t a = vc_any<uint8_t>("a"), b = vc_any<uint8_t>("b"), c = vc_any<uint8_t>("c");
  Memory m{a, b, c};
  VC_ENSURES("list-constructed size is one word", m.GetSize() == 32);
  auto k = vc_any<uint64_t>("k");
  VC_REQUIRES(k < 32);
  VC_ENSURES("list-constructed memory holds the listed bytes, zero padded", m[k] == (k == 0 ? a : k == 1 ? b : k == 2 ? c : 0));
  __vc_cover("construct_list");
}
extern "C" void vch_grow() {
  Pre p;
  arbitrary(p);
  auto off = vc_any<uint64_t>("offset"), size = vc_any<uint64_t>("size");
  // accesses of size zero are unconstrained in their offset
  VC_REQUIRES(size == 0 || (off <= kMax && size <= kMax));
  p.m.Grow(off, size);
  grown(p, off, size, "grow: size is the smallest multiple of 32 covering the access, never smaller than before");
  VC_ENSURES("grow: size stays a multiple of 32", p.m.GetSize() % 32 == 0);
  VC_ENSURES("grow: content unchanged, new bytes zero", byte_at(p.m, p.k) == p.at_k);
  __vc_cover("grow");
}
extern "C" void vch_get_span() {
  Pre p;
  arbitrary(p);
  auto off = vc_any<uint64_t>("offset"), size = vc_any<uint64_t>("size");
  VC_REQUIRES(off <= kMax && size <= kMax);
  auto s = p.m.GetSpan(off, size);
  grown(p, off, size, "get_span: memory grows exactly to cover the access");
  VC_ENSURES("get_span: span has the requested size", s.size() == size);
  VC_ENSURES("get_span: content unchanged", byte_at(p.m, p.k) == p.at_k);
  auto j = vc_any<uint64_t>("j");
  if (j < size) {
    VC_ENSURES("get_span: span aliases the addressed bytes", &s[j] == &p.m[off + j]);
    uint8_t v = vc_any<uint8_t>("v");
    s[j] = v;
    VC_ENSURES("get_span: writing through the span changes exactly that byte", byte_at(p.m, p.k) == (p.k == off + j ? v : p.at_k));
    __vc_cover("get_span");
  }
}
extern "C" void vch_read_from() {
  Pre p;
  arbitrary(p);
  auto off = vc_any<uint64_t>("offset"), n = vc_any<uint64_t>("n");
  VC_REQUIRES(off <= kMax && n <= kMax);
  auto* b = static_cast<const uint8_t*>(__vc_buffer(n, 16, "src"));
  p.m.ReadFrom({b, n}, off);
  grown(p, off, n, "read_from: memory grows exactly to cover the access");
  VC_ENSURES("read_from: exactly the addressed bytes change, to the source bytes",
             byte_at(p.m, p.k) == (in(p.k, off, n) ? b[p.k - off] : p.at_k));
  __vc_cover("read_from");
}
extern "C" void vch_read_from_with_size() {
  Pre p;
  arbitrary(p);
  auto off = vc_any<uint64_t>("offset"), n = vc_any<uint64_t>("n"), w = vc_any<uint64_t>("write_size");
  VC_REQUIRES(off <= kMax && n <= kMax && w <= kMax);
  auto* b = static_cast<const uint8_t*>(__vc_buffer(n, 16, "src"));
  p.m.ReadFromWithSize({b, n}, off, w);
  grown(p, off, w, "read_from_with_size: memory grows exactly to cover the access");
  VC_ENSURES("read_from_with_size: exactly the addressed bytes change, to the zero-padded source bytes",
             byte_at(p.m, p.k) == byte_after_read(p.at_k, p.k, b, n, off, w));
  __vc_cover("read_from_with_size");
}
extern "C" void vch_write_to() {
  Pre p;
  arbitrary(p);
  auto off = vc_any<uint64_t>("offset"), n = vc_any<uint64_t>("n");
  VC_REQUIRES(off <= kMax && n <= kMax);
  auto* b = static_cast<uint8_t*>(__vc_buffer(n, 16, "dst"));
  p.m.WriteTo({b, n}, off);
  grown(p, off, n, "write_to: memory grows exactly to cover the access");
  VC_ENSURES("write_to: memory content unchanged", byte_at(p.m, p.k) == p.at_k);
  if (in(p.k, off, n)) {
    VC_ENSURES("write_to: the buffer receives the addressed bytes", b[p.k - off] == p.at_k);
    __vc_cover("write_to");
  }
}
extern "C" void vch_memcopy() {
  Pre p;
  arbitrary(p);
  auto dst = vc_any<uint64_t>("dst"), src = vc_any<uint64_t>("src"), n = vc_any<uint64_t>("n");
  VC_REQUIRES(dst <= kMax && src <= kMax && n <= kMax);
  uint64_t from = src + (p.k - dst);
  uint8_t at_from = in(p.k, dst, n) && from < p.size ? p.m[from] : 0;
  p.m.MemCopy(dst, src, n);
  uint64_t hi = dst > src ? dst : src;
  grown(p, hi, n, "memcopy: memory grows exactly to cover both ranges");
  VC_ENSURES("memcopy: exactly the destination bytes change, to the previous source bytes (overlap included)",
             byte_at(p.m, p.k) == (in(p.k, dst, n) ? at_from : p.at_k));
  __vc_cover("memcopy");
}
extern "C" void vch_index() {
  Pre p;
  arbitrary(p);
  auto i = vc_any<uint64_t>("i");
  VC_REQUIRES(i < p.size);
  auto v = vc_any<uint8_t>("v");
  const Memory& c = p.m;
  VC_ENSURES("index: both accessors address the same byte", &c[i] == &p.m[i]);
  p.m[i] = v;
  VC_ENSURES("index: writing an element changes exactly that byte", byte_at(p.m, p.k) == (p.k == i ? v : p.at_k));
  VC_ENSURES("index: size unchanged", p.m.GetSize() == p.size);
  __vc_cover("index");
}

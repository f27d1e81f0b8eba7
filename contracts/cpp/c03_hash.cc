// Contracts for the byte hashing utilities (property C03).
#include <cstring>
#include "vc.h"
#include "common/hash_utils.h"
using namespace tosca;
namespace {
template <size_t N>
size_t hash(const uint8_t* p) { return HashBytes<N>()(std::span<const uint8_t, N>(p, N)); }
// the hash is a function of the content alone and reads only the array itself (the buffers have exactly N bytes)
template <size_t N>
void pure() {
  auto* a = static_cast<uint8_t*>(__vc_const_buffer(N, 4, "a"));
  auto* b = static_cast<uint8_t*>(__vc_buffer(N, 4, "b"));
  std::memcpy(b, a, N);
  size_t h = hash<N>(a);
  VC_ENSURES("arrays with the same content have the same hash", hash<N>(b) == h);
  VC_ENSURES("hashing the same array again gives the same hash", hash<N>(a) == h);
  __vc_cover("pure");
}
// every byte takes part
template <size_t N>
void sensitive() {
  uint8_t zero[N + 1] = {}, one[N + 1] = {};
  auto i = __vc_concretize(vc_any<uint8_t>("i") % N, N);
  one[i] = 0x80;
  VC_ENSURES("every byte of the array takes part in its hash", hash<N>(zero) != hash<N>(one));
  __vc_cover("sensitive");
}
// arrays that differ in their last byte only never collide
template <size_t N>
void injective() {
  auto* a = static_cast<uint8_t*>(__vc_buffer(N, 4, "a"));
  auto* b = static_cast<uint8_t*>(__vc_buffer(N, 4, "b"));
  std::memcpy(b, a, N);
  auto v = vc_any<uint8_t>("v");
  VC_REQUIRES(v != a[N - 1]);
  b[N - 1] = v;
  VC_ENSURES("changing the last byte of an array changes its hash", hash<N>(a) != hash<N>(b));
  __vc_cover("injective");
}
uint64_t g_n, g_w;
const uint32_t* g_a;
}
#define SIZES(X) X(1) X(2) X(3) X(4) X(5) X(7) X(8) X(16) X(20) X(21) X(31) X(32) X(33) X(64)
#define PURE(n) extern "C" void vch_hash_pure_##n() { pure<n>(); }
#define SENS(n) extern "C" void vch_hash_every_byte_##n() { sensitive<n>(); }
SIZES(PURE)
SIZES(SENS)
#define INJ(n) extern "C" void vch_hash_distinguishes_##n() { injective<n>(); }
SIZES(INJ)

// combining: for a fixed seed different values give different results
extern "C" void vch_combine() {
  auto seed = vc_any<size_t>("seed");
  auto a = vc_any<uint32_t>("a"), b = vc_any<uint32_t>("b");
  size_t x = seed, y = seed, z = seed;
  CombineHash(x, a);
  CombineHash(y, b);
  CombineHash(z, a);
  VC_ENSURES("combining is a function of seed and value", x == z);
  VC_ENSURES("combining different values gives different results", a == b || x != y);
  __vc_cover("combine");
}
// fold(seed, a[0..i)) as an abstract function with its defining equations
namespace {
size_t g_seed;
inline size_t fold(uint64_t i) {
  if (__vc_symbolic()) {
    size_t r;
    __vc_uf("fold", &r, 8, &i, 8);
    return r;
  }
  size_t s = g_seed;
  for (uint64_t j = 0; j < i; j++) CombineHash(s, g_a[j]);
  return s;
}
inline bool fold_step(uint64_t i) {
  size_t s = fold(i);
  CombineHash(s, g_a[i < g_n ? i : 0]);
  return (i >= g_n) | (fold(i + 1) == s);
}
size_t* g_acc;
}
// accumulated so far: the fold of the elements before the current one
extern "C" void vinv_fold(uint64_t i) {
  __vc_fact(fold_step(i));
  __vc_inv(*g_acc == fold(i));
}
extern "C" void vinv_fold_including(uint64_t i) {
  __vc_fact(fold_step(i) & fold_step(i + 1));
  __vc_inv(*g_acc == fold(i + 1));
}
extern "C" void vch_hash_range() {
  g_n = vc_any<uint32_t>("n");
  VC_REQUIRES(g_n >= 1 && g_n <= (1u << 28));
  g_a = static_cast<const uint32_t*>(__vc_const_buffer(4 * g_n, 4, "a"));
  g_seed = vc_any<size_t>("seed");
  size_t acc = g_seed;
  g_acc = &acc;
  if (__vc_symbolic()) { __vc_assume(fold(0) == g_seed); __vc_assume(fold_step(0)); }
  if (__vc_bounded()) for (uint64_t i = 0; i < 6; i++) __vc_assume(fold_step(i));
  HashRange(acc, g_a, g_a + g_n);
  VC_ENSURES("hashing a range folds the combination over exactly its elements, left to right", acc == fold(g_n));
  __vc_cover("range");
}
extern "C" void vch_hash_range_empty() {
  auto seed = vc_any<size_t>("seed");
  size_t acc = seed;
  const uint32_t* p = nullptr;
  HashRange(acc, p, p);
  VC_ENSURES("hashing an empty range changes nothing", acc == seed);
  __vc_cover("range empty");
}

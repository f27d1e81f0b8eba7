// Contracts for evmzero::Sha3Cache (property C15): for every history of the cache, hashing equals Keccak-256 of the input.
#include "lru.h"
#define private public
#include "vm/evmzero/sha3_cache.h"
#undef private
using namespace tosca::evmzero;
using W = intx::u256n;
namespace {
// Keccak-256 of a byte string as a big-endian number, stated independently of the code
inline W keccak(const uint8_t* p, uint64_t n) {
  auto h = ethash::keccak256(p, n);
  W r = 0;
  for (int i = 0; i < 32; i++) r = r << 8 | h.bytes[i];
  return r;
}
#ifdef VC_EXTRACT
template <uint64_t N> using Bytes = std::array<uint8_t, N>;
template <uint64_t N, class C> struct CacheOf;
template <uint64_t N, class K, class V, size_t Cap, class H> struct CacheOf<N, tosca::LruCache<K, V, Cap, H>> {
  static constexpr uint64_t capacity = Cap;
  using Pre = lru::Pre<K, V, Cap, H>;
};
template <uint64_t N, class C> void hit_or_miss(Sha3Cache* s, C* c) {
  using Pre = typename CacheOf<N, C>::Pre;
  constexpr uint64_t Cap = CacheOf<N, C>::capacity;
  Bytes<N> key;
  __vc_any(&key, N, "key");
  bool present = __vc_split(vc_any<uint8_t>("present") & 1);
  Pre p(c);
  uint64_t r = Cap;
  int t = p.with_key(present, key, &r);
  W hash = keccak(key.data(), N);
  // invariant: every cached value is the hash of its key (used for the key at hand; preserved for every other entry because
  // neither its key nor its value changes)
  if (present) __vc_assume(p.node[t].value.v == hash);
  W v = s->Hash({key.data(), N}).v;
  VC_ENSURES("hashing returns the Keccak-256 of the input", v == hash);
  for (int i = 0; i < p.nodes; i++) {
    auto* e = p.node[i].e;
    bool same = __vc_split(e->key == p.node[i].key);
    if (same && !(present && i == t)) same = __vc_split(e->value.v == p.node[i].value.v);
    if (!same) VC_ENSURES("an entry that changes holds the input and its hash", e->key == key && e->value.v == hash);
    if (present && i == t) VC_ENSURES("the value cached under the input is its hash", e->key == key && e->value.v == hash);
  }
  auto* e = p.cached(key);
  VC_ENSURES("the input is bound to its own entry", e != nullptr && e->key == key);
  auto* o = p.cached(p.x);
  if (o != nullptr && __vc_split(p.x != key)) VC_ENSURES("every other cached key stays bound to its entry", o == p.at_x);
  VC_ENSURES("entries not involved are not modified", reinterpret_cast<uint8_t*>(p.buf)[p.b] == p.at_b);
}
#endif
void history() {
  if (__vc_symbolic()) return;
  auto* s = new Sha3Cache;
  std::vector<std::vector<uint8_t>> seen;
  for (int i = 0; i < 40; i++) {
    std::vector<uint8_t> in;
    uint8_t op = vc_any<uint8_t>("op");
    if (op % 3 == 0 && !seen.empty()) {
      in = seen[vc_any<uint8_t>("again") % seen.size()];
      if (op % 2) in.resize(std::array{0, 31, 32, 33, 63, 64, 65, 96}[vc_any<uint8_t>("len") % 8]);
      if (op % 5 == 0 && !in.empty()) in[vc_any<uint8_t>("at") % in.size()] ^= 1 << op % 8;
    } else {
      in.resize(std::array{0, 1, 31, 32, 32, 32, 33, 63, 64, 64, 64, 65, 96, 128, 136, 200}[vc_any<uint8_t>("len") % 16]);
      for (auto& b : in) b = vc_any<uint8_t>("b");
    }
    if (i == 20 && op < 8) for (uint64_t j = 0; j < 1030; j++) { std::vector<uint8_t> f(op % 2 ? 32 : 64); std::memcpy(f.data(), &j, 8); s->Hash(f); }
    seen.push_back(in);
    VC_ENSURES("hashing returns the Keccak-256 of the input", s->Hash(in).v == keccak(in.data(), in.size()));
  }
  delete s;
}
}
extern "C" void vch_hash_32() {
#ifdef VC_EXTRACT
  auto* s = static_cast<Sha3Cache*>(__vc_buffer(sizeof(Sha3Cache), 16, "sha3_cache"));
  hit_or_miss<32>(s, &s->cache_32_);
  __vc_cover("hash 32");
#endif
  history();
}
extern "C" void vch_hash_64() {
#ifdef VC_EXTRACT
  auto* s = static_cast<Sha3Cache*>(__vc_buffer(sizeof(Sha3Cache), 16, "sha3_cache"));
  hit_or_miss<64>(s, &s->cache_64_);
  __vc_cover("hash 64");
#endif
  history();
}
// inputs of every other length
extern "C" void vch_hash_other() {
#ifdef VC_EXTRACT
  auto* s = static_cast<Sha3Cache*>(__vc_buffer(sizeof(Sha3Cache), 16, "sha3_cache"));
  uint64_t n = vc_any<uint64_t>("n");
  VC_REQUIRES(n != 32 && n != 64 && n < uint64_t{1} << 40);
  auto* in = static_cast<uint8_t*>(__vc_const_buffer(n, 1, "input"));
  VC_ENSURES("hashing returns the Keccak-256 of the input", s->Hash({in, n}).v == keccak(in, n));
  __vc_cover("hash other");
#endif
  history();
}

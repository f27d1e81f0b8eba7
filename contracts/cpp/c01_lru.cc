// Contracts for tosca::LruCache (property C01).
#include "lru.h"
using K = uint64_t;
using V = uint64_t;
template <uint64_t N> using Cache = tosca::LruCache<K, V, N>;
#ifdef VC_EXTRACT
using lru::Pre;
template <uint64_t N> static void get() {
  auto* c = lru::storage<Cache<N>>();
  K key = vc_any<K>("key");
  bool present = __vc_split(vc_any<uint8_t>("present") & 1);
  Pre<K, V, N> p(c);
  uint64_t r = N;
  int t = p.with_key(present, key, &r);
  auto v = c->Get(key);
  if (present) {
    VC_ENSURES("a lookup returns the value stored under the key", v.has_value() && *v == p.node[t].value);
    p.ordered(r, "a lookup makes its entry the most recently used, the others keep their order", "a lookup makes its entry the first of the recency order");
    p.contents(nullptr);
    VC_ENSURES("a lookup keeps the set of cached keys", c->index_.size() == p.k && p.cached(p.x) == p.at_x);
    __vc_cover("get present");
  } else {
    VC_ENSURES("a lookup of a key that is not cached returns nothing", !v.has_value());
    p.unchanged();
    __vc_cover("get absent");
  }
}
template <uint64_t N, bool Combined> static void insert() {
  auto* c = lru::storage<Cache<N>>();
  K key = vc_any<K>("key");
  V value = vc_any<V>("new_value");
  bool present = __vc_split(vc_any<uint8_t>("present") & 1);
  Pre<K, V, N> p(c);
  uint64_t r = N;
  int t = p.with_key(present, key, &r);
  int made = 0;
  V v;
  if constexpr (Combined) v = c->GetOrInsert(key, [&] { made++; return value; });
  else v = c->InsertOrAssign(key, value);
  if (present && Combined) {
    VC_ENSURES("a combined lookup returns the cached value and makes no new one", v == p.node[t].value && made == 0);
    p.ordered(r, "a lookup makes its entry the most recently used, the others keep their order", "a lookup makes its entry the first of the recency order");
    p.contents(nullptr);
    VC_ENSURES("a lookup keeps the set of cached keys", c->index_.size() == p.k && p.cached(p.x) == p.at_x);
    __vc_cover("combined present");
  } else if (present) {
    VC_ENSURES("an overwrite stores and returns the new value", v == value && p.node[t].e->value == value && p.node[t].e->key == key);
    p.ordered(N, "an overwrite keeps the recency order", "an overwrite keeps the ends of the recency order");
    p.contents(p.node[t].e);
    VC_ENSURES("an overwrite keeps the set of cached keys", c->index_.size() == p.k && p.cached(p.x) == p.at_x && p.cached(key) == p.node[t].e);
    __vc_cover("overwrite");
  } else {
    VC_ENSURES("an insertion returns the new value", v == value && (!Combined || made == 1));
    p.inserted(key, value);
    __vc_cover("insert new");
  }
}
// a fresh or cleared cache is an arrangement of all entries in one list, with no key cached
template <uint64_t N> static void empty(Cache<N>* c) {
  VC_ENSURES("an empty cache holds no key", c->index_.size() == 0 && c->index_.find(vc_any<K>("any_key")) == c->index_.end());
  VC_ENSURES("an empty cache has room for as many entries as its capacity", c->entries_.size() == N && c->GetMaxSize() == N);
  bool ok = c->head_->pred == nullptr && c->tail_->succ == nullptr;
  auto* e = c->head_;
  for (uint64_t i = 0; ok && i + 1 < N; i++) {
    auto* s = e->succ;
    ok = s != nullptr && s->pred == e && s >= c->entries_.data() && s < c->entries_.data() + N;
    e = s;
  }
  VC_ENSURES("all entries of an empty cache form one list", ok && e == c->tail_);
}
template <uint64_t N> static void clear() {
  if (__vc_split(vc_any<uint8_t>("new") & 1)) {
    auto* c = new Cache<N>;
    empty<N>(c);
    delete c;
    __vc_cover("new");
  } else {
    auto* c = lru::storage<Cache<N>>();
    Pre<K, V, N> p(c);
    p.ends();
    p.build();
    c->Clear();
    empty<N>(c);
    VC_ENSURES("clearing removes every key", p.cached(p.x) == nullptr);
    __vc_cover("clear");
  }
}
#define OPS(N) \
  extern "C" void vch_get_##N() { if (!__vc_symbolic()) lru::history<Cache<N>, K, V, N>(); else get<N>(); } \
  extern "C" void vch_insert_##N() { if (!__vc_symbolic()) lru::history<Cache<N>, K, V, N>(); else insert<N, false>(); } \
  extern "C" void vch_get_or_insert_##N() { if (!__vc_symbolic()) lru::history<Cache<N>, K, V, N>(); else insert<N, true>(); }
#define CLEAR(N) extern "C" void vch_clear_##N() { if (!__vc_symbolic()) lru::history<Cache<N>, K, V, N>(); else clear<N>(); }
#else
#define OPS(N) \
  extern "C" void vch_get_##N() { lru::history<Cache<N>, K, V, N>(); } \
  extern "C" void vch_insert_##N() { lru::history<Cache<N>, K, V, N>(); } \
  extern "C" void vch_get_or_insert_##N() { lru::history<Cache<N>, K, V, N>(); }
#define CLEAR(N) extern "C" void vch_clear_##N() { lru::history<Cache<N>, K, V, N>(); }
#endif
OPS(1)
OPS(2)
OPS(3)
OPS(4)
OPS(8)
OPS(1024)
OPS(65536)
CLEAR(1)
CLEAR(2)
CLEAR(3)
CLEAR(8)
CLEAR(1024)

// Representation contract of tosca::LruCache: a cache of capacity N with k live entries, of any history.
// The recency list is described by the rank of each entry (0 = most recently used). Only the entries an operation may touch
// are spelled out (any aliasing between them); every other entry is opaque: touching it is a violation.
#pragma once
#define VC_ABSTRACT_MAP
#include <algorithm>
#include <array>
#include <cstddef>
#include <cstring>
#include <list>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <unordered_map>
#include <vector>
#include "vc.h"
#include "absl/container/flat_hash_map.h"
#define private public   // the representation is part of the specified state
#include "common/lru_cache.h"
#undef private
namespace lru {
#ifdef VC_EXTRACT
template <class K, class V, uint64_t N, class H = std::hash<K>>
struct Pre {
  using C = tosca::LruCache<K, V, N, H>;
  using E = typename C::Entry;
  struct Node {
    E* e;
    uint64_t r;       // rank
    E *pred, *succ;
    K key;
    V value;
    bool live;
  };
  C* c;
  E* buf;
  Node node[8];
  int nodes = 0;
  uint64_t far_r[12];
  E* far_e[12];
  int fars = 0;
  uint64_t k;         // number of cached keys
  K x;                // an arbitrary key
  E* at_x = nullptr;  // its entry, if cached
  uint64_t b;         // an arbitrary byte of the entries
  uint8_t at_b = 0;
  explicit Pre(C* storage) : c(storage) {
    buf = static_cast<E*>(__vc_buffer(N * sizeof(E), 16, "entries"));
    k = vc_any<uint64_t>("live");
    VC_REQUIRES(k <= N);
  }
  int touch(uint64_t r) {
    for (int i = 0; i < nodes; i++) if (__vc_split(node[i].r == r)) return i;
    uint64_t pos = N >= 16 ? 3 + 2 * nodes : N - 1 - nodes;
    node[nodes].e = buf + pos;
    node[nodes].r = r;
    __vc_any(&node[nodes].key, sizeof(K), "key");
    __vc_any(&node[nodes].value, sizeof(V), "value");
    return nodes++;
  }
  static E* opaque() { return static_cast<E*>(__vc_buffer(1, 16, "other")); }
  // the entry of rank r, which is not spelled out
  E* far(uint64_t r) {
    for (int i = 0; i < fars; i++) if (__vc_split(far_r[i] == r)) return far_e[i];
    far_r[fars] = r;
    far_e[fars] = opaque();
    return far_e[fars++];
  }
  // the entries around rank r, and both ends of the list
  int around(uint64_t r) {
    touch(0);
    if (__vc_split(r > 0)) touch(r - 1);
    int t = touch(r);
    if (__vc_split(r + 1 < N)) touch(r + 1);
    touch(N - 1);
    return t;
  }
  void ends() {
    touch(0);
    if (N > 1) touch(N - 2);
    touch(N - 1);
  }
  // the representation invariant for the named entries
  void build() {
    new (&c->mutex_) std::mutex;
    new (&c->index_) absl::flat_hash_map<K, E*, H>;
    E* rep[3] = {buf, buf + N, buf + N};
    static_assert(sizeof(c->entries_) == sizeof(rep));
    std::memcpy(static_cast<void*>(&c->entries_), rep, sizeof(rep));
    uint64_t live = 0;
    for (int i = 0; i < nodes; i++) {
      Node& n = node[i];
      n.pred = n.succ = nullptr;
      if (__vc_split(n.r != 0)) {
        for (int j = 0; j < nodes; j++) if (j != i && __vc_split(node[j].r + 1 == n.r)) n.pred = node[j].e;
        if (n.pred == nullptr) n.pred = far(n.r - 1);
      } else {
        c->head_ = n.e;
      }
      if (__vc_split(n.r != N - 1)) {
        for (int j = 0; j < nodes; j++) if (j != i && __vc_split(node[j].r == n.r + 1)) n.succ = node[j].e;
        if (n.succ == nullptr) n.succ = far(n.r + 1);
      } else {
        c->tail_ = n.e;
      }
      n.e->key = n.key;
      n.e->value = n.value;
      n.e->pred = n.pred;
      n.e->succ = n.succ;
      n.live = __vc_split(n.r < k);
      if (n.live) {
        live++;
        for (int j = 0; j < i; j++) if (node[j].live) __vc_assume(node[j].key != n.key);
        c->index_.vc_add(n.key, n.e);
      }
    }
    // an arbitrary key: one of the named ones, another cached one, or one that is not cached
    __vc_any(&x, sizeof(K), "observed_key");
    for (int i = 0; i < nodes; i++) if (node[i].live && __vc_split(node[i].key == x)) at_x = node[i].e;
    if (at_x == nullptr && __vc_split(vc_any<uint8_t>("observed_cached") & 1)) {
      VC_REQUIRES(k > live);
      at_x = opaque();
      c->index_.vc_add(x, at_x);
    }
    c->index_.vc_set_size(k);
    // an arbitrary byte of the other entries
    b = vc_any<uint64_t>("byte");
    VC_REQUIRES(b < N * sizeof(E));
    for (int i = 0; i < nodes; i++) {
      uint64_t o = uint64_t(reinterpret_cast<uint8_t*>(node[i].e) - reinterpret_cast<uint8_t*>(buf));
      __vc_assume((b < o) | (b >= o + sizeof(E)));
    }
    at_b = reinterpret_cast<uint8_t*>(buf)[b];
  }
  // entry that had rank r before the operation
  E* at(uint64_t r) const {
    for (int i = 0; i < nodes; i++) if (__vc_split(node[i].r == r)) return node[i].e;
    for (int i = 0; i < fars; i++) if (__vc_split(far_r[i] == r)) return far_e[i];
    __vc_assert(false, "contract names every entry an operation may link");
    return nullptr;
  }
  E* cached(const K& key) const {
    auto it = c->index_.find(key);
    return it == c->index_.end() ? nullptr : it->second;
  }
  // the entry of old rank t (or none: t = N) has become the most recent one, the others keep their order
  void ordered(uint64_t t, const char* links, const char* ends) const {
    auto before = [t](uint64_t r) { return t == N || r > t ? r : r == 0 ? t : r - 1; };   // old rank of the entry now at rank r
    for (int i = 0; i < nodes; i++) {
      const Node& n = node[i];
      uint64_t now = t == N || __vc_split(n.r > t) ? n.r : __vc_split(n.r == t) ? 0 : n.r + 1;
      E* pred = __vc_split(now != 0) ? at(before(now - 1)) : nullptr;
      E* succ = __vc_split(now != N - 1) ? at(before(now + 1)) : nullptr;
      VC_ENSURES(links, n.e->pred == pred && n.e->succ == succ);
    }
    VC_ENSURES(ends, c->head_ == at(before(0)) && c->tail_ == at(before(N - 1)));
  }
  // named entries other than `but` keep key and value; all others keep every byte
  void contents(const E* but) const {
    for (int i = 0; i < nodes; i++)
      if (node[i].e != but) VC_ENSURES("other entries keep their key and value", node[i].e->key == node[i].key && node[i].e->value == node[i].value);
    VC_ENSURES("entries not involved are not modified", reinterpret_cast<uint8_t*>(buf)[b] == at_b);
    VC_ENSURES("the storage of the entries stays in place", c->entries_.data() == buf && c->entries_.size() == N);
  }
  void unchanged() const {
    ordered(N, "the recency order is unchanged", "the ends of the recency order are unchanged");
    contents(nullptr);
    VC_ENSURES("the set of cached keys is unchanged", c->index_.size() == k && cached(x) == at_x);
  }
  void guard() const {
    auto* held = reinterpret_cast<const uint8_t*>(&c->mutex_);
    const char* l = "shared cache state is only accessed while the cache lock is held";
    __vc_guard(&c->head_, sizeof(c->head_), held, l);
    __vc_guard(&c->tail_, sizeof(c->tail_), held, l);
    __vc_guard(&c->entries_, sizeof(c->entries_), held, l);
    __vc_guard(&c->index_, sizeof(c->index_), held, l);
    __vc_guard(buf, N * sizeof(E), held, l);
  }
  bool unlocked() const { return *reinterpret_cast<const uint8_t*>(&c->mutex_) == 0; }
  // key to look up: cached at rank r, or not cached
  int with_key(bool present, const K& key, uint64_t* rank) {
    if (present) {
      *rank = vc_any<uint64_t>("rank");
      VC_REQUIRES(*rank < k);
      int t = around(*rank);
      __vc_assume(node[t].key == key);
      build();
      return t;
    }
    ends();
    build();
    for (int i = 0; i < nodes; i++) if (node[i].live) __vc_assume(node[i].key != key);
    __vc_assume(at_x == nullptr || x != key);
    return -1;
  }
  void inserted(const K& key, const V& value) const {
    ordered(N - 1, "the new entry is the most recently used one, the others keep their order", "a new entry takes the least recently used place and becomes the first");
    const Node& t = node[touched(N - 1)];
    contents(t.e);
    VC_ENSURES("the new entry holds key and value", t.e->key == key && t.e->value == value);
    bool full = __vc_split(k == N);
    VC_ENSURES("the number of cached keys grows up to the capacity", c->index_.size() == (full ? N : k + 1));
    VC_ENSURES("the new key is cached", cached(key) == t.e);
    if (full && __vc_split(key != t.key)) VC_ENSURES("the least recently used key is evicted from a full cache", cached(t.key) == nullptr);
    if (__vc_split(x != key) && !(full && __vc_split(x == t.key))) VC_ENSURES("every other key stays as it was", cached(x) == at_x);
  }
  int touched(uint64_t r) const {
    for (int i = 0; i < nodes; i++) if (__vc_split(node[i].r == r)) return i;
    return -1;
  }
};
template <class C> inline C* storage() { return static_cast<C*>(__vc_buffer(sizeof(C), 16, "cache")); }
#endif
// native search: random histories against a reference cache
template <class C, class K, class V, uint64_t N>
void history() {
  if (__vc_symbolic()) return;
  C* c = new C;
  std::vector<std::pair<K, V>> ref;   // most recently used first
  int steps = vc_any<uint8_t>("steps") % 64;
  for (int s = 0; s < steps; s++) {
    K key = K(vc_any<uint8_t>("k") % (2 * (N < 40 ? N : 40) + 2));
    V v = vc_any<V>("v");
    auto it = std::find_if(ref.begin(), ref.end(), [&](auto& p) { return p.first == key; });
    auto add = [&] {
      if (ref.size() == N) ref.pop_back();
      ref.insert(ref.begin(), {key, v});
    };
    switch (vc_any<uint8_t>("op") % 16) {
      default: {
        auto r = c->Get(key);
        VC_ENSURES("a lookup returns the cached value or nothing", r.has_value() == (it != ref.end()) && (!r || *r == it->second));
        if (it != ref.end()) std::rotate(ref.begin(), it, it + 1);
        break;
      }
      case 5: case 6: case 7: case 8: case 9: case 10:
        VC_ENSURES("an insertion returns the value", c->InsertOrAssign(key, v) == v);
        if (it != ref.end()) it->second = v; else add();
        break;
      case 11: case 12: case 13: case 14: {
        bool made = false;
        V r = c->GetOrInsert(key, [&] { made = true; return v; });
        VC_ENSURES("a combined lookup returns the cached or the new value", made == (it == ref.end()) && r == (made ? v : it->second));
        if (it != ref.end()) std::rotate(ref.begin(), it, it + 1); else add();
        break;
      }
      case 15:
        if (vc_any<uint8_t>("clear") % 8 == 0) { c->Clear(); ref.clear(); }
    }
  }
  // evict-order probe
  for (auto& p : std::vector(ref.rbegin(), ref.rend())) {
    auto r = c->Get(p.first);
    VC_ENSURES("every cached key is found", r.has_value() && *r == p.second);
  }
  delete c;
}
}  // namespace lru

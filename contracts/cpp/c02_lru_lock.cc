// Lock discipline of tosca::LruCache (property C02): in every state of the cache, every public operation accesses the shared
// state only between taking and releasing the cache lock.
#include <thread>
#include "lru.h"
using K = uint64_t;
using V = uint64_t;
template <uint64_t N> using Cache = tosca::LruCache<K, V, N>;
#ifdef VC_EXTRACT
using lru::Pre;
template <uint64_t N, int OP> static void locked() {
  auto* c = lru::storage<Cache<N>>();
  K key = vc_any<K>("key");
  V value = vc_any<V>("new_value");
  bool present = __vc_split(vc_any<uint8_t>("present") & 1);
  Pre<K, V, N> p(c);
  uint64_t r = N;
  int t = p.with_key(present, key, &r);
  V old = present ? p.node[t].value : 0;
  p.guard();
  if constexpr (OP == 0) {
    auto&& v = c->Get(key);
    VC_ENSURES("the result of a lookup is a copy taken under the lock", v.has_value() == present && (!present || *v == old));
    __vc_cover("get");
  } else if constexpr (OP == 1) {
    auto&& v = c->InsertOrAssign(key, value);
    VC_ENSURES("the result of an insertion is a copy taken under the lock", v == value);
    __vc_cover("insert");
  } else if constexpr (OP == 2) {
    auto&& v = c->GetOrInsert(key, [&] { return value; });
    VC_ENSURES("the result of a combined lookup is a copy taken under the lock", v == (present ? old : value));
    __vc_cover("get or insert");
  } else {
    c->Clear();
    __vc_cover("clear");
  }
  VC_ENSURES("the lock is released on return", p.unlocked());
  __vc_unguard();
}
#endif
// natively: the same operations under concurrent use (run with the address sanitizer; a lost update or a torn list shows up)
template <uint64_t N> static void concurrent() {
  if (__vc_symbolic()) return;
  Cache<N>* c = new Cache<N>;
  uint64_t seed = vc_any<uint64_t>("seed");
  std::atomic<int> bad{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < 4; t++)
    ts.emplace_back([&, t] {
      uint64_t s = seed + t;
      for (int i = 0; i < 20000; i++) {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        K k = (s >> 33) % (N + 2);
        switch ((s >> 50) % 8) {
          case 0: case 1: case 2: { auto v = c->Get(k); if (v && *v % 64 != k % 64) bad++; break; }
          case 3: case 4: if (c->InsertOrAssign(k, k % 64 + 64 * (s >> 40)) % 64 != k % 64) bad++; break;
          case 5: case 6: if (c->GetOrInsert(k, [&] { return k % 64; }) % 64 != k % 64) bad++; break;
          case 7: if ((s >> 60) == 0) c->Clear(); break;
        }
      }
    });
  for (auto& t : ts) t.join();
  VC_ENSURES("no thread sees a value of another key", bad == 0);
  delete c;
}
#ifdef VC_EXTRACT
#define H(name, N, OP) extern "C" void vch_##name##_##N() { if (!__vc_symbolic()) concurrent<N>(); else locked<N, OP>(); }
#else
#define H(name, N, OP) extern "C" void vch_##name##_##N() { concurrent<N>(); }
#endif
#define ALL(N) H(get, N, 0) H(insert, N, 1) H(get_or_insert, N, 2)
ALL(1)
ALL(2)
ALL(4)
ALL(1024)
ALL(65536)
H(clear, 1, 3)
H(clear, 2, 3)
H(clear, 8, 3)
H(clear, 64, 3)

// Stub of absl::flat_hash_map: a finite map. Under the verifier (contracts that define VC_ABSTRACT_MAP) it is the list of the
// bindings a contract speaks about plus a count; natively it is a std::unordered_map.
#pragma once
#include <cstddef>
#include <functional>
#include <unordered_map>
#include <utility>
namespace absl {
#if defined(VC_EXTRACT) && defined(VC_ABSTRACT_MAP)
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>>
class flat_hash_map {
 public:
  struct value_type { K first; V second; };
  struct iterator {
    value_type* p;
    value_type* operator->() const { return p; }
    value_type& operator*() const { return *p; }
    bool operator==(const iterator& o) const { return p == o.p; }
    bool operator!=(const iterator& o) const { return p != o.p; }
  };
  using const_iterator = iterator;
  static constexpr size_t kSlots = 12;
  iterator begin() const = delete;   // the bindings outside the contract's view are not enumerable
  iterator end() const { return {nullptr}; }
  iterator find(const K& k) const {
    for (size_t i = 0; i < used_; i++) if (live_[i] && E{}(slot_[i].first, k)) return {const_cast<value_type*>(&slot_[i])};
    return end();
  }
  bool contains(const K& k) const { return find(k) != end(); }
  size_t count(const K& k) const { return contains(k); }
  V& at(const K& k) { return find(k)->second; }
  V& operator[](const K& k) { return try_emplace(k).first->second; }
  template <class... A> std::pair<iterator, bool> try_emplace(const K& k, A&&... a) {
    auto it = find(k);
    if (it != end()) return {it, false};
    return {vc_add(k, V(std::forward<A>(a)...)), true};
  }
  template <class... A> std::pair<iterator, bool> emplace(const K& k, A&&... a) { return try_emplace(k, std::forward<A>(a)...); }
  std::pair<iterator, bool> insert(const std::pair<const K, V>& x) { return try_emplace(x.first, x.second); }
  template <class W> std::pair<iterator, bool> insert_or_assign(const K& k, W&& w) {
    auto r = try_emplace(k, w);
    if (!r.second) r.first->second = w;
    return r;
  }
  size_t erase(const K& k) {
    auto it = find(k);
    if (it == end()) return 0;
    erase(it);
    return 1;
  }
  void erase(iterator it) { live_[it.p - slot_] = false; size_--; }
  size_t size() const { return size_; }
  bool empty() const { return size_ == 0; }
  void clear() { used_ = 0; size_ = 0; }
  void reserve(size_t) {}
  void rehash(size_t) {}
  // contract side
  iterator vc_add(const K& k, const V& v) {
    slot_[used_] = {k, v};
    live_[used_] = true;
    size_++;
    return {&slot_[used_++]};
  }
  void vc_set_size(size_t n) { size_ = n; }

 private:
  value_type slot_[kSlots];
  bool live_[kSlots];
  size_t used_ = 0, size_ = 0;
};
#else
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>>
class flat_hash_map : public std::unordered_map<K, V, H, E> {
 public:
  using std::unordered_map<K, V, H, E>::unordered_map;
};
#endif
}

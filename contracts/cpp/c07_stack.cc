// Contracts for evmzero::Stack (property C07). Every harness starts from an arbitrary stack (any depth, any content).
#include <atomic>
#include <cstring>
#include <mutex>
#include <new>
#include <ostream>
#include "vc.h"
#define private public   // the free list is part of the specified state
#include "vm/evmzero/stack.h"
#undef private
#include "vm/evmzero/stack.cc"
using namespace tosca::evmzero;
namespace {
using W = intx::u256n;
constexpr uint64_t kN = 1024;
// an arbitrary stack of n words; word j counted from the bottom is bottom(s, j)
inline uint64_t arbitrary(Stack& s, const char* name) {
  uint256_t* end = s.Top();
  __vc_havoc(end - kN, 32 * kN, "content");
  uint64_t n = vc_any<uint16_t>(name);
  VC_REQUIRES(n <= kN);
  s.SetTop(end - n);
  return n;
}
inline W bottom(Stack& s, uint64_t j) { return (s.Top() + s.GetSize() - 1 - j)->v; }
struct Pre {
  Stack s;
  uint64_t n, j;
  W at_j = 0;
  Pre() {
    n = arbitrary(s, "size");
    j = vc_any<uint16_t>("j");
    VC_REQUIRES(j < kN);
    at_j = (s.Top() + n - 1 - j)->v;   // any word of the storage, counted from the bottom
  }
};
}
extern "C" void vch_new() {
  Stack s;
  VC_ENSURES("a new stack is empty", s.GetSize() == 0);
  VC_ENSURES("a stack holds up to 1024 words", s.GetMaxSize() == kN);
  __vc_cover("new");
}
extern "C" void vch_push() {
  Pre p;
  VC_REQUIRES(p.n < kN);
  uint256_t v;
  __vc_any(&v, 32, "v");
  W w = v.v;
  p.s.Push(v);
  VC_ENSURES("push adds one word", p.s.GetSize() == p.n + 1);
  VC_ENSURES("push puts the word on top and changes no other", bottom(p.s, p.j) == (p.j == p.n ? w : p.at_j));
  VC_ENSURES("the pushed word is the top", p.s[0].v == w && p.s.Top()->v == w);
  __vc_cover("push");
}
extern "C" void vch_pop() {
  Pre p;
  VC_REQUIRES(p.n > 0);
  W top = bottom(p.s, p.n - 1);
  VC_ENSURES("pop returns the top word", p.s.Pop().v == top);
  VC_ENSURES("pop removes one word", p.s.GetSize() == p.n - 1);
  VC_ENSURES("pop changes no word", bottom(p.s, p.j) == p.at_j);
  __vc_cover("pop");
}
extern "C" void vch_index() {
  Pre p;
  auto i = vc_any<uint16_t>("i");
  VC_REQUIRES(i < p.n);
  const Stack& c = p.s;
  VC_ENSURES("index counts from the top", p.s[i].v == bottom(p.s, p.n - 1 - i) && c[i].v == p.s[i].v);
  uint256_t v;
  __vc_any(&v, 32, "v");
  W w = v.v;
  p.s[i] = v;
  VC_ENSURES("writing an element changes exactly that word", bottom(p.s, p.j) == (p.j == p.n - 1 - i ? w : p.at_j));
  VC_ENSURES("writing an element keeps the size", p.s.GetSize() == p.n);
  __vc_cover("index");
}
extern "C" void vch_set_top() {
  Pre p;
  auto m = vc_any<uint16_t>("m");
  VC_REQUIRES(m <= kN);
  uint256_t* t = p.s.Top() + p.n - m;
  p.s.SetTop(t);
  VC_ENSURES("moving the top changes the size only", p.s.Top() == t && p.s.GetSize() == m && bottom(p.s, p.j) == p.at_j);
  __vc_cover("set_top");
}
extern "C" void vch_list() {
  uint256_t a, b, c;
  __vc_any(&a, 32, "a");
  __vc_any(&b, 32, "b");
  __vc_any(&c, 32, "c");
  W x = a.v, y = b.v, z = c.v;
  Stack s{a, b, c};
  VC_ENSURES("a listed stack holds the listed words, the last one on top", s.GetSize() == 3 && s[0].v == z && s[1].v == y && s[2].v == x);
  __vc_cover("list");
}
// a write to one of two stacks is not seen through the other one
static void independent(Stack& a, Stack& b, uint64_t n, uint64_t j, W at_j) {
  auto i = vc_any<uint16_t>("i");
  VC_REQUIRES(i < n && j < n);
  uint256_t v;
  __vc_any(&v, 32, "v");
  W w = v.v;
  if (__vc_split(vc_any<uint8_t>("which") & 1)) {
    a[i] = v;
    VC_ENSURES("writing the original leaves the copy unchanged", bottom(b, j) == at_j);
    VC_ENSURES("writing the original changes exactly one word of it", bottom(a, j) == (j == n - 1 - i ? w : at_j));
  } else {
    b[i] = v;
    VC_ENSURES("writing the copy leaves the original unchanged", bottom(a, j) == at_j);
    VC_ENSURES("writing the copy changes exactly one word of it", bottom(b, j) == (j == n - 1 - i ? w : at_j));
  }
}
extern "C" void vch_copy() {
  Pre p;
  VC_REQUIRES(p.j < p.n);
  Stack c(p.s);
  VC_ENSURES("a copy has the size of the original", c.GetSize() == p.n && p.s.GetSize() == p.n);
  VC_ENSURES("a copy holds the words of the original", bottom(c, p.j) == p.at_j && bottom(p.s, p.j) == p.at_j);
  independent(p.s, c, p.n, p.j, p.at_j);
  __vc_cover("copy");
}
extern "C" void vch_assign() {
  Pre p;
  VC_REQUIRES(p.j < p.n);
  Stack c;
  arbitrary(c, "old_size");
  Stack& r = (c = p.s);
  VC_ENSURES("assignment returns its target", &r == &c);
  VC_ENSURES("assignment copies the size", c.GetSize() == p.n && p.s.GetSize() == p.n);
  VC_ENSURES("assignment copies the words", bottom(c, p.j) == p.at_j && bottom(p.s, p.j) == p.at_j);
  independent(p.s, c, p.n, p.j, p.at_j);
  __vc_cover("assign");
}
extern "C" void vch_assign_self() {
  Pre p;
  Stack& same = p.s;
  p.s = same;
  VC_ENSURES("assigning a stack to itself changes nothing", p.s.GetSize() == p.n && bottom(p.s, p.j) == p.at_j);
  __vc_cover("assign self");
}
// a copy stays intact when the original is gone and its storage is used again
extern "C" void vch_copy_outlives() {
  Stack* a = new Stack();
  uint64_t n = arbitrary(*a, "size");
  auto j = vc_any<uint16_t>("j");
  VC_REQUIRES(j < n);
  W at_j = bottom(*a, j);
  Stack c(*a);
  delete a;
  Stack d, e;
  VC_ENSURES("a stack in recycled storage is empty", d.GetSize() == 0 && e.GetSize() == 0);
  arbitrary(d, "size_d");
  arbitrary(e, "size_e");
  VC_ENSURES("a copy outlives its original", c.GetSize() == n && bottom(c, j) == at_j);
  VC_ENSURES("live stacks never share storage", d.Top() + d.GetSize() != e.Top() + e.GetSize() && c.Top() + n != d.Top() + d.GetSize() && c.Top() + n != e.Top() + e.GetSize());
  __vc_cover("outlives");
}
// ---------------------------------------------------------------- equality
namespace {
Stack *g_a, *g_b;
uint64_t g_n, g_w;
bool g_all;   // hypothesis: the stacks hold the same words
}
namespace {
// the hypothesis at one index
inline bool hypothesis(uint64_t i) {
  uint64_t c = i < g_n ? i : 0;
  return !g_all | (g_a->Top()[c].v == g_b->Top()[c].v);
}
inline bool same_word() { return g_a->Top()[g_w].v == g_b->Top()[g_w].v; }
}
// the words before (up to) the current position have been found equal
extern "C" void vinv_equal_before(uint64_t i) {
  __vc_fact(hypothesis(i) & hypothesis(i + 1));
  __vc_inv(!(g_w < i) | same_word());
}
extern "C" void vinv_equal_including(uint64_t i) {
  __vc_fact(hypothesis(i) & hypothesis(i + 1));
  __vc_inv(!(g_w <= i) | same_word());
}
namespace {
// both operators state the same three facts, so that inequality is the negation of equality
template <class F>
inline void compare(F equal) {
  Stack a, b;
  g_a = &a;
  g_b = &b;
  g_n = arbitrary(a, "size");
  uint64_t m = arbitrary(b, "size_b");
  g_w = vc_any<uint16_t>("w");
  VC_REQUIRES(g_n > 0 && g_w < g_n);
  if (__vc_symbolic()) {
    g_all = vc_any<uint8_t>("all") & 1;
    __vc_assume(hypothesis(0));
    if (__vc_bounded()) for (uint64_t i = 1; i < 3; i++) __vc_assume(hypothesis(i));
  } else {
    if (vc_any<uint8_t>("make_equal") & 1) { b = a; m = g_n; }
    g_all = g_n == m;
    for (uint64_t i = 0; g_all && i < g_n; i++) g_all = a[i].v == b[i].v;
  }
  bool r = equal(a, b);
  VC_ENSURES("stacks of different sizes differ", g_n == m || !r);
  VC_ENSURES("equal stacks hold the same words", !r || a[g_w].v == b[g_w].v);
  VC_ENSURES("stacks with the same words are equal", !(g_all && g_n == m) || r);
}
}
extern "C" void vch_equal() {
  compare([](const Stack& a, const Stack& b) { return a == b; });
  __vc_cover("equal");
}
extern "C" void vch_unequal() {
  compare([](const Stack& a, const Stack& b) { return !(a != b); });
  __vc_cover("unequal");
}
extern "C" void vch_equal_empty() {
  Stack a, b;
  uint64_t m = arbitrary(b, "size_b");
  VC_ENSURES("an empty stack equals exactly the empty stacks", (a == b) == (m == 0) && (b == a) == (m == 0) && (a != b) == (m != 0));
  __vc_cover("equal empty");
}
// ---------------------------------------------------------------- recycled storage
namespace {
template <class S>
concept HasFreeList = requires { S::Data::free_list; S::Data::free_list_mutex; S::Data::Get(); };
template <class S>
void get_and_release() {
  if constexpr (HasFreeList<S>) {
    using D = typename S::Data;
    if (!__vc_symbolic()) return;
    // an arbitrary free list: its first element and whatever follows
    bool empty = __vc_split(vc_any<uint8_t>("empty") & 1);
    D* head = empty ? nullptr : new D();
    D* rest = __vc_split(vc_any<uint8_t>("single") & 1) ? nullptr : new D();
    if (!empty) head->next_ = rest;
    D* live = new D();
    D::free_list = head;
    static uint8_t held;
    auto* mutex = reinterpret_cast<const uint8_t*>(&D::free_list_mutex);
    __vc_guard(&D::free_list, sizeof(D*), mutex, "the free list is only touched while its lock is held");
    if (__vc_split(vc_any<uint8_t>("op") & 1)) {
      D* d = D::Get();
      __vc_unguard();
      VC_ENSURES("storage comes from the free list or is new", d != nullptr && d != live && d != rest && (empty || d == head));
      VC_ENSURES("storage handed out leaves the free list", D::free_list == (empty ? nullptr : rest));
      __vc_cover("get");
    } else {
      live->Release();
      __vc_unguard();
      VC_ENSURES("released storage becomes the first of the free list and keeps the others", D::free_list == live && live->next_ == head && (empty || head->next_ == rest));
      __vc_cover("release");
    }
    VC_ENSURES("the lock is released", *mutex == 0);
    (void)held;
  }
}
}
extern "C" void vch_recycling() { get_and_release<Stack>(); }

// Contract of Context::MemoryExpansionCost, shared by C10 and C13: callers are verified against vcontract_memory_expansion_cost,
// the function itself against the same statement with the fee formula written out.
#pragma once
#include "evm.h"
namespace spec {
// accesses beyond 2^36 bytes cost more than any gas amount in range
constexpr uint64_t kReach = uint64_t{1} << 36;
constexpr int64_t kFeeMax = int64_t{1} << 54, kFeeOut = int64_t{1} << 52;
struct Fee { bool affordable = true; int64_t cost = 0; };
inline bool within_reach(W off, W size) { return (off < kReach) & (size < kReach) & (uint64_t(off) + uint64_t(size) <= kReach); }
// fee difference between two memory sizes; every use is backed by the lemma proved in the contract of MemoryExpansionCost
inline int64_t fee_delta(uint64_t off, uint64_t size, uint64_t mem) {
  return __vc_memory_fee(size == 0 ? 0 : off + size, mem);   // zero unless growing
}
template <class V> Fee fee(const V& v, W off, W size) {
  Fee f;
  if (!((size == 0) | within_reach(off, size))) {
    // reachable only while not growing: memory is never larger than 2^32 bytes here
    f.affordable = false;
    return f;
  }
  // a word-aligned size has the fee of its last byte
  f.cost = fee_delta(uint64_t(off), uint64_t(size), v.mem);
  return f;
}
// one side of the case split below
template <class V> void arrange_near(V& v, int off, int size) {
  v.top0[off].v = W(vc_any<uint64_t>("near_offset") & (kReach - 1));
  v.top0[size].v = W(vc_any<uint64_t>("near_size") & (kReach - 1));
}
template <class V> void arrange_far(V& v, int off, int size) {
  if (__vc_split(vc_any<uint8_t>("far_empty") & 1)) {
    v.top0[size].v = 0;
    VC_REQUIRES(v.in(off) >= kReach);
  } else {
    VC_REQUIRES(v.in(size) != 0 && !within_reach(v.in(off), v.in(size)));
  }
}
// case split over the operands (offset, size) of a memory access: both below 2^36, or not
template <class V> bool arrange(V& v, int off, int size) {
  if (__vc_split(vc_any<uint8_t>("near") & 1)) {
    v.top0[off].v = W(vc_any<uint64_t>("near_offset") & (kReach - 1));
    if (size >= 0) v.top0[size].v = W(vc_any<uint64_t>("near_size") & (kReach - 1));
    return true;
  }
  if (size >= 0) arrange_far(v, off, size);
  else VC_REQUIRES(v.in(off) >= kReach);
  return false;
}
// the same for a source offset
template <class V> void arrange_source(V& v, int src) {
  if (__vc_split(vc_any<uint8_t>("near_source") & 1)) v.top0[src].v = W(vc_any<uint64_t>("near_source_offset") & (kReach - 1));
  else VC_REQUIRES(v.in(src) >= kReach);
}
inline int64_t words(W size) { return int64_t((uint64_t(size) + 31) / 32); }
// memory size after an access
inline uint64_t grown(uint64_t mem, W off, W size) { return memspec::size_after(mem, uint64_t(off), uint64_t(size)); }
}
extern "C" spec::Context::MemoryExpansionCostResult vcontract_memory_expansion_cost(spec::Context* self, spec::uint256_t offset, spec::uint256_t size) {
  using namespace spec;
  Context::MemoryExpansionCostResult r;
  if (!((size.v == 0) | within_reach(offset.v, size.v))) {
    r.gas_cost = vc_any<int64_t>("unpayable");
    VC_REQUIRES(r.gas_cost >= kFeeOut);
    r.offset = vc_any<uint64_t>("unpayable");
    r.size = vc_any<uint64_t>("unpayable");
    return r;
  }
  r.offset = static_cast<uint64_t>(offset.v);
  r.size = static_cast<uint64_t>(size.v);
  r.gas_cost = fee_delta(r.offset, r.size, self->memory.GetSize());
  return r;
}
namespace spec {
inline void contract_memory_expansion_cost() {
  Vm<0x51, true> v;
  v.init(kMem);
  W off = vc_any<uint256_t>("offset").v, size = vc_any<uint256_t>("size").v;
  uint256_t a, b;
  a.v = off; b.v = size;
  auto r = v.ctx.MemoryExpansionCost(a, b);
  auto cost = [](uint64_t bytes) { int64_t w = int64_t((bytes + 31) / 32); return w * w / 512 + 3 * w; };
  if (size == 0) {
    VC_ENSURES("an empty access is free at any offset", r.gas_cost == 0 && r.size == 0);
  } else if (!within_reach(off, size)) {
    VC_ENSURES("an access out of reach costs more than any available gas", r.gas_cost >= kFeeOut);
    __vc_cover("unpayable");
  } else {
    uint64_t end = uint64_t(off) + uint64_t(size);
    VC_ENSURES("offset and size are the operands", r.offset == uint64_t(off) && r.size == uint64_t(size));
    if (end <= v.mem) VC_ENSURES("no growth, no fee", r.gas_cost == 0);
    else {
      VC_ENSURES("growing costs the difference of words^2/512 + 3 words", r.gas_cost == cost(end) - cost(v.mem));
      __vc_cover("growth");
    }
  }
  VC_ENSURES("the query changes nothing", v.ctx.memory.GetSize() == v.mem && v.ctx.gas == v.gas && v.ctx.gas_refunds == v.refunds && v.ctx.state == RunState::kRunning);
}
}
extern "C" void vch_contract_fee_bounds() {
  using namespace spec;
  auto end = vc_any<uint64_t>("end"), mem = vc_any<uint64_t>("mem");
  VC_REQUIRES(end <= kReach && mem < end && mem % 32 == 0);
  auto cost = [](uint64_t bytes) {
    int64_t w = int64_t((bytes + 31) / 32), sq;
    __builtin_mul_overflow(w, w, &sq);
    VC_ENSURES("squares do not overflow", sq == w * w);
    __vc_assume(sq == w * w);   // just proved
    return sq / 512 + 3 * w;
  };
  int64_t d = cost(end) - cost(mem);
  VC_ENSURES("lemma: a growing access costs less than 2^54", d >= 1 && d < kFeeMax);
}
extern "C" void vch_contract_memory_expansion_cost() { spec::contract_memory_expansion_cost(); }

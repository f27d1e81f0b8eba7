// Contracts for the call and create instructions of evmzero (property C13).
#include "memfee.h"
using namespace spec;
// assumed contracts of std::vector<uint8_t>
extern "C" void vcontract_vector_clear(std::vector<uint8_t>* v) {
  uint8_t* rep[3];
  std::memcpy(rep, static_cast<void*>(v), sizeof(rep));
  rep[1] = rep[0];
  std::memcpy(static_cast<void*>(v), rep, sizeof(rep));
}
extern "C" void vcontract_vector_assign(std::vector<uint8_t>* v, const uint8_t* first, const uint8_t* last) {
  uint8_t* rep[3];
  std::memcpy(rep, static_cast<void*>(v), sizeof(rep));
  uint64_t n = uint64_t(last - first);
  __vc_assert(n <= uint64_t(rep[2] - rep[0]), "std::vector: assigned range of an admissible size");
  std::memcpy(rep[0], first, n);
  rep[1] = rep[0] + n;
  std::memcpy(static_cast<void*>(v), rep, sizeof(rep));
}
namespace {
inline int find(const Host& h, int kind) { for (int i = 0; i < 10; i++) if (i < h.n && h.ev[i].kind == kind) return i; return -1; }
inline int count(const Host& h, int kind) { int c = 0; for (int i = 0; i < 10; i++) if (i < h.n && h.ev[i].kind == kind) c++; return c; }
inline bool berlin(const Context& c) { return c.revision >= EVMC_BERLIN; }
inline uint64_t larger(uint64_t a, uint64_t b) { return a > b ? a : b; }

template <class V> void failed(V& v, bool kind) {
  v.failed_with(kind);
  VC_ENSURES("a failed instruction sends no message", find(v.host, kCall) < 0);
  v.refunds_same();
}
// OP: 0xf1 CALL, 0xf2 CALLCODE, 0xf4 DELEGATECALL, 0xfa STATICCALL
template <int OP, bool VALUE, bool NEAR, bool S> void call() {
  constexpr int B = (OP == 0xf1 || OP == 0xf2) ? 3 : 2;     // index of the input offset operand
  constexpr bool with_value = B == 3;
  Vm<OP, S> v;
  v.init(kMem | kRet | kMsg | kExt | kCallRes);
  v.require_ready();
  Host& h = v.host;
  if (NEAR) {
    arrange_near(v, B, B + 1);
    arrange_near(v, B + 2, B + 3);
  } else if (__vc_split(vc_any<uint8_t>("far_input") & 1)) {
    arrange_far(v, B, B + 1);
  } else {
    arrange_near(v, B, B + 1);
    arrange_far(v, B + 2, B + 3);
  }
  W limit = v.in(0), value = with_value ? v.in(2) : W(0), in_off = v.in(B), in_size = v.in(B + 1), out_off = v.in(B + 2), out_size = v.in(B + 3);
  if (with_value) VC_REQUIRES((value != 0) == VALUE);
  evmc_address a = addr(v.in(1));
  h.at = v.k - uint64_t(in_off);
  Fee fi = fee(v, in_off, in_size), fo = fee(v, out_off, out_size);
  v.run();
  if (v.msg.depth > 1024) {
    failed(v, true);
    return;
  }
  bool b = berlin(v.ctx), is_static = v.ctx.is_static_call;
  int64_t access_cost = !b ? 700 : h.access == EVMC_ACCESS_WARM ? 100 : 2600;
  int64_t cost = access_cost + (VALUE ? 9000 : 0) + (VALUE && OP != 0xf2 && !h.exists ? 25000 : 0) + (fi.cost < fo.cost ? fo.cost : fi.cost);
  int64_t rest = int64_t(uint64_t(v.gas) - uint64_t(cost)), stipend = VALUE ? 2300 : 0;
  bool forbidden = OP == 0xf1 && VALUE && is_static;
  for (int i = 0; i < 5; i++) {
    if (i >= h.n) continue;
    const Event& e = h.ev[i];
    VC_ENSURES("only the call itself and queries of the callee and the own balance reach the host",
               e.kind == kCall || (e.kind == kGetBalance && eq(e.a, v.msg.recipient)) || ((e.kind == kAccessAccount || e.kind == kAccountExists) && eq(e.a, a)));
  }
  if (!fi.affordable || !fo.affordable || rest < 0) {
    failed(v, v.ctx.state == RunState::kErrorGas || (forbidden && v.ctx.state == RunState::kErrorStaticCall));
    __vc_cover("call out of gas");
    return;
  }
  if (forbidden) {
    failed(v, v.ctx.state == RunState::kErrorStaticCall);
    if (OP == 0xf1) __vc_cover("value transfer in static mode");
    return;
  }
  VC_ENSURES("the callee is marked accessed exactly when the revision prices access", count(h, kAccessAccount) == (b ? 1 : 0));
  uint64_t size = memspec::size_after(memspec::size_after(v.mem, uint64_t(out_off), uint64_t(out_size)), uint64_t(in_off), uint64_t(in_size));
  VC_ENSURES("memory grows to exactly the words covering input and output", v.ctx.memory.GetSize() == size);
  if (VALUE && word(h.balance) < value) {
    v.completed(cost - stipend, v.pc + 1);
    VC_ENSURES("an unaffordable transfer pushes zero", v.out(0) == 0);
    VC_ENSURES("an unaffordable transfer sends no message", find(h, kCall) < 0);
    if (S) VC_ENSURES("an unaffordable transfer leaves no return data", v.ctx.return_data.size() == 0);
    VC_ENSURES("an unaffordable transfer leaves memory content", v.mem_byte() == v.at_k);
    v.refunds_same();
    if (with_value) __vc_cover("unaffordable transfer");
    return;
  }
  const evmc_message& m = h.msg;
  int64_t avail = rest - rest / 64;
  int64_t capped = limit < W(INT64_MAX) ? int64_t(uint64_t(limit)) : INT64_MAX;
  int64_t given = (capped < avail ? capped : avail) + stipend;
  VC_ENSURES("exactly one message is sent", count(h, kCall) == 1);
  VC_ENSURES("message kind", m.kind == (OP == 0xf4 ? EVMC_DELEGATECALL : OP == 0xf2 ? EVMC_CALLCODE : EVMC_CALL));
  VC_ENSURES("static mode is inherited, and entered by STATICCALL", m.flags == ((OP == 0xfa || is_static) ? uint32_t{EVMC_STATIC} : 0u));
  VC_ENSURES("depth increases by one", m.depth == v.msg.depth + 1);
  VC_ENSURES("at most all but one 64th of the gas is passed, plus the stipend", m.gas == given);
  VC_ENSURES("recipient", eq(m.recipient, OP == 0xf1 || OP == 0xfa ? a : v.msg.recipient));
  VC_ENSURES("sender", eq(m.sender, OP == 0xf4 ? v.msg.sender : v.msg.recipient));
  VC_ENSURES("code address", eq(m.code_address, a));
  VC_ENSURES("value", word(m.value) == (OP == 0xf4 ? word(v.msg.value) : value));
  VC_ENSURES("input size", m.input_size == uint64_t(in_size));
  VC_ENSURES("each input byte is the addressed memory byte", (h.at >= m.input_size) | (h.at_byte == v.at_k));
  v.completed(int64_t(uint64_t(cost) - uint64_t(stipend) + uint64_t(m.gas) - uint64_t(h.result_gas_left)), v.pc + 1);
  VC_ENSURES("success is reported as 1, anything else as 0", v.out(0) == W(h.result.status_code == EVMC_SUCCESS ? 1 : 0));
  VC_ENSURES("the refund of the callee is accumulated", v.ctx.gas_refunds == v.refunds + h.result.gas_refund);
  uint64_t osize = h.result.output_size;
  uint64_t n = uint64_t(out_size) < osize ? uint64_t(out_size) : osize;
  uint8_t e = memspec::byte_after_read(v.at_k, v.k, h.result.output_data, osize, uint64_t(out_off), n);
  VC_ENSURES("exactly the available output bytes are copied into the output window", (v.k >= size) | (v.mem_byte() == e));
  if (S) {
    VC_ENSURES("the return data is the callee's output", v.ctx.return_data.size() == osize);
    auto r = vc_any<uint32_t>("r");
    VC_ENSURES("each return data byte is the output byte", __vc_peek(r < osize, v.ctx.return_data.data(), r) == __vc_peek(r < osize, h.result.output_data, r));
  }
  __vc_cover("call");
}
template <int OP, bool S> void create() {
  Vm<OP, S> v;
  v.init(kMem | kRet | kMsg | kExt | kCallRes);
  v.require_ready();
  Host& h = v.host;
  arrange(v, 1, 2);
  W value = v.in(0), off = v.in(1), size = v.in(2), salt = OP == 0xf5 ? v.in(3) : W(0);
  h.at = v.k - uint64_t(off);
  v.run();
  if (v.msg.depth > 1024) {
    failed(v, true);
    return;
  }
  Fee f = fee(v, off, size);
  bool shanghai = v.ctx.revision >= EVMC_SHANGHAI, too_large = shanghai && size > 49152;
  int64_t w = f.affordable ? words(size) : 0;
  int64_t cost = 32000 + f.cost + (shanghai ? 2 * w : 0) + (OP == 0xf5 ? 6 * w : 0);
  int64_t rest = int64_t(uint64_t(v.gas) - uint64_t(cost));
  for (int i = 0; i < 4; i++) {
    if (i >= h.n) continue;
    VC_ENSURES("only the creation itself and queries of the own balance reach the host", h.ev[i].kind == kCall || (h.ev[i].kind == kGetBalance && eq(h.ev[i].a, v.msg.recipient)));
  }
  if (!f.affordable || rest < 0 || too_large) {
    failed(v, ((!f.affordable || rest < 0) && v.ctx.state == RunState::kErrorGas) || (too_large && v.ctx.state == RunState::kErrorInitCodeSizeExceeded));
    if (too_large) __vc_cover("init code too large");
    else __vc_cover("create out of gas");
    return;
  }
  uint64_t after = grown(v.mem, off, size);
  VC_ENSURES("memory grows to exactly the words covering the init code", v.ctx.memory.GetSize() == after);
  VC_ENSURES("memory content is unchanged", (v.k >= after) | (v.mem_byte() == v.at_k));
  if (word(h.balance) < value) {
    v.completed(cost, v.pc + 1);
    VC_ENSURES("an unaffordable endowment pushes zero", v.out(0) == 0);
    VC_ENSURES("an unaffordable endowment sends no message", find(h, kCall) < 0);
    if (S) VC_ENSURES("an unaffordable endowment leaves no return data", v.ctx.return_data.size() == 0);
    v.refunds_same();
    __vc_cover("unaffordable endowment");
    return;
  }
  const evmc_message& m = h.msg;
  int64_t given = rest - rest / 64;
  VC_ENSURES("exactly one message is sent", count(h, kCall) == 1);
  VC_ENSURES("message kind", m.kind == (OP == 0xf0 ? EVMC_CREATE : EVMC_CREATE2));
  VC_ENSURES("creation happens outside static mode", m.flags == 0);
  VC_ENSURES("depth increases by one", m.depth == v.msg.depth + 1);
  VC_ENSURES("exactly all but one 64th of the gas is passed", m.gas == given);
  VC_ENSURES("sender", eq(m.sender, v.msg.recipient));
  VC_ENSURES("value", word(m.value) == value);
  VC_ENSURES("salt", word(m.create2_salt) == salt);
  VC_ENSURES("init code size", m.input_size == uint64_t(size));
  VC_ENSURES("each init code byte is the addressed memory byte", (h.at >= m.input_size) | (h.at_byte == v.at_k));
  v.completed(int64_t(uint64_t(cost) + uint64_t(m.gas) - uint64_t(h.result_gas_left)), v.pc + 1);
  VC_ENSURES("the new address is pushed on success, zero otherwise", v.out(0) == (h.result.status_code == EVMC_SUCCESS ? word(h.result.create_address) : W(0)));
  VC_ENSURES("the refund of the creation is accumulated", v.ctx.gas_refunds == v.refunds + h.result.gas_refund);
  if (S) {
    uint64_t osize = h.result.status_code == EVMC_REVERT ? h.result.output_size : 0;
    VC_ENSURES("the return data is the output of a reverted creation, else empty", v.ctx.return_data.size() == osize);
    auto r = vc_any<uint32_t>("r");
    VC_ENSURES("each return data byte is the output byte", __vc_peek(r < osize, v.ctx.return_data.data(), r) == __vc_peek(r < osize, h.result.output_data, r));
  }
  __vc_cover("create");
}
}
#define K1(n, fn, ...) extern "C" void vch_##n() { fn<__VA_ARGS__, true>(); } extern "C" void vch_##n##_loop() { fn<__VA_ARGS__, false>(); }
#define K(n, ...) K1(n, call, __VA_ARGS__, true) extern "C" void vch_##n##_far() { call<__VA_ARGS__, false, true>(); }
K(call, 0xf1, false) K(call_value, 0xf1, true) K(callcode, 0xf2, false) K(callcode_value, 0xf2, true)
K(delegatecall, 0xf4, false) K(staticcall, 0xfa, false) K1(create, create, 0xf0) K1(create2, create, 0xf5)

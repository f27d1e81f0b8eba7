// Contracts for control flow, pushes and stack word movement of evmzero (property C11).
#include "evm.h"
using namespace spec;
namespace {
inline W byte_of(W x, unsigned i) { return (x >> (8 * i)) & 0xff; }   // i-th byte from the right
template <int OP, bool S> void push() {
  constexpr int N = OP - 0x5f;
  Vm<OP, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  // immediate, most significant byte first; the padded code (contract of PadCode below) is the code followed by 33 zero bytes, so that
  // this is the immediate extended by zeros at the end of the code
  W e = 0;
  for (int i = 0; i < N; i++) e = (e << 8) | W(v.code[v.pc + 1 + i]);
  v.run();
  v.completed(3, v.pc + uint64_t(N) + 1);
  VC_ENSURES("the immediate bytes are pushed, zero beyond the code", v.out(0) == e);
  v.memory_same(); v.return_data_same(); v.refunds_same(); v.no_host();
  __vc_cover("push");
}
template <int OP, bool S> void dup() {
  constexpr int N = OP - 0x7f;
  Vm<OP, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  W e = v.in(N - 1);
  auto i = vc_any<uint8_t>("i");
  VC_REQUIRES(i < N);
  W w = v.top0[i].v;
  v.run();
  v.completed(3, v.pc + 1);
  VC_ENSURES("the addressed word is duplicated", v.out(0) == e);
  VC_ENSURES("duplicated and intermediate words stay", v.ctx.stack[uint64_t(i) + 1].v == w);
  v.memory_same(); v.return_data_same(); v.refunds_same(); v.no_host();
  __vc_cover("dup");
}
template <int OP, bool S> void swap() {
  constexpr int N = OP - 0x8f;
  Vm<OP, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  W a = v.in(0), b = v.in(N);
  auto i = vc_any<uint8_t>("i");
  VC_REQUIRES(i < N && i > 0 || N == 1);
  W w = v.top0[i].v;
  v.run();
  v.completed(3, v.pc + 1);
  VC_ENSURES("the addressed words are exchanged", v.out(0) == b && v.out(N) == a);
  if (i > 0 && i < N) VC_ENSURES("words between stay", v.ctx.stack[i].v == w);
  v.memory_same(); v.return_data_same(); v.refunds_same(); v.no_host();
  __vc_cover("swap");
}
template <bool S> void pop() {
  Vm<0x50, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  v.run();
  v.completed(2, v.pc + 1);
  v.memory_same(); v.return_data_same(); v.refunds_same(); v.no_host();
  __vc_cover("pop");
}
template <bool S> void push0() {
  Vm<0x5f, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  v.run();
  v.completed(2, v.pc + 1);
  VC_ENSURES("zero is pushed", v.out(0) == 0);
  v.memory_same(); v.return_data_same(); v.refunds_same(); v.no_host();
  __vc_cover("push0");
}
template <bool S> void jumpdest() {
  Vm<0x5b, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  v.run();
  v.completed(1, v.pc + 1);
  v.memory_same(); v.return_data_same(); v.refunds_same(); v.no_host();
  __vc_cover("jumpdest");
}
template <int OP, bool S> void jump() {
  constexpr Info I = info(OP);
  Vm<OP, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  W target = v.in(0);
  bool taken = OP == 0x56 || v.in(1) != 0;
  auto* valid = static_cast<uint8_t*>(__vc_buffer(v.code_len, 1, "valid"));
  v.ctx.valid_jump_targets = {valid, v.code_len};
  bool ok = target < v.code_len && valid[uint64_t(target)] != 0;
  int64_t extra = 0;
  if (!S && taken && ok) {
    // valid targets hold JUMPDEST; the run ends behind it
    uint64_t t = uint64_t(target);
    VC_REQUIRES(t > 1);
    v.code[t] = 0x5b;
    v.code[t + 1] = 0;
    extra = 1;
  }
  v.run();
  if (taken && !ok) {
    v.failed_with(v.ctx.state == RunState::kErrorJump);
    __vc_cover("invalid jump");
  } else if (v.gas < I.gas + extra) {
    v.failed_with(v.ctx.state == RunState::kErrorGas);
  } else {
    v.completed(I.gas + extra, taken ? uint64_t(target) : v.pc + 1);
    v.return_data_same();
    if (taken) __vc_cover("jump taken"); else __vc_cover("jump not taken");
  }
  v.memory_same(); v.refunds_same(); v.no_host();
}
// beyond a jump in the run loop, execution continues with the instruction after the JUMPDEST
void jump_continues() {
  Vm<0x56, false> v;
  v.init(kMem);
  v.require_ready();
  W target = v.in(0);
  auto* valid = static_cast<uint8_t*>(__vc_buffer(v.code_len, 1, "valid"));
  v.ctx.valid_jump_targets = {valid, v.code_len};
  VC_REQUIRES(target < v.code_len && valid[uint64_t(target)] != 0);
  uint64_t t = uint64_t(target);
  VC_REQUIRES(t > 2);
  std::memset(v.code + v.code_len, 0, 33);
  v.code[t] = 0x5b;
  v.code[t + 1] = 0x58;   // PC
  v.code[t + 2] = 0;
  v.run();
  if (v.gas >= 11) {
    VC_ENSURES("the run completes", v.ctx.state == RunState::kDone);
    VC_ENSURES("gas of all three instructions is charged", v.ctx.gas == v.gas - 11);
    VC_ENSURES("the instruction behind the jump destination ran at its position", v.out(0) == t + 1);
    VC_ENSURES("stack depth", v.ctx.stack.GetSize() == v.n);
  } else {
    v.failed_with(v.ctx.state == RunState::kErrorGas);
  }
  __vc_cover("jump continues");
}
// running off the end of the code stops successfully
template <bool S> void end_of_code() {
  Vm<0x00, S> v;
  v.init(kMem | kRet);
  std::memset(v.code + v.code_len, 0, 33);
  if (S) {
    v.pc = vc_any<uint32_t>("pc_end");
    VC_REQUIRES(v.pc >= v.code_len && v.pc < v.code_len + 33);
    v.ctx.pc = v.pc;
  } else {
    // an empty code
    v.ctx.padded_code = {v.code + v.code_len, 33};
  }
  v.run();
  VC_ENSURES("execution ends successfully", v.ctx.state == RunState::kDone);
  VC_ENSURES("gas unchanged", v.ctx.gas == v.gas);
  VC_ENSURES("no output", v.ctx.return_data.size() == 0);
  VC_ENSURES("stack depth unchanged", v.ctx.stack.GetSize() == v.n);
  v.deep_same(); v.memory_same(); v.refunds_same(); v.no_host();
  __vc_cover("end of code");
}
template <bool S> void stop() {
  Vm<0x00, S> v;
  v.init(kMem | kRet);
  v.run();
  VC_ENSURES("STOP ends successfully", v.ctx.state == RunState::kDone);
  VC_ENSURES("STOP is free", v.ctx.gas == v.gas);
  VC_ENSURES("STOP has no output", v.ctx.return_data.size() == 0);
  VC_ENSURES("stack depth unchanged", v.ctx.stack.GetSize() == v.n);
  v.deep_same(); v.memory_same(); v.refunds_same(); v.no_host();
  __vc_cover("stop");
}
void pad_code() {
  auto n = vc_any<uint32_t>("code_len");
  auto* c = static_cast<const uint8_t*>(__vc_const_buffer(n, 1, "code"));
  auto k = vc_any<uint64_t>("k");
  auto p = internal::PadCode(std::span<const uint8_t>(c, n));
  VC_ENSURES("padded by exactly 33 bytes, which a PUSH32 at the end cannot exceed", p.size() == uint64_t(n) + 33);
  VC_REQUIRES(k < p.size());
  VC_ENSURES("padding keeps the code and adds STOP bytes", p[k] == (k < n ? c[k] : 0));
  __vc_cover("pad code");
}
}
#define G(name) extern "C" void vch_##name() { name<true>(); } extern "C" void vch_##name##_loop() { name<false>(); }
G(pop) G(push0) G(jumpdest) G(end_of_code) G(stop)
#define K(fn, op) extern "C" void vch_##fn##_##op() { fn<op, true>(); } extern "C" void vch_##fn##_##op##_loop() { fn<op, false>(); }
K(jump, 0x56) K(jump, 0x57)
K(push, 0x60) K(push, 0x61) K(push, 0x62) K(push, 0x63) K(push, 0x64) K(push, 0x65) K(push, 0x66) K(push, 0x67) K(push, 0x68) K(push, 0x69) K(push, 0x6a) K(push, 0x6b) K(push, 0x6c) K(push, 0x6d) K(push, 0x6e) K(push, 0x6f) K(push, 0x70) K(push, 0x71) K(push, 0x72) K(push, 0x73) K(push, 0x74) K(push, 0x75) K(push, 0x76) K(push, 0x77) K(push, 0x78) K(push, 0x79) K(push, 0x7a) K(push, 0x7b) K(push, 0x7c) K(push, 0x7d) K(push, 0x7e) K(push, 0x7f)
K(dup, 0x80) K(dup, 0x81) K(dup, 0x82) K(dup, 0x83) K(dup, 0x84) K(dup, 0x85) K(dup, 0x86) K(dup, 0x87) K(dup, 0x88) K(dup, 0x89) K(dup, 0x8a) K(dup, 0x8b) K(dup, 0x8c) K(dup, 0x8d) K(dup, 0x8e) K(dup, 0x8f)
K(swap, 0x90) K(swap, 0x91) K(swap, 0x92) K(swap, 0x93) K(swap, 0x94) K(swap, 0x95) K(swap, 0x96) K(swap, 0x97) K(swap, 0x98) K(swap, 0x99) K(swap, 0x9a) K(swap, 0x9b) K(swap, 0x9c) K(swap, 0x9d) K(swap, 0x9e) K(swap, 0x9f)
extern "C" void vch_jump_continues() { jump_continues(); }
extern "C" void vch_pad_code() { pad_code(); }

// Contracts for the checks that precede every instruction of evmzero (property C09): revision, static mode, stack bounds, fixed gas.
#include "evm.h"
using namespace spec;
namespace {
// a state in which at least one of the checks must fail
template <int OP, bool S> void rejected() {
  Vm<OP, S> v;
  v.init(kMem | kRet);
  constexpr Info I = info(OP);
  if constexpr (I.since <= EVMC_ISTANBUL && !I.write && I.pops == 0 && I.pushes == 0 && I.gas == 0) return;   // nothing to check
  VC_REQUIRES(!(v.rev_ok() && v.static_ok() && v.under_ok() && v.over_ok() && v.gas_ok()));
  v.run();
  auto s = v.ctx.state;
  v.failed_with((s == RunState::kErrorOpcode && !v.rev_ok()) || (s == RunState::kErrorStaticCall && !v.static_ok()) ||
                (s == RunState::kErrorStackUnderflow && !v.under_ok()) || (s == RunState::kErrorStackOverflow && !v.over_ok()) ||
                (s == RunState::kErrorGas && !v.gas_ok()));
  v.memory_same();
  v.refunds_same();
  v.no_host();
  if (S) {
    VC_ENSURES("a rejected instruction leaves the stack depth", v.ctx.stack.GetSize() == v.n);
  }
  VC_ENSURES("a rejected instruction leaves the stack content", (v.d >= v.n) | ((v.top0 + v.n - 1 - v.d)->v == v.deep));
  __vc_cover("rejected instruction");
}
// a state in which all checks pass, for instructions whose whole cost is the fixed one
template <int OP, bool S> void accepted() {
  constexpr Info I = info(OP);
  if constexpr (!I.dynamic) {
    Vm<OP, S> v;
    v.init(kMem | kRet | kTx | kMsg | kInput | kExt | kStore);
    v.require_ready();
    v.run();
    v.completed(I.gas, v.pc + uint64_t(I.len));
    v.memory_same();
    v.return_data_same();
    v.refunds_same();
    __vc_cover("accepted instruction");
  }
}
// the checks of the next instruction see the state left by this one: OP followed by DUP1
template <int OP, bool S> void followed() {
  constexpr Info I = info(OP);
  if constexpr (!I.dynamic) {
    Vm<OP, S, 0x80> v;
    v.init(kMem | kTx | kMsg | kInput | kExt | kStore);
    v.require_ready();
    if (S) { v.code[v.pc] = OP; v.code[v.pc + I.len] = 0x80; }
    NoObserver obs;
    internal::RunInterpreter<NoObserver, S>(v.ctx, obs, 2);
    int64_t m = int64_t(v.n) - I.pops + I.pushes;
    if (m >= 1 && m < 1024 && v.gas - I.gas >= 3) {
      VC_ENSURES("two instructions complete", v.ctx.state == (S ? RunState::kRunning : RunState::kDone));
      VC_ENSURES("gas is charged for both", v.ctx.gas == v.gas - I.gas - 3);
      VC_ENSURES("both change the stack depth", v.ctx.stack.GetSize() == uint64_t(m + 1));
      VC_ENSURES("the second sees the result of the first", v.out(0) == v.out(1));
      if (S) VC_ENSURES("the program counter is behind both", v.ctx.pc == v.pc + uint64_t(I.len) + 1);
    } else {
      auto s = v.ctx.state;
      v.failed_with((s == RunState::kErrorStackUnderflow && m < 1) || (s == RunState::kErrorStackOverflow && m >= 1024) || (s == RunState::kErrorGas && v.gas - I.gas < 3));
    }
    __vc_cover("instruction sequence");
  }
}
// bytes that are not instructions of any supported revision
template <bool S> void unused() {
  Vm<0xfe, S> v;
  v.init(kMem | kRet);
  auto b = vc_any<uint8_t>("opcode");
  VC_REQUIRES((b >= 0x0c && b <= 0x0f) || (b >= 0x1e && b <= 0x1f) || (b >= 0x21 && b <= 0x2f) || (b >= 0x4b && b <= 0x4f) ||
              (b >= 0xa5 && b <= 0xef) || (b >= 0xf6 && b <= 0xf9) || (b >= 0xfb && b <= 0xfc) || b == 0xfe);
  v.code[v.pc] = b;
  v.run();
  v.failed_with(v.ctx.state == RunState::kInvalid || v.ctx.state == RunState::kErrorOpcode);
  v.memory_same();
  v.no_host();
  if (S) VC_ENSURES("an undefined instruction leaves the stack depth", v.ctx.stack.GetSize() == v.n);
  __vc_cover("undefined instruction");
}
// executing zero steps, or a state that is not running, changes nothing
void no_step() {
  Vm<0x01, true> v;
  v.init(kMem | kRet);
  auto st = vc_any<uint8_t>("state");
  VC_REQUIRES(st <= 3);   // running, done, return, revert
  v.ctx.state = static_cast<RunState>(st);
  auto steps = vc_any<int32_t>("steps");
  VC_REQUIRES(steps >= 0 && (steps == 0 || st != 0));
  NoObserver obs;
  internal::RunInterpreter<NoObserver, true>(v.ctx, obs, steps);
  VC_ENSURES("no step: state unchanged", v.ctx.state == static_cast<RunState>(st));
  VC_ENSURES("no step: gas unchanged", v.ctx.gas == v.gas);
  VC_ENSURES("no step: program counter unchanged", v.ctx.pc == v.pc);
  VC_ENSURES("no step: stack unchanged", v.ctx.stack.GetSize() == v.n);
  v.memory_same();
  v.refunds_same();
  v.no_host();
  __vc_cover("no step");
}
}
#define H(op) \
  extern "C" void vch_reject_##op() { rejected<op, true>(); } \
  extern "C" void vch_reject_loop_##op() { rejected<op, false>(); } \
  extern "C" void vch_accept_##op() { accepted<op, true>(); } \
  extern "C" void vch_accept_loop_##op() { accepted<op, false>(); } \
  extern "C" void vch_seq_##op() { followed<op, true>(); } \
  extern "C" void vch_seq_loop_##op() { followed<op, false>(); }
H(0x00) H(0x01) H(0x02) H(0x03) H(0x04) H(0x05) H(0x06) H(0x07) H(0x08) H(0x09) H(0x0a) H(0x0b) H(0x10) H(0x11) H(0x12) H(0x13)
H(0x14) H(0x15) H(0x16) H(0x17) H(0x18) H(0x19) H(0x1a) H(0x1b) H(0x1c) H(0x1d) H(0x20) H(0x30) H(0x31) H(0x32) H(0x33) H(0x34)
H(0x35) H(0x36) H(0x37) H(0x38) H(0x39) H(0x3a) H(0x3b) H(0x3c) H(0x3d) H(0x3e) H(0x3f) H(0x40) H(0x41) H(0x42) H(0x43) H(0x44)
H(0x45) H(0x46) H(0x47) H(0x48) H(0x49) H(0x4a) H(0x50) H(0x51) H(0x52) H(0x53) H(0x54) H(0x55) H(0x56) H(0x57) H(0x58) H(0x59)
H(0x5a) H(0x5b) H(0x5c) H(0x5d) H(0x5e) H(0x5f) H(0x60) H(0x61) H(0x62) H(0x63) H(0x64) H(0x65) H(0x66) H(0x67) H(0x68) H(0x69)
H(0x6a) H(0x6b) H(0x6c) H(0x6d) H(0x6e) H(0x6f) H(0x70) H(0x71) H(0x72) H(0x73) H(0x74) H(0x75) H(0x76) H(0x77) H(0x78) H(0x79)
H(0x7a) H(0x7b) H(0x7c) H(0x7d) H(0x7e) H(0x7f) H(0x80) H(0x81) H(0x82) H(0x83) H(0x84) H(0x85) H(0x86) H(0x87) H(0x88) H(0x89)
H(0x8a) H(0x8b) H(0x8c) H(0x8d) H(0x8e) H(0x8f) H(0x90) H(0x91) H(0x92) H(0x93) H(0x94) H(0x95) H(0x96) H(0x97) H(0x98) H(0x99)
H(0x9a) H(0x9b) H(0x9c) H(0x9d) H(0x9e) H(0x9f) H(0xa0) H(0xa1) H(0xa2) H(0xa3) H(0xa4) H(0xf0) H(0xf1) H(0xf2) H(0xf3) H(0xf4)
H(0xf5) H(0xfa) H(0xfd) H(0xff)
extern "C" void vch_unused() { unused<true>(); }
extern "C" void vch_unused_loop() { unused<false>(); }
extern "C" void vch_no_step() { no_step(); }

// Contracts for the memory-accessing instructions of evmzero (property C10).
#include "memfee.h"
using namespace spec;
namespace {
// byte k of the zero-extended memory before the instruction
template <class V> uint8_t old_k(const V& v) { return v.at_k; }
template <class V> void out_of_gas(V& v) {
  v.failed_with(v.ctx.state == RunState::kErrorGas);
  VC_ENSURES("out of gas before growing memory", v.ctx.memory.GetSize() == v.mem);
  v.memory_same();
  v.refunds_same();
}
// content of memory at the arbitrary index k after the instruction
template <class V> void mem_k(V& v, uint64_t size, uint8_t expected) {
  VC_ENSURES("memory grows to exactly the words covering the access", v.ctx.memory.GetSize() == size);
  VC_ENSURES("each memory byte holds what the instruction prescribes", (v.k >= size) | (v.mem_byte() == expected));
}
template <bool S> void mload() {
  Vm<0x51, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  arrange(v, 0, -1);
  W off = v.in(0);
  auto j = vc_any<uint8_t>("j");
  VC_REQUIRES(j < 32);
  Fee f = fee(v, off, 32);
  if (f.affordable) VC_REQUIRES(v.k == uint64_t(off) + j);
  uint8_t e = old_k(v);
  v.run();
  if (f.affordable && v.gas - 3 >= f.cost) {
    v.completed(3 + f.cost, v.pc + 1);
    mem_k(v, grown(v.mem, off, 32), e);
    v.return_data_same(); v.refunds_same();
    evmc_bytes32 o = bytes32(v.out(0));
    for (unsigned i = 0; i < 32; i++) VC_ENSURES("each byte of the loaded word is the addressed memory byte", (i != j) | (o.bytes[i] == e));
    __vc_cover("mload");
  } else {
    out_of_gas(v);
    __vc_cover("mload out of gas");
  }
  v.no_host();
}
template <int OP, int LEN, bool S> void mstore() {
  Vm<OP, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  arrange(v, 0, -1);
  W off = v.in(0);
  evmc_bytes32 val = bytes32(v.in(1));
  v.run();
  Fee f = fee(v, off, LEN);
  if (f.affordable && v.gas - 3 >= f.cost) {
    v.completed(3 + f.cost, v.pc + 1);
    bool inside = memspec::in(v.k, uint64_t(off), LEN);
    uint8_t s = __vc_peek_checked(inside, val.bytes, 32 - LEN + (v.k - uint64_t(off)));
    uint8_t e = inside ? s : old_k(v);
    mem_k(v, grown(v.mem, off, LEN), e);
    v.return_data_same(); v.refunds_same();
    __vc_cover("mstore");
  } else {
    out_of_gas(v);
    __vc_cover("mstore out of gas");
  }
  v.no_host();
}
// CALLDATACOPY, CODECOPY, RETURNDATACOPY, EXTCODECOPY, MCOPY
template <int OP, bool S> void copy() {
  constexpr int B = OP == 0x3c ? 1 : 0;
  Vm<OP, S> v;
  v.init(kMem | kRet | kMsg | (OP == 0x37 ? kInput : 0) | (OP == 0x3c ? kExt : 0));
  v.require_ready();
  if (arrange(v, B, B + 2)) arrange_source(v, B + 1);
  W dst = v.in(B), src = v.in(B + 1), size = v.in(B + 2);
  const uint8_t* from = OP == 0x37 ? v.msg.input_data : OP == 0x39 ? v.code : OP == 0x3e ? v.retbuf : v.host.code;
  uint64_t avail = OP == 0x37 ? v.msg.input_size : OP == 0x39 ? v.code_len : OP == 0x3e ? v.ret : v.host.code_size;
  int64_t fixed = OP == 0x3c ? (v.ctx.revision < EVMC_BERLIN ? 700 : v.host.access == EVMC_ACCESS_WARM ? 100 : 2600) : 3;
  if (OP == 0x39 && !__vc_symbolic()) std::memset(v.code + v.code_len, 0, 33);
  bool oob = OP == 0x3e && (src > avail || size > avail || uint64_t(src) + uint64_t(size) > avail);
  v.run();
  const Host& h = v.host;
  Fee f = fee(v, dst, size);
  uint64_t n = f.affordable ? uint64_t(size) : 0;
  int64_t cost = fixed + f.cost + 3 * words(n);
  if (!f.affordable || v.gas < cost) {
    v.failed_with(v.ctx.state == RunState::kErrorGas || (oob && v.ctx.state == RunState::kErrorReturnDataCopyOutOfBounds));
    v.memory_same(); v.refunds_same();
    for (int i = 0; i < 3; i++) if (i < h.n) VC_ENSURES("no code is copied without payment", h.ev[i].kind != kCopyCode);
    __vc_cover("copy out of gas");
  } else if (oob) {
    v.failed_with(v.ctx.state == RunState::kErrorReturnDataCopyOutOfBounds);
    v.memory_same(); v.refunds_same();
    if (OP == 0x3e) __vc_cover("return data copy out of bounds");
  } else {
    v.completed(cost, v.pc + 1);
    bool inside = memspec::in(v.k, uint64_t(dst), n);
    uint64_t i = v.k - uint64_t(dst);
    // the code is followed by 33 zero bytes (PadCode, C11); stated for the byte at hand
    if (OP == 0x39 && __vc_symbolic()) VC_REQUIRES(__vc_peek_checked(inside & (src + i >= avail) & (src + i < avail + 33), v.code, uint64_t(src) + i) == 0);
    uint8_t s = __vc_peek_checked(inside & (src < avail) & (i < avail - uint64_t(src)), from, uint64_t(src) + i);
    uint8_t e = inside ? s : old_k(v);
    mem_k(v, grown(v.mem, dst, size), e);
    v.return_data_same(); v.refunds_same();
    __vc_cover("copy");
  }
  if (OP != 0x3c) v.no_host();
  else {
    evmc_address a = addr(v.in(0));
    for (int i = 0; i < 3; i++) if (i < h.n) VC_ENSURES("only the addressed account is queried", eq(h.ev[i].a, a) && (h.ev[i].kind == kAccessAccount || h.ev[i].kind == kCopyCode));
  }
}
template <bool S> void mcopy() {
  Vm<0x5e, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  if (arrange(v, 0, 2)) arrange_source(v, 1);
  W dst = v.in(0), src = v.in(1), size = v.in(2);
  auto i = vc_any<uint64_t>("i");     // arbitrary source index
  VC_REQUIRES(i < kReserve);
  uint8_t from_i = memspec::byte_of(v.membuf, v.mem, i);
  v.run();
  Fee fd = fee(v, dst, size), fs = fee(v, src, size);
  bool affordable = fd.affordable & fs.affordable;
  uint64_t n = affordable ? uint64_t(size) : 0;
  int64_t cost = 3 + 3 * words(n) + (fd.cost > fs.cost ? fd.cost : fs.cost);
  if (!affordable || v.gas < cost) {
    out_of_gas(v);
    __vc_cover("mcopy out of gas");
  } else {
    v.completed(cost, v.pc + 1);
    uint8_t e = old_k(v);
    bool inside = memspec::in(v.k, uint64_t(dst), n);
    VC_REQUIRES(!inside | (i == uint64_t(src) + (v.k - uint64_t(dst))));
    if (inside) e = from_i;
    uint64_t a = grown(v.mem, dst, size), b = grown(v.mem, src, size);
    mem_k(v, a > b ? a : b, e);
    v.return_data_same(); v.refunds_same();
    __vc_cover("mcopy");
  }
  v.no_host();
}
template <bool S> void sha3() {
  Vm<0x20, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  arrange(v, 0, 1);
  W off = v.in(0), size = v.in(1);
  v.run();
  Fee f = fee(v, off, size);
  uint64_t n = f.affordable ? uint64_t(size) : 0;
  int64_t cost = 30 + f.cost + 6 * words(n);
  uint8_t e = old_k(v);
  if (!f.affordable || v.gas < cost) {
    out_of_gas(v);
    __vc_cover("sha3 out of gas");
  } else {
    v.completed(cost, v.pc + 1);
    mem_k(v, grown(v.mem, off, size), e);
    // memory after the instruction is the zero-extended memory before it (obligation above)
    auto digest = ethash::keccak256(n == 0 ? nullptr : &v.ctx.memory[uint64_t(off)], n);
    evmc_bytes32 d;
    std::memcpy(d.bytes, digest.bytes, 32);
    VC_ENSURES("the Keccak digest of exactly the addressed bytes is pushed", v.out(0) == word(d));
    v.return_data_same(); v.refunds_same();
    __vc_cover("sha3");
  }
  v.no_host();
}
template <int N, bool S> void log() {
  Vm<0xa0 + N, S> v;
  v.init(kMem | kRet | kMsg);
  v.require_ready();
  arrange(v, 0, 1);
  W off = v.in(0), size = v.in(1);
  evmc_bytes32 t[4] = {};
  for (int i = 0; i < N; i++) t[i] = bytes32(v.in(2 + i));
  v.run();
  Fee f = fee(v, off, size);
  uint64_t n = f.affordable ? uint64_t(size) : 0;
  int64_t cost = 375 + 375 * N + f.cost + 8 * int64_t(n);
  uint8_t e = old_k(v);
  const Host& h = v.host;
  if (!f.affordable || v.gas < cost) {
    out_of_gas(v);
    v.no_host();
    __vc_cover("log out of gas");
  } else {
    v.completed(cost, v.pc + 1);
    mem_k(v, grown(v.mem, off, size), e);
    VC_ENSURES("exactly one log of the executing account", h.n == 1 && h.ev[0].kind == kLog && eq(h.ev[0].a, v.msg.recipient));
    VC_ENSURES("the log data is exactly the addressed memory", h.ev[0].x == n && (n == 0 || h.ev[0].p == &v.ctx.memory[uint64_t(off)]));
    VC_ENSURES("the log has exactly the given topics", h.ev[0].y == N);
    for (int i = 0; i < N; i++) VC_ENSURES("topics are the operands in order", eq(h.topics[i], t[i]));
    v.return_data_same(); v.refunds_same();
    __vc_cover("log");
  }
}
template <int OP, bool S> void ret() {
  Vm<OP, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  arrange(v, 0, 1);
  W off = v.in(0), size = v.in(1);
  v.run();
  Fee f = fee(v, off, size);
  uint64_t n = f.affordable ? uint64_t(size) : 0;
  uint8_t e = old_k(v);
  if (!f.affordable || v.gas < f.cost) {
    out_of_gas(v);
    __vc_cover("return out of gas");
  } else {
    VC_ENSURES("execution ends as requested", v.ctx.state == (OP == 0xf3 ? RunState::kReturn : RunState::kRevert));
    VC_ENSURES("gas is charged exactly", v.ctx.gas == v.gas - f.cost);
    VC_ENSURES("the output has the requested size", v.ctx.return_data.size() == n);
    if (n != 0 && v.k >= uint64_t(off) && v.k - uint64_t(off) < n)
      VC_ENSURES("each output byte is the addressed memory byte", v.ctx.return_data[v.k - uint64_t(off)] == e);
    v.refunds_same();
    __vc_cover("return");
  }
  v.no_host();
}
}
#define G(name) extern "C" void vch_##name() { name<true>(); } extern "C" void vch_##name##_loop() { name<false>(); }
G(mload) G(mcopy) G(sha3)
#define K(n, fn, ...) extern "C" void vch_##n() { fn<__VA_ARGS__, true>(); } extern "C" void vch_##n##_loop() { fn<__VA_ARGS__, false>(); }
K(mstore, mstore, 0x52, 32) K(mstore8, mstore, 0x53, 1)
K(calldatacopy, copy, 0x37) K(codecopy, copy, 0x39) K(extcodecopy, copy, 0x3c) K(returndatacopy, copy, 0x3e)
K(log0, log, 0) K(log1, log, 1) K(log2, log, 2) K(log3, log, 3) K(log4, log, 4)
K(return, ret, 0xf3) K(revert, ret, 0xfd)

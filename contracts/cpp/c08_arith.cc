// Contracts for the arithmetic and bitwise instructions of evmzero (property C08).
#include "evm.h"
using namespace spec;
namespace {
constexpr int kUnary[] = {0};
inline bool sneg(W x) { return (x >> 255) != 0; }
inline W neg(W x) { return W(0) - x; }
inline W sdiv(W a, W b) {
  if (b == 0) return 0;
  W q = (sneg(a) ? neg(a) : a) / (sneg(b) ? neg(b) : b);
  return sneg(a) != sneg(b) ? neg(q) : q;
}
inline W smod(W a, W b) {
  if (b == 0) return 0;
  W r = (sneg(a) ? neg(a) : a) % (sneg(b) ? neg(b) : b);
  return sneg(a) ? neg(r) : r;
}
using W512 = intx::u512n;
inline W signextend(W b, W x) {
  if (b > 31) return x;
  unsigned s = 255 - (8 * unsigned(b) + 7);
  return W(SW(x << s) >> s);
}
inline W sar(W s, W x) {
  if (s > 255) return sneg(x) ? ~W(0) : W(0);
  return W(SW(x) >> unsigned(s));
}
// EVM result of the instruction
template <int OP> W expected(W a, W b, W c) {
  switch (OP) {
    case 0x01: return a + b;
    case 0x02: return a * b;
    case 0x03: return a - b;
    case 0x04: return b == 0 ? W(0) : a / b;
    case 0x05: return sdiv(a, b);
    case 0x06: return b == 0 ? W(0) : a % b;
    case 0x07: return smod(a, b);
    case 0x08: return c == 0 ? W(0) : W((W512(a) + W512(b)) % W512(c));
    case 0x09: return c == 0 ? W(0) : W((W512(a) * W512(b)) % W512(c));
    case 0x0a: { W io[2] = {a, b}, r; __vc_uf("exp256", &r, 32, io, 64); return r; }
    case 0x0b: return signextend(a, b);
    case 0x10: return a < b;
    case 0x11: return a > b;
    case 0x12: return SW(a) < SW(b);
    case 0x13: return SW(a) > SW(b);
    case 0x14: return a == b;
    case 0x15: return a == 0;
    case 0x16: return a & b;
    case 0x17: return a | b;
    case 0x18: return a ^ b;
    case 0x19: return ~a;
    case 0x1a: return a >= 32 ? W(0) : (b >> (8 * (31 - unsigned(a)))) & 0xff;
    case 0x1b: return a > 255 ? W(0) : b << unsigned(a);
    case 0x1c: return a > 255 ? W(0) : b >> unsigned(a);
    case 0x1d: return sar(a, b);
  }
  return 0;
}
template <int OP, bool S> void arith() {
  Vm<OP, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  constexpr Info I = info(OP);
  W a = v.in(0), b = I.pops > 1 ? v.in(1) : W(0), c = I.pops > 2 ? v.in(2) : W(0);
  v.run();
  W e = expected<OP>(a, b, c);
  v.completed(I.gas, v.pc + 1);
  VC_ENSURES("the result is the EVM result", v.out(0) == e);
  v.memory_same();
  v.return_data_same();
  v.refunds_same();
  v.no_host();
  __vc_cover("arithmetic");
}
template <bool S> void exponent() {
  Vm<0x0a, S> v;
  v.init(kMem | kRet);
  v.require_ready();
  W a = v.in(0), b = v.in(1);
  unsigned bytes = 0;   // number of significant bytes of the exponent
  for (int i = 0; i < 32; i++) bytes += (b >> (8 * i)) != 0 ? 1 : 0;
  int64_t cost = 10 + 50 * int64_t(bytes);
  v.run();
  if (v.gas >= cost) {
    v.completed(cost, v.pc + 1);
    VC_ENSURES("the result is the EVM power", v.out(0) == expected<0x0a>(a, b, 0));
    v.memory_same();
    v.return_data_same();
    v.refunds_same();
    __vc_cover("exp");
  } else {
    v.failed_with(v.ctx.state == RunState::kErrorGas);
    v.memory_same();
    __vc_cover("exp out of gas");
  }
  v.no_host();
}
}
#define H(name, op) extern "C" void vch_##name() { arith<op, true>(); } extern "C" void vch_loop_##name() { arith<op, false>(); }
H(add, 0x01) H(mul, 0x02) H(sub, 0x03) H(div, 0x04) H(sdiv, 0x05) H(mod, 0x06) H(smod, 0x07) H(addmod, 0x08) H(mulmod, 0x09)
H(signextend, 0x0b) H(lt, 0x10) H(gt, 0x11) H(slt, 0x12) H(sgt, 0x13) H(eq, 0x14) H(iszero, 0x15) H(and, 0x16) H(or, 0x17) H(xor, 0x18) H(not, 0x19)
H(byte, 0x1a) H(shl, 0x1b) H(shr, 0x1c) H(sar, 0x1d)
extern "C" void vch_exp() { exponent<true>(); }
extern "C" void vch_loop_exp() { exponent<false>(); }

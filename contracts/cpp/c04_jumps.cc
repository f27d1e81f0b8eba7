// Contract for the jump-target analysis (property C04): one flag per code byte, set exactly at the JUMPDEST bytes that are
// reached by scanning from the start and skipping push data. The set of instruction starts is the least one containing 0 and
// closed under "next instruction"; it enters the proof through its defining equations only.
#include <cstring>
#include "vc.h"
#include "vm/evmzero/opcodes.h"
#include "vm/evmzero/opcodes.cc"
using namespace tosca::evmzero;
namespace {
constexpr uint64_t kMax = uint64_t{1} << 40;
const uint8_t* g_code;
uint64_t g_n;   // size of the code
uint64_t g_w;   // arbitrary position
inline uint64_t len_of(uint8_t op) { return (op >= 0x60) & (op <= 0x7f) ? op - 0x5e : 1; }
// is pos the start of an instruction?
inline bool start(uint64_t pos) {
  if (__vc_symbolic()) {
    uint8_t r;
    __vc_uf("instruction_start", &r, 1, &pos, 8);
    return r & 1;
  }
  uint64_t i = 0;
  while (i < pos) i += len_of(g_code[i]);
  return i == pos;
}
// the defining equations, instantiated at one start and one other position
inline bool defined(uint64_t p, uint64_t w) {
  uint64_t next = p + len_of(__vc_peek(p < g_n, g_code, p));
  return !((p < g_n) & start(p)) | (start(next) & !((p < w) & (w < next) & start(w)));
}
inline bool expected(uint64_t w) { return start(w) & (__vc_peek(w < g_n, g_code, w) == 0x5b); }
}
// the scan position is an instruction start
extern "C" void vinv_scan(uint64_t pos) {
  __vc_fact(defined(pos, g_w));
  __vc_inv(start(pos));
}
// flags below the scan position are final, flags above it are unset
extern "C" void vinv_flags(uint64_t pos) {
  __vc_fact(defined(pos, g_w));
  auto* flags = static_cast<const uint8_t*>(__vc_heap(0));
  __vc_inv(__vc_peek(g_w < g_n, flags, g_w) == ((g_w < pos) & expected(g_w)));
}
extern "C" void vch_jump_targets() {
  g_n = vc_any<uint64_t>("size");
  VC_REQUIRES(g_n <= kMax);
  auto* code = static_cast<const uint8_t*>(__vc_const_buffer(g_n, 16, "code"));
  g_code = code;
  g_w = vc_any<uint64_t>("w");
  VC_REQUIRES(g_w < g_n);
  if (__vc_symbolic()) __vc_assume(start(0));
  if (__vc_bounded()) for (uint64_t i = 0; i < 8; i++) __vc_assume(defined(i, g_w));
  auto flags = op::CalculateValidJumpTargets({code, g_n});
  VC_ENSURES("one flag per code byte", flags.size() == g_n);
  VC_ENSURES("a flag is set exactly for a JUMPDEST that starts an instruction", (flags[g_w] != 0) == expected(g_w));
  __vc_cover("jump targets");
}
extern "C" void vch_jump_targets_empty() {
  auto flags = op::CalculateValidJumpTargets({});
  VC_ENSURES("no flags for empty code", flags.size() == 0);
  __vc_cover("empty");
}

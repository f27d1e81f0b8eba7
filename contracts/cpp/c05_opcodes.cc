// Contracts for the opcode table (property C05): every byte value agrees with the EVM instruction set.
#include <cstring>
#include "vc.h"
#include "vm/evmzero/opcodes.h"
using namespace tosca::evmzero;
namespace {
struct Row { const char* name; bool external; bool call; };
#define N(n) {n, false, false}
#define E(n) {n, true, false}
#define C(n) {n, false, true}
#define U {nullptr, false, false}
#define U16 U, U, U, U, U, U, U, U, U, U, U, U, U, U, U, U
// the EVM instruction set up to Cancun; external: asks or changes the world outside the interpreter; call: starts another one
constexpr Row kTable[256] = {
  N("STOP"), N("ADD"), N("MUL"), N("SUB"), N("DIV"), N("SDIV"), N("MOD"), N("SMOD"), N("ADDMOD"), N("MULMOD"), N("EXP"), N("SIGNEXTEND"), U, U, U, U,
  N("LT"), N("GT"), N("SLT"), N("SGT"), N("EQ"), N("ISZERO"), N("AND"), N("OR"), N("XOR"), N("NOT"), N("BYTE"), N("SHL"), N("SHR"), N("SAR"), U, U,
  N("SHA3"), U, U, U, U, U, U, U, U, U, U, U, U, U, U, U,
  N("ADDRESS"), E("BALANCE"), E("ORIGIN"), N("CALLER"), N("CALLVALUE"), N("CALLDATALOAD"), N("CALLDATASIZE"), N("CALLDATACOPY"), N("CODESIZE"), N("CODECOPY"), E("GASPRICE"), E("EXTCODESIZE"), E("EXTCODECOPY"), N("RETURNDATASIZE"), N("RETURNDATACOPY"), E("EXTCODEHASH"),
  E("BLOCKHASH"), E("COINBASE"), E("TIMESTAMP"), E("NUMBER"), E("PREVRANDAO"), E("GASLIMIT"), E("CHAINID"), E("SELFBALANCE"), E("BASEFEE"), E("BLOBHASH"), E("BLOBBASEFEE"), U, U, U, U, U,
  N("POP"), N("MLOAD"), N("MSTORE"), N("MSTORE8"), E("SLOAD"), E("SSTORE"), N("JUMP"), N("JUMPI"), N("PC"), N("MSIZE"), N("GAS"), N("JUMPDEST"), E("TLOAD"), E("TSTORE"), N("MCOPY"), N("PUSH0"),
  N("PUSH1"), N("PUSH2"), N("PUSH3"), N("PUSH4"), N("PUSH5"), N("PUSH6"), N("PUSH7"), N("PUSH8"), N("PUSH9"), N("PUSH10"), N("PUSH11"), N("PUSH12"), N("PUSH13"), N("PUSH14"), N("PUSH15"), N("PUSH16"),
  N("PUSH17"), N("PUSH18"), N("PUSH19"), N("PUSH20"), N("PUSH21"), N("PUSH22"), N("PUSH23"), N("PUSH24"), N("PUSH25"), N("PUSH26"), N("PUSH27"), N("PUSH28"), N("PUSH29"), N("PUSH30"), N("PUSH31"), N("PUSH32"),
  N("DUP1"), N("DUP2"), N("DUP3"), N("DUP4"), N("DUP5"), N("DUP6"), N("DUP7"), N("DUP8"), N("DUP9"), N("DUP10"), N("DUP11"), N("DUP12"), N("DUP13"), N("DUP14"), N("DUP15"), N("DUP16"),
  N("SWAP1"), N("SWAP2"), N("SWAP3"), N("SWAP4"), N("SWAP5"), N("SWAP6"), N("SWAP7"), N("SWAP8"), N("SWAP9"), N("SWAP10"), N("SWAP11"), N("SWAP12"), N("SWAP13"), N("SWAP14"), N("SWAP15"), N("SWAP16"),
  E("LOG0"), E("LOG1"), E("LOG2"), E("LOG3"), E("LOG4"), U, U, U, U, U, U, U, U, U, U, U,
  U16, U16, U16, U16,
  C("CREATE"), C("CALL"), C("CALLCODE"), N("RETURN"), C("DELEGATECALL"), C("CREATE2"), U, U, U, U, C("STATICCALL"), U, U, N("REVERT"), N("INVALID"), E("SELFDESTRUCT"),
};
inline bool same(const char* a, const char* b) {
  for (int i = 0; i < 24; i++) {
    if (a[i] != b[i]) return false;
    if (a[i] == 0) return true;
  }
  return false;
}
// the enumerator carrying the name listed for byte o has value o
constexpr bool streq(const char* a, const char* b) { return *a == *b && (*a == 0 || streq(a + 1, b + 1)); }
constexpr int byte_named(const char* n) {
#define EVMZERO_OPCODE(name, value) if (streq(#name, n)) return static_cast<int>(op::name);
#include "vm/evmzero/opcodes.inc"
  return -1;
}
template <int I = 0>
constexpr int misnamed() {
  if constexpr (I == 256) return -1;
  else if (kTable[I].name && byte_named(kTable[I].name) != I) return I;
  else return misnamed<I + 1>();
}
constexpr size_t used() { size_t n = 0; for (auto& r : kTable) n += r.name != nullptr; return n; }
}

extern "C" void vch_opcode_classes() {
  auto o = vc_any<uint8_t>("opcode");
  __vc_concretize(o, 256);
  const Row& r = kTable[o];
  auto code = static_cast<op::OpCode>(o);
  VC_ENSURES("a byte is reported as used exactly when it is an instruction", op::IsUsedOpCode(code) == (r.name != nullptr));
  VC_ENSURES("exactly the call and create instructions are call-like", op::IsCallOpCode(code) == r.call);
  VC_ENSURES("exactly the remaining instructions that reach outside the interpreter are external", op::IsExternalOpCode(code) == r.external);
  __vc_cover("classes");
}
extern "C" void vch_opcode_names() {
  auto o = vc_any<uint8_t>("opcode");
  o = uint8_t(__vc_concretize(o, 256));
  const Row& r = kTable[o];
  VC_ENSURES("each byte is named after its instruction, other bytes are UNKNOWN", same(op::ToString(static_cast<op::OpCode>(o)), r.name ? r.name : "UNKNOWN"));
  __vc_cover("names");
}
extern "C" void vch_opcode_table() {
  VC_ENSURES("every instruction name denotes its own byte", misnamed() == -1);
  VC_ENSURES("every byte is listed exactly once", op::kNumOpCodes == used() && op::kNumUnusedOpCodes == 256 - used() && op::kNumUsedAndUnusedOpCodes == 256);
  __vc_cover("table");
}

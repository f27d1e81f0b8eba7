// Contracts for the environment, block and transaction queries of evmzero (property C16).
#include "evm.h"
using namespace spec;
namespace {
template <int OP, bool S> W expected(Vm<OP, S>& v, W a) {
  const auto& tx = v.host.tx;
  switch (OP) {
    case 0x30: return word(v.msg.recipient);
    case 0x32: return word(tx.tx_origin);
    case 0x33: return word(v.msg.sender);
    case 0x34: return word(v.msg.value);
    case 0x36: return v.msg.input_size;
    case 0x38: return v.code_len;
    case 0x3a: return word(tx.tx_gas_price);
    case 0x3d: return v.ret;
    case 0x41: return word(tx.block_coinbase);
    case 0x42: return uint64_t(tx.block_timestamp);
    case 0x43: return uint64_t(tx.block_number);
    case 0x44: return word(tx.block_prev_randao);
    case 0x45: return uint64_t(tx.block_gas_limit);
    case 0x46: return word(tx.chain_id);
    case 0x47: return word(v.host.balance);
    case 0x48: return word(tx.block_base_fee);
    case 0x49: return a < tx.blob_hashes_count ? word(tx.blob_hashes[uint64_t(a)]) : W(0);
    case 0x4a: return word(tx.blob_base_fee);
    case 0x58: return v.pc;
    case 0x59: return v.mem;
    case 0x5a: return uint64_t(v.gas - v.I.gas);
  }
  return 0;
}
template <int OP, bool S> void query() {
  constexpr Info I = info(OP);
  Vm<OP, S> v;
  v.init(kMem | kRet | kTx | kMsg | kInput | kExt);
  v.require_ready();
  W a = I.pops ? v.in(0) : W(0);
  W e = expected<OP, S>(v, a);
  v.run();
  v.completed(I.gas, v.pc + 1);
  VC_ENSURES("the queried value is pushed", v.out(0) == e);
  v.memory_same();
  v.return_data_same();
  v.refunds_same();
  if (OP == 0x47) VC_ENSURES("balance query concerns the executing account only", v.host.n == 1 && v.host.ev[0].kind == kGetBalance && eq(v.host.ev[0].a, v.msg.recipient));
  else v.no_host();
  __vc_cover("environment query");
}
template <bool S> void calldataload() {
  Vm<0x35, S> v;
  v.init(kMem | kRet | kMsg | kInput);
  v.require_ready();
  W a = v.in(0);
  auto j = vc_any<uint8_t>("j");
  VC_REQUIRES(j < 32);
  uint8_t e = 0;
  if (a < v.msg.input_size && uint64_t(a) + j < v.msg.input_size) e = v.msg.input_data[uint64_t(a) + j];
  v.run();
  v.completed(3, v.pc + 1);
  evmc_bytes32 o = bytes32(v.out(0));
  for (unsigned i = 0; i < 32; i++) VC_ENSURES("each byte of the loaded word is the addressed input byte, or zero beyond the input", (i != j) | (o.bytes[i] == e));
  v.memory_same();
  v.return_data_same();
  v.refunds_same();
  v.no_host();
  __vc_cover("call data load");
}
template <bool S> void blockhash() {
  Vm<0x40, S> v;
  v.init(kMem | kRet | kTx | kExt);
  v.require_ready();
  W a = v.in(0);
  W cur = uint64_t(v.host.tx.block_number);
  bool in = a < cur && a + 256 >= cur && a < (W(1) << 64);
  v.run();
  v.completed(20, v.pc + 1);
  VC_ENSURES("hash of one of the 256 most recent blocks, or zero", v.out(0) == (in ? word(v.host.block_hash) : W(0)));
  VC_ENSURES("the host is asked for exactly the requested block, and only inside the window",
             in ? v.host.n == 1 && v.host.ev[0].kind == kBlockHash && v.host.ev[0].x == uint64_t(a) : v.host.n == 0);
  v.memory_same();
  v.return_data_same();
  v.refunds_same();
  __vc_cover("block hash");
}
}
#define H(op) extern "C" void vch_##op() { query<op, true>(); } extern "C" void vch_loop_##op() { query<op, false>(); }
H(0x30) H(0x32) H(0x33) H(0x34) H(0x36) H(0x38) H(0x3a) H(0x3d) H(0x41) H(0x42) H(0x43) H(0x44) H(0x45) H(0x46) H(0x47) H(0x48) H(0x49) H(0x4a) H(0x58) H(0x59) H(0x5a)
extern "C" void vch_calldataload() { calldataload<true>(); }
extern "C" void vch_calldataload_loop() { calldataload<false>(); }
extern "C" void vch_blockhash() { blockhash<true>(); }
extern "C" void vch_blockhash_loop() { blockhash<false>(); }

// Shared pre-state and host contract for the evmzero interpreter (properties C08-C14, C16).
#pragma once
#include <cstring>
#include <new>
#include <optional>
#include "vc.h"
#include "vm/evmzero/interpreter.h"
#include "vm/evmzero/stack.h"
#include "vm/evmzero/stack.cc"
#include "vm/evmzero/memory.cc"
#include "memcontract.h"
#include "vm/evmzero/opcodes.h"
#include "vm/evmzero/interpreter.cc"
namespace spec {
using namespace tosca::evmzero;
using internal::Context;
using W = intx::u256n;
using SW = intx::i256n;

// ---------------------------------------------------------------- instruction table of the EVM (Istanbul .. Cancun)
struct Info {
  int pops, pushes;
  int64_t gas;        // fixed part of the cost
  int since;          // first revision
  bool write;         // forbidden in static mode
  bool dynamic;       // has a further, state dependent cost or outcome
  int len;
};
constexpr Info info(int o) {
  Info i{0, 0, 0, EVMC_ISTANBUL, false, false, 1};
  auto set = [&](int pops, int pushes, int64_t gas, bool dyn = false, bool write = false, int since = EVMC_ISTANBUL) {
    i.pops = pops; i.pushes = pushes; i.gas = gas; i.dynamic = dyn; i.write = write; i.since = since;
  };
  if (o >= 0x60 && o <= 0x7f) { set(0, 1, 3); i.len = o - 0x5f + 1; return i; }
  if (o >= 0x80 && o <= 0x8f) { int n = o - 0x7f; set(n, n + 1, 3); return i; }
  if (o >= 0x90 && o <= 0x9f) { int n = o - 0x8f; set(n + 1, n + 1, 3); return i; }
  if (o >= 0xa0 && o <= 0xa4) { int n = o - 0xa0; set(2 + n, 0, 375 + 375 * n, true, true); return i; }
  switch (o) {
    case 0x00: set(0, 0, 0, true); break;                                   // STOP
    case 0x01: case 0x03: set(2, 1, 3); break;                              // ADD SUB
    case 0x02: case 0x04: case 0x05: case 0x06: case 0x07: set(2, 1, 5); break;
    case 0x08: case 0x09: set(3, 1, 8); break;
    case 0x0a: set(2, 1, 10, true); break;                                  // EXP
    case 0x0b: set(2, 1, 5); break;                                         // SIGNEXTEND
    case 0x10: case 0x11: case 0x12: case 0x13: case 0x14: set(2, 1, 3); break;
    case 0x15: set(1, 1, 3); break;
    case 0x16: case 0x17: case 0x18: set(2, 1, 3); break;
    case 0x19: set(1, 1, 3); break;
    case 0x1a: case 0x1b: case 0x1c: case 0x1d: set(2, 1, 3); break;
    case 0x20: set(2, 1, 30, true); break;                                  // SHA3
    case 0x30: set(0, 1, 2); break;
    case 0x31: set(1, 1, 0, true); break;                                   // BALANCE
    case 0x32: case 0x33: case 0x34: set(0, 1, 2); break;
    case 0x35: set(1, 1, 3); break;                                         // CALLDATALOAD
    case 0x36: case 0x38: case 0x3a: case 0x3d: set(0, 1, 2); break;
    case 0x37: case 0x39: case 0x3e: set(3, 0, 3, true); break;             // *COPY
    case 0x3b: case 0x3f: set(1, 1, 0, true); break;
    case 0x3c: set(4, 0, 0, true); break;
    case 0x40: set(1, 1, 20); break;                                        // BLOCKHASH
    case 0x41: case 0x42: case 0x43: case 0x44: case 0x45: case 0x46: set(0, 1, 2); break;
    case 0x47: set(0, 1, 5); break;
    case 0x48: set(0, 1, 2, false, false, EVMC_LONDON); break;
    case 0x49: set(1, 1, 3, false, false, EVMC_CANCUN); break;
    case 0x4a: set(0, 1, 2, false, false, EVMC_CANCUN); break;
    case 0x50: set(1, 0, 2); break;
    case 0x51: set(1, 1, 3, true); break;
    case 0x52: case 0x53: set(2, 0, 3, true); break;
    case 0x54: set(1, 1, 0, true); break;
    case 0x55: set(2, 0, 0, true, true); break;
    case 0x56: set(1, 0, 8, true); break;
    case 0x57: set(2, 0, 10, true); break;
    case 0x58: case 0x59: case 0x5a: set(0, 1, 2); break;
    case 0x5b: set(0, 0, 1); break;
    case 0x5c: set(1, 1, 100, false, false, EVMC_CANCUN); break;
    case 0x5d: set(2, 0, 100, false, true, EVMC_CANCUN); break;
    case 0x5e: set(3, 0, 3, true, false, EVMC_CANCUN); break;
    case 0x5f: set(0, 1, 2, false, false, EVMC_SHANGHAI); break;
    case 0xf0: set(3, 1, 32000, true, true); break;
    case 0xf1: case 0xf2: set(7, 1, 0, true); break;
    case 0xf3: case 0xfd: set(2, 0, 0, true); break;
    case 0xf4: case 0xfa: set(6, 1, 0, true); break;
    case 0xf5: set(4, 1, 32000, true, true); break;
    case 0xff: set(1, 0, 5000, true, true); break;
    default: i.since = 1000; i.dynamic = true; break;
  }
  return i;
}

// ---------------------------------------------------------------- host: records every interaction, answers arbitrarily
enum Kind { kNone, kAccountExists, kGetStorage, kSetStorage, kGetBalance, kCodeSize, kCodeHash, kCopyCode, kSelfdestruct, kCall, kTxContext,
            kBlockHash, kLog, kAccessAccount, kAccessStorage, kGetTransient, kSetTransient };
struct Event {
  int kind;
  evmc_address a, b;
  evmc_bytes32 k, v;
  uint64_t x, y;
  const uint8_t* p;
};
struct Host final : evmc::HostInterface {
  mutable Event ev[10];
  mutable int n = 0;
  int reads = 0;
  evmc_message msg{};           // of the last call
  uint64_t at = 0;              // arbitrary position within the input of a call, and the input byte found there
  uint8_t at_byte = 0;
  evmc_bytes32 topics[4];
  // answers
  bool exists = false, destroyed = false;
  evmc_bytes32 storage{}, transient{}, balance{}, code_hash{}, block_hash{};
  uint64_t code_size = 0;
  evmc_storage_status storage_status = EVMC_STORAGE_ASSIGNED;
  evmc_access_status access = EVMC_ACCESS_COLD;
  const uint8_t* code = nullptr;
  evmc_tx_context tx{};
  evmc_result result{};
  int64_t result_gas_left = 0;
  Event& add(int kind) const {
    __vc_assert(n < 10, "host: bounded number of interactions per instruction");
    Event& e = ev[n++];
    e.kind = kind;
    return e;
  }
  bool account_exists(const evmc::address& a) const noexcept override { add(kAccountExists).a = a; return exists; }
  evmc::bytes32 get_storage(const evmc::address& a, const evmc::bytes32& k) const noexcept override { auto& e = add(kGetStorage); e.a = a; e.k = k; return storage; }
  evmc_storage_status set_storage(const evmc::address& a, const evmc::bytes32& k, const evmc::bytes32& v) noexcept override {
    auto& e = add(kSetStorage); e.a = a; e.k = k; e.v = v; return storage_status;
  }
  evmc::uint256be get_balance(const evmc::address& a) const noexcept override { add(kGetBalance).a = a; return balance; }
  size_t get_code_size(const evmc::address& a) const noexcept override { add(kCodeSize).a = a; return code_size; }
  evmc::bytes32 get_code_hash(const evmc::address& a) const noexcept override { add(kCodeHash).a = a; return code_hash; }
  size_t copy_code(const evmc::address& a, size_t off, uint8_t* buf, size_t sz) const noexcept override {
    auto& e = add(kCopyCode); e.a = a; e.x = off; e.y = sz; e.p = buf;
    uint64_t m = off >= code_size ? 0 : (code_size - off < sz ? code_size - off : sz);
    if (m != 0) std::memcpy(buf, code + off, m);
    return m;
  }
  bool selfdestruct(const evmc::address& a, const evmc::address& b) noexcept override { auto& e = add(kSelfdestruct); e.a = a; e.b = b; return destroyed; }
  evmc::Result call(const evmc_message& m) noexcept override {
    add(kCall);
    msg = m;
    at_byte = __vc_peek(at < m.input_size, m.input_data, at);
    evmc_result r = result;
    result_gas_left = r.gas_left;
    VC_REQUIRES((r.gas_left >= 0) & (r.gas_left <= m.gas));   // hosts never return more gas than they were given
    return evmc::Result(r);
  }
  evmc_tx_context get_tx_context() const noexcept override { return tx; }
  evmc::bytes32 get_block_hash(int64_t num) const noexcept override { add(kBlockHash).x = uint64_t(num); return block_hash; }
  void emit_log(const evmc::address& a, const uint8_t* d, size_t sz, const evmc::bytes32 t[], size_t nt) noexcept override {
    auto& e = add(kLog); e.a = a; e.p = d; e.x = sz; e.y = nt;
    for (size_t i = 0; i < 4; i++) if (i < nt) topics[i] = t[i];
  }
  evmc_access_status access_account(const evmc::address& a) noexcept override { add(kAccessAccount).a = a; return access; }
  evmc_access_status access_storage(const evmc::address& a, const evmc::bytes32& k) noexcept override { auto& e = add(kAccessStorage); e.a = a; e.k = k; return access; }
  evmc::bytes32 get_transient_storage(const evmc::address& a, const evmc::bytes32& k) const noexcept override { auto& e = add(kGetTransient); e.a = a; e.k = k; return transient; }
  void set_transient_storage(const evmc::address& a, const evmc::bytes32& k, const evmc::bytes32& v) noexcept override { auto& e = add(kSetTransient); e.a = a; e.k = k; e.v = v; }
};
inline bool eq(const evmc_bytes32& a, const evmc_bytes32& b) { return evmc::stub::w(a) == evmc::stub::w(b); }
inline bool eq(const evmc_address& a, const evmc_address& b) { auto x = evmc::stub::w(a), y = evmc::stub::w(b); return ((x.a ^ y.a) | (x.b ^ y.b) | (x.c ^ y.c)) == 0; }
// big-endian byte strings <-> words (written independently of the code under contract)
inline W swapw(W x) { return W(__builtin_bswap64(uint64_t(x >> 192))) | W(__builtin_bswap64(uint64_t(x >> 128))) << 64 | W(__builtin_bswap64(uint64_t(x >> 64))) << 128 | W(__builtin_bswap64(uint64_t(x))) << 192; }
inline W word(const evmc_bytes32& b) { return swapw(evmc::stub::w(b)); }
inline W word(const evmc_address& a) {
  uint8_t b[32] = {};
  std::memcpy(b + 12, a.bytes, 20);
  W r;
  std::memcpy(&r, b, 32);
  return swapw(r);
}
inline evmc_bytes32 bytes32(W x) { evmc_bytes32 r; W s = swapw(x); std::memcpy(r.bytes, &s, 32); return r; }
inline evmc_address addr(W x) { uint8_t b[32]; W s = swapw(x); std::memcpy(b, &s, 32); evmc_address r; std::memcpy(r.bytes, b + 12, 20); return r; }

// ---------------------------------------------------------------- arbitrary machine state about to execute instruction OP
constexpr int64_t kGasMax = int64_t{1} << 50;   // gas amounts are below this
constexpr uint64_t kReserve = uint64_t{1} << 40;
constexpr uint64_t kLenMax = uint64_t{1} << 32;
enum Want : unsigned { kNothing = 0, kMem = 1, kRet = 2, kInput = 4, kTx = 8, kExt = 16, kCallRes = 32, kMsg = 64, kStore = 128 };

template <int OP, bool Stepping, int NEXT = 0>
struct Vm {
  static constexpr Info I = info(OP);
  Context ctx;
  Host host;
  evmc_message msg{};
  uint64_t n = 0;                 // stack size
  uint256_t* top0 = nullptr;
  uint8_t* code = nullptr;
  uint64_t code_len = 0, pc = 0;
  int64_t gas = 0, refunds = 0;
  uint64_t mem = 0, k = 0;        // memory size, arbitrary memory index
  uint8_t at_k = 0;
  uint8_t* membuf = nullptr;
  uint64_t ret = 0;               // size of the return data
  uint8_t* retbuf = nullptr;
  W deep = 0;                     // arbitrary stack word
  uint64_t d = 0;                 // its height above the bottom of the stack

  void init(unsigned want) {
    auto rev = vc_any<uint8_t>("revision");
    VC_REQUIRES(rev >= EVMC_ISTANBUL && rev <= EVMC_CANCUN);
    ctx.revision = static_cast<evmc_revision>(rev);
    ctx.is_static_call = vc_any<uint8_t>("static") & 1;
    gas = int64_t(vc_any<uint64_t>("gas") & (kGasMax - 1));
    ctx.gas = gas;
    refunds = vc_any<int64_t>("refunds");
    VC_REQUIRES(refunds >= -kGasMax && refunds <= kGasMax);
    ctx.gas_refunds = refunds;
    // stack
    n = vc_any<uint16_t>("stack_size");
    VC_REQUIRES(n <= 1024);
    uint256_t* end = ctx.stack.Top();
    __vc_havoc(end - 1024, 32 * 1024, "stack");
    top0 = end - n;
    ctx.stack.SetTop(top0);
    // code
    if constexpr (Stepping) {
      code_len = vc_any<uint32_t>("code_len");
      pc = vc_any<uint32_t>("pc");
      VC_REQUIRES(code_len >= 1 && code_len <= (1 << 20) && pc < code_len);
      code = static_cast<uint8_t*>(__vc_buffer(code_len + 33, 16, "code"));
      VC_REQUIRES(code[pc] == OP);
      ctx.pc = pc;
    } else {
      code_len = vc_any<uint32_t>("code_len");
      pc = 0;
      VC_REQUIRES(code_len >= (NEXT ? 2 : 1) && code_len <= (1 << 20));
      code = static_cast<uint8_t*>(__vc_buffer(code_len + 33, 16, "code"));
      code[0] = OP;
      code[I.len] = NEXT;   // followed by STOP
      if (NEXT != 0) code[I.len + 1] = 0;
    }
    ctx.padded_code = {code, code_len + 33};
    ctx.message = &msg;
    ctx.host = &host;
    k = vc_any<uint64_t>("k");
    memspec::g_k = k;
    if (want & kMem) {
      auto words = vc_any<uint32_t>("mem_words");
      mem = uint64_t{32} * words;
      VC_REQUIRES(words <= (1 << 27));
      if constexpr (sizeof(Memory) == sizeof(std::vector<uint8_t>)) {
        // the spare capacity is not part of the abstract state: C06 proves every memory operation for every capacity
        VC_REQUIRES(k < kReserve);
        auto* b = static_cast<uint8_t*>(__vc_buffer(mem, 16, "mem"));
        uint64_t cap = mem;
        at_k = memspec::byte_of(b, mem, k);
        if (__vc_symbolic()) { __vc_reserve(b, kReserve); cap = kReserve; }
        membuf = b;
        uint8_t* rep[3] = {b, b + mem, b + cap};
        std::memcpy(static_cast<void*>(&ctx.memory), rep, sizeof(rep));
      } else {
        auto* b = static_cast<uint8_t*>(__vc_buffer(mem, 16, "mem"));
        membuf = b;
        ctx.memory.~Memory();
        new (&ctx.memory) Memory(std::span<const uint8_t>(b, mem));
        at_k = memspec::byte_of(b, mem, k);
      }
    }
    if (want & kRet) {
      ret = vc_any<uint32_t>("ret_size");
      retbuf = Stepping && OP == 0x3e && ret == 0 ? nullptr : static_cast<uint8_t*>(__vc_buffer(ret, 16, "ret"));
      uint64_t cap = ret;
      // as for memory, spare capacity is not observable
      if (__vc_symbolic() && (want & kCallRes)) { __vc_reserve(retbuf, kReserve); cap = kReserve; }
      uint8_t* rep[3] = {retbuf, retbuf + ret, retbuf + cap};
      std::memcpy(static_cast<void*>(&ctx.return_data), rep, sizeof(rep));
    }
    if (want & kMsg) {
      __vc_any(&msg.recipient, 20, "recipient");
      __vc_any(&msg.sender, 20, "sender");
      __vc_any(&msg.value, 32, "value");
      msg.depth = vc_any<int32_t>("depth");
      VC_REQUIRES((msg.depth >= 0) & (msg.depth <= 1025));
      msg.flags = ctx.is_static_call ? EVMC_STATIC : 0;
    }
    if (want & kInput) {
      msg.input_size = vc_any<uint32_t>("input_size");
      msg.input_data = Stepping && msg.input_size == 0 ? nullptr : static_cast<uint8_t*>(__vc_buffer(msg.input_size, 16, "input"));
    }
    if (want & kTx) {
      __vc_any(&host.tx.tx_gas_price, 32, "tx_gas_price");
      __vc_any(&host.tx.tx_origin, 20, "tx_origin");
      __vc_any(&host.tx.block_coinbase, 20, "coinbase");
      host.tx.block_number = vc_any<int64_t>("block_number");
      host.tx.block_timestamp = vc_any<int64_t>("timestamp");
      host.tx.block_gas_limit = vc_any<int64_t>("gas_limit");
      VC_REQUIRES(host.tx.block_number >= 0 && host.tx.block_timestamp >= 0 && host.tx.block_gas_limit >= 0);
      __vc_any(&host.tx.block_prev_randao, 32, "randao");
      __vc_any(&host.tx.chain_id, 32, "chain_id");
      __vc_any(&host.tx.block_base_fee, 32, "base_fee");
      __vc_any(&host.tx.blob_base_fee, 32, "blob_base_fee");
      auto blobs = vc_any<uint8_t>("blobs");
      host.tx.blob_hashes_count = blobs;
      host.tx.blob_hashes = static_cast<evmc_bytes32*>(__vc_buffer(uint64_t{32} * blobs, 16, "blob_hashes"));
    }
    if (want & kExt) {
      host.exists = vc_any<uint8_t>("exists") & 1;
      host.destroyed = vc_any<uint8_t>("destroyed") & 1;
      host.access = (vc_any<uint8_t>("access") & 1) ? EVMC_ACCESS_WARM : EVMC_ACCESS_COLD;
      __vc_any(&host.balance, 32, "balance");
      __vc_any(&host.code_hash, 32, "code_hash");
      __vc_any(&host.block_hash, 32, "block_hash");
      host.code_size = vc_any<uint32_t>("ext_code_size");
      host.code = static_cast<uint8_t*>(__vc_buffer(host.code_size, 16, "ext_code"));
    }
    if (want & kStore) {
      __vc_any(&host.storage, 32, "storage");
      __vc_any(&host.transient, 32, "transient");
      host.access = (vc_any<uint8_t>("access") & 1) ? EVMC_ACCESS_WARM : EVMC_ACCESS_COLD;
      auto s = vc_any<uint8_t>("storage_status");
      VC_REQUIRES(s <= EVMC_STORAGE_MODIFIED_RESTORED);
      host.storage_status = static_cast<evmc_storage_status>(s);
    }
    if (want & kCallRes) {
      auto st = vc_any<int8_t>("status");
      VC_REQUIRES(st >= -3 && st <= 17);
      host.result.status_code = static_cast<evmc_status_code>(st);
      host.result.gas_left = int64_t(vc_any<uint64_t>("gas_left") & (kGasMax - 1));
      host.result.gas_refund = vc_any<int64_t>("gas_refund");
      VC_REQUIRES(host.result.gas_refund >= -kGasMax && host.result.gas_refund <= kGasMax);
      host.result.output_size = vc_any<uint32_t>("output_size");
      host.result.output_data = Stepping && OP == 0xf1 && host.result.output_size == 0 ? nullptr : static_cast<uint8_t*>(__vc_buffer(host.result.output_size, 16, "output"));
      __vc_any(&host.result.create_address, 20, "create_address");
    }
    d = vc_any<uint16_t>("d");
    VC_REQUIRES(d < 1024);
    deep = (end - 1 - d)->v;
  }
  // the checks that precede every effect
  bool rev_ok() const { return ctx.revision >= I.since; }
  bool static_ok() const { return !I.write || !ctx.is_static_call; }
  bool under_ok() const { return n >= uint64_t(I.pops); }
  bool over_ok() const { return n - I.pops + I.pushes <= 1024; }
  bool gas_ok() const { return gas >= I.gas; }
  void require_ready() { VC_REQUIRES(rev_ok()); VC_REQUIRES(static_ok()); VC_REQUIRES(under_ok()); VC_REQUIRES(over_ok()); VC_REQUIRES(gas_ok());
    for (int i = 0; i < I.pops && i < 7; i++) __vc_any(&top0[i], 32, "operand");
  }
  W in(int i) const { return top0[i].v; }

  void run() {
    NoObserver obs;
    internal::RunInterpreter<NoObserver, Stepping>(ctx, obs, 1);
  }
  bool failed() const { return !(ctx.state == RunState::kRunning || ctx.state == RunState::kDone || ctx.state == RunState::kReturn || ctx.state == RunState::kRevert); }
  W out(int i) { return ctx.stack[i].v; }

  // instruction completed and the next one (or the end) is due
  void completed(int64_t cost, uint64_t next) {
    if (Stepping) {
      VC_ENSURES("the instruction completes and execution continues", ctx.state == RunState::kRunning);
      VC_ENSURES("program counter moves to the next instruction", ctx.pc == next);
    } else {
      VC_ENSURES("the instruction completes and the following STOP ends the run", ctx.state == RunState::kDone);
    }
    VC_ENSURES("gas is charged exactly", uint64_t(ctx.gas) == uint64_t(gas) - uint64_t(cost));
    VC_ENSURES("stack depth changes by the defined amount", ctx.stack.GetSize() == n - I.pops + I.pushes);
    deep_same();
  }
  void deep_same() {
    VC_ENSURES("deeper stack words unchanged", (d + I.pops >= n) | ((ctx.stack.Top() + ctx.stack.GetSize() - 1 - d)->v == deep));
  }
  // byte k of the zero-extended memory
  uint8_t mem_byte() {
    if constexpr (sizeof(Memory) == sizeof(std::vector<uint8_t>)) return memspec::byte_of(memspec::rep(&ctx.memory).b, ctx.memory.GetSize(), k);
    return memspec::byte_of(ctx.memory.GetSpan(0, 0).data(), ctx.memory.GetSize(), k); }
  void memory_same() {
    VC_ENSURES("memory unchanged", (ctx.memory.GetSize() == mem) & ((k >= mem) | (mem_byte() == at_k)));
  }
  void return_data_same() {
    if (!Stepping) return;
    VC_ENSURES("return data unchanged", ctx.return_data.size() == ret && (ret == 0 || ctx.return_data.data() == retbuf));
  }
  void no_host() { VC_ENSURES("no interaction with the host", host.n == 0); }
  void refunds_same() { VC_ENSURES("refund counter unchanged", ctx.gas_refunds == refunds); }
  // execution failed
  void failed_with(bool right_kind) {
    VC_ENSURES("failure is reported with a matching error", failed() && right_kind);
    VC_ENSURES("a failed execution has no gas left", ctx.gas == 0);
    VC_ENSURES("a failed execution has no return data", ctx.return_data.size() == 0);
  }
};
}  // namespace spec

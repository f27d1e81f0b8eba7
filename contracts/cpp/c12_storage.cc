// Contracts for storage and account access instructions of evmzero (property C12).
#include "evm.h"
using namespace spec;
namespace {
// index of the first logged interaction of a kind, -1 if none; and number of them
inline int find(const Host& h, int kind) { for (int i = 0; i < 10; i++) if (i < h.n && h.ev[i].kind == kind) return i; return -1; }
inline int count(const Host& h, int kind) { int c = 0; for (int i = 0; i < 10; i++) if (i < h.n && h.ev[i].kind == kind) c++; return c; }
inline bool berlin(const Context& c) { return c.revision >= EVMC_BERLIN; }
inline int64_t account_cost(const Context& c, const Host& h) { return !berlin(c) ? 700 : h.access == EVMC_ACCESS_WARM ? 100 : 2600; }

// BALANCE, EXTCODESIZE, EXTCODEHASH
template <int OP, int KIND, bool S> void account_query() {
  Vm<OP, S> v;
  v.init(kMem | kRet | kMsg | kExt);
  v.require_ready();
  evmc_address a = addr(v.in(0));
  int64_t cost = account_cost(v.ctx, v.host);
  v.run();
  const Host& h = v.host;
  if (v.gas >= cost) {
    v.completed(cost, v.pc + 1);
    W e = KIND == kGetBalance ? word(h.balance) : KIND == kCodeHash ? word(h.code_hash) : W(h.code_size);
    VC_ENSURES("the host's answer is pushed", v.out(0) == e);
    VC_ENSURES("exactly one query of the addressed account", count(h, KIND) == 1 && eq(h.ev[find(h, KIND)].a, a));
    VC_ENSURES("the account is marked accessed exactly when the revision prices access",
               berlin(v.ctx) ? h.n == 2 && count(h, kAccessAccount) == 1 && eq(h.ev[find(h, kAccessAccount)].a, a) : h.n == 1);
    v.return_data_same();
    __vc_cover("account query answered");
  } else {
    v.failed_with(v.ctx.state == RunState::kErrorGas);
    __vc_cover("account query out of gas");
  }
  v.memory_same();
  v.refunds_same();
}
template <bool S> void sload() {
  Vm<0x54, S> v;
  v.init(kMem | kRet | kMsg | kStore);
  v.require_ready();
  evmc_bytes32 key = bytes32(v.in(0));
  int64_t cost = !berlin(v.ctx) ? 800 : v.host.access == EVMC_ACCESS_WARM ? 100 : 2100;
  v.run();
  const Host& h = v.host;
  if (v.gas >= cost) {
    v.completed(cost, v.pc + 1);
    VC_ENSURES("the stored word is pushed", v.out(0) == word(h.storage));
    int i = find(h, kGetStorage);
    VC_ENSURES("exactly one storage read with the executing account and the key", count(h, kGetStorage) == 1 && eq(h.ev[i].a, v.msg.recipient) && eq(h.ev[i].k, key));
    int j = find(h, kAccessStorage);
    VC_ENSURES("the slot is marked accessed exactly when the revision prices access",
               berlin(v.ctx) ? h.n == 2 && j >= 0 && eq(h.ev[j].a, v.msg.recipient) && eq(h.ev[j].k, key) : h.n == 1);
    v.return_data_same();
    __vc_cover("storage load");
  } else {
    v.failed_with(v.ctx.state == RunState::kErrorGas);
    __vc_cover("storage load out of gas");
  }
  v.memory_same();
  v.refunds_same();
}
template <bool S> void sstore() {
  Vm<0x55, S> v;
  v.init(kMem | kRet | kMsg | kStore);
  v.require_ready();
  Host& h = v.host;
  evmc_bytes32 key = bytes32(v.in(0)), val = bytes32(v.in(1));
  auto st = h.storage_status;
  bool b = berlin(v.ctx), london = v.ctx.revision >= EVMC_LONDON, cold = b && h.access == EVMC_ACCESS_COLD;
  // a slot changed earlier in the transaction is warm
  VC_REQUIRES(!cold || st == EVMC_STORAGE_ASSIGNED || st == EVMC_STORAGE_ADDED || st == EVMC_STORAGE_DELETED || st == EVMC_STORAGE_MODIFIED);
  int64_t cost = st == EVMC_STORAGE_ADDED ? 20000 : st == EVMC_STORAGE_MODIFIED || st == EVMC_STORAGE_DELETED ? (b ? 2900 : 5000) : (b ? 100 : 800);
  if (cold) cost += 2100;
  int64_t clear = london ? 4800 : 15000, restored = b ? 2800 : 4200;
  int64_t refund = 0;
  switch (st) {
    case EVMC_STORAGE_DELETED: case EVMC_STORAGE_MODIFIED_DELETED: refund = clear; break;
    case EVMC_STORAGE_DELETED_ADDED: refund = -clear; break;
    case EVMC_STORAGE_DELETED_RESTORED: refund = -clear + restored; break;
    case EVMC_STORAGE_ADDED_DELETED: refund = b ? 19900 : 19200; break;
    case EVMC_STORAGE_MODIFIED_RESTORED: refund = restored; break;
    default: break;
  }
  v.run();
  VC_ENSURES("at most one storage write", count(h, kSetStorage) <= 1);
  int i = find(h, kSetStorage), j = find(h, kAccessStorage);
  if (i >= 0) VC_ENSURES("the storage write has the executing account, the key and the value", eq(h.ev[i].a, v.msg.recipient) && eq(h.ev[i].k, key) && eq(h.ev[i].v, val));
  if (j >= 0) VC_ENSURES("the access concerns the executing account and the key", eq(h.ev[j].a, v.msg.recipient) && eq(h.ev[j].k, key));
  if (v.gas <= 2300) {
    v.failed_with(v.ctx.state == RunState::kErrorGas);
    VC_ENSURES("within the call stipend no storage is written", i < 0);
    VC_ENSURES("within the call stipend no refund is given", v.ctx.gas_refunds == v.refunds);
    __vc_cover("storage store within stipend");
  } else if (v.gas >= cost) {
    v.completed(cost, v.pc + 1);
    VC_ENSURES("one storage write is issued", i >= 0);
    VC_ENSURES("the access status is queried before the write, exactly when the revision prices access", b ? h.n == 2 && j >= 0 && j < i : h.n == 1);
    VC_ENSURES("the refund counter changes by the prescribed amount", v.ctx.gas_refunds == v.refunds + refund);
    v.return_data_same();
    __vc_cover("storage store");
  } else {
    v.failed_with(v.ctx.state == RunState::kErrorGas);
    VC_ENSURES("no refund without payment", v.ctx.gas_refunds == v.refunds);
    __vc_cover("storage store out of gas");
  }
  v.memory_same();
}
template <bool S> void tload() {
  Vm<0x5c, S> v;
  v.init(kMem | kRet | kMsg | kStore);
  v.require_ready();
  evmc_bytes32 key = bytes32(v.in(0));
  v.run();
  v.completed(100, v.pc + 1);
  const Host& h = v.host;
  VC_ENSURES("the transient word is pushed", v.out(0) == word(h.transient));
  VC_ENSURES("exactly one transient read with the executing account and the key", h.n == 1 && h.ev[0].kind == kGetTransient && eq(h.ev[0].a, v.msg.recipient) && eq(h.ev[0].k, key));
  v.memory_same(); v.return_data_same(); v.refunds_same();
  __vc_cover("transient load");
}
template <bool S> void tstore() {
  Vm<0x5d, S> v;
  v.init(kMem | kRet | kMsg | kStore);
  v.require_ready();
  evmc_bytes32 key = bytes32(v.in(0)), val = bytes32(v.in(1));
  v.run();
  v.completed(100, v.pc + 1);
  const Host& h = v.host;
  VC_ENSURES("exactly one transient write with the executing account, key and value", h.n == 1 && h.ev[0].kind == kSetTransient && eq(h.ev[0].a, v.msg.recipient) && eq(h.ev[0].k, key) && eq(h.ev[0].v, val));
  v.memory_same(); v.return_data_same(); v.refunds_same();
  __vc_cover("transient store");
}
template <bool S> void selfdestruct() {
  Vm<0xff, S> v;
  v.init(kMem | kRet | kMsg | kExt);
  v.require_ready();
  Host& h = v.host;
  evmc_address a = addr(v.in(0));
  bool b = berlin(v.ctx);
  int64_t cost = 5000 + (word(h.balance) != 0 && !h.exists ? 25000 : 0) + (b && h.access == EVMC_ACCESS_COLD ? 2600 : 0);
  v.run();
  int i = find(h, kSelfdestruct), j = find(h, kAccessAccount), k = find(h, kAccountExists), l = find(h, kGetBalance);
  if (j >= 0) VC_ENSURES("access of the beneficiary", eq(h.ev[j].a, a));
  if (k >= 0) VC_ENSURES("existence of the beneficiary", eq(h.ev[k].a, a));
  if (l >= 0) VC_ENSURES("balance of the executing account", eq(h.ev[l].a, v.msg.recipient));
  if (v.gas >= cost) {
    VC_ENSURES("execution ends successfully", v.ctx.state == RunState::kDone);
    VC_ENSURES("gas is charged exactly", v.ctx.gas == v.gas - cost);
    VC_ENSURES("the executing account is destroyed once in favour of the beneficiary", count(h, kSelfdestruct) == 1 && eq(h.ev[i].a, v.msg.recipient) && eq(h.ev[i].b, a));
    VC_ENSURES("the beneficiary is marked accessed exactly when the revision prices access", count(h, kAccessAccount) == (b ? 1 : 0));
    VC_ENSURES("refund for first destruction before London only", v.ctx.gas_refunds == v.refunds + (h.destroyed && v.ctx.revision < EVMC_LONDON ? 24000 : 0));
    VC_ENSURES("no output", v.ctx.return_data.size() == 0);
    __vc_cover("selfdestruct");
  } else {
    v.failed_with(v.ctx.state == RunState::kErrorGas);
    VC_ENSURES("nothing is destroyed without payment", i < 0);
    v.refunds_same();
    __vc_cover("selfdestruct out of gas");
  }
  v.memory_same();
}
}
#define H(name, ...) extern "C" void vch_##name() { __VA_ARGS__, true>(); } extern "C" void vch_##name##_loop() { __VA_ARGS__, false>(); }
H(balance, account_query<0x31, kGetBalance)
H(extcodesize, account_query<0x3b, kCodeSize)
H(extcodehash, account_query<0x3f, kCodeHash)
#define G(name) extern "C" void vch_##name() { name<true>(); } extern "C" void vch_##name##_loop() { name<false>(); }
G(sload) G(sstore) G(tload) G(tstore) G(selfdestruct)

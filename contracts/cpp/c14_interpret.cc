// Contracts for evmzero's entry points around the interpreter loop (property C14): Interpret and InterpretNSteps hand the
// execution state to the loop unchanged and report exactly the state the loop ends in. The loop itself (RunInterpreter) is
// represented by an arbitrary outcome; its final accounting is covered by C09.
#include "evm.h"
#ifndef VC_EXTRACT
#include "vm/evmzero/opcodes.cc"
#endif
using namespace spec;
namespace {
struct Run {
  int calls = 0;
  int steps = 0;
  Context* ctx = nullptr;
  // expected start
  RunState state0;
  bool is_static;
  uint64_t pc0;
  int64_t gas0, refunds0;
  const uint8_t *code, *targets;
  uint64_t code_n, targets_n;
  const uint8_t* ret0;
  uint64_t ret0_n;
  const evmc_message* msg;
  evmc_revision rev;
  Sha3Cache* cache;
  const evmc_host_interface* iface;
  evmc_host_context* hctx;
  uint64_t mem0_n, k;
  uint8_t mem0_k, ret0_k;
  uint64_t n0, d;
  W deep0;
  int limit;
  bool stepping;
  // arbitrary outcome
  RunState state;
  uint64_t pc;
  int64_t gas, refunds;
  uint8_t* ret;
  uint64_t ret_n;
  uint8_t ret_k;
  uint8_t* mem;
  uint64_t mem_n;
  uint8_t mem_k;
  uint64_t n;
  W deep;
};
Run* g;
inline uint8_t at(const uint8_t* p, uint64_t n, uint64_t k) { return __vc_peek(k < n, p, k); }
inline bool host_calls_reach_interface(evmc::HostInterface* h) {
  struct Layout { void* vtable; const evmc_host_interface* i; evmc_host_context* c; };
  return reinterpret_cast<Layout*>(h)->i == g->iface && reinterpret_cast<Layout*>(h)->c == g->hctx;
}
void run(Context& ctx, int steps) {
  Run& r = *g;
  r.calls++;
  VC_ENSURES("the loop starts in the given state", ctx.state == r.state0);
  VC_ENSURES("the loop sees the static flag of the message", ctx.is_static_call == r.is_static);
  VC_ENSURES("the loop starts at the given program counter", ctx.pc == r.pc0);
  VC_ENSURES("the loop starts with the gas of the message", ctx.gas == r.gas0);
  VC_ENSURES("the loop starts with the given refund", ctx.gas_refunds == r.refunds0);
  VC_ENSURES("the loop runs the given code", ctx.padded_code.data() == r.code && ctx.padded_code.size() == r.code_n);
  VC_ENSURES("the loop uses the given jump targets", ctx.valid_jump_targets.data() == r.targets && ctx.valid_jump_targets.size() == r.targets_n);
  VC_ENSURES("the loop sees the message, revision and hash cache", ctx.message == r.msg && ctx.revision == r.rev && ctx.sha3_cache == r.cache);
  VC_ENSURES("host calls of the loop go to the given host", host_calls_reach_interface(ctx.host));
  VC_ENSURES("the loop starts with the given return data", ctx.return_data.size() == r.ret0_n && at(ctx.return_data.data(), r.ret0_n, r.k) == r.ret0_k);
  VC_ENSURES("the loop starts with the given memory", ctx.memory.GetSize() == r.mem0_n && (r.k >= r.mem0_n || ctx.memory[r.k] == r.mem0_k));
  VC_ENSURES("the loop starts with the given stack", ctx.stack.GetSize() == r.n0 && (r.d >= r.n0 || (ctx.stack.Top() + r.n0 - 1 - r.d)->v == r.deep0));
  VC_ENSURES("the loop executes the requested number of steps", !r.stepping || steps == r.limit);
  // the loop ends in an arbitrary state
  auto s = vc_any<uint8_t>("end_state");
  VC_REQUIRES(s <= uint8_t(RunState::kErrorInitCodeSizeExceeded));
  r.state = ctx.state = static_cast<RunState>(s);
  r.gas = ctx.gas = vc_any<int64_t>("end_gas");
  r.refunds = ctx.gas_refunds = vc_any<int64_t>("end_refunds");
  r.pc = ctx.pc = vc_any<uint64_t>("end_pc");
  r.ret_n = vc_any<uint32_t>("end_ret");
  r.ret = static_cast<uint8_t*>(__vc_buffer(r.ret_n, 16, "end_ret_data"));
  uint8_t* rep[3] = {r.ret, r.ret + r.ret_n, r.ret + r.ret_n};
  ctx.return_data.~vector();
  std::memcpy(static_cast<void*>(&ctx.return_data), rep, sizeof(rep));
  r.ret_k = at(r.ret, r.ret_n, r.k);
  r.mem_n = uint64_t{32} * vc_any<uint16_t>("end_mem");
  r.mem = static_cast<uint8_t*>(__vc_buffer(r.mem_n, 16, "end_mem_data"));
  uint8_t* mrep[3] = {r.mem, r.mem + r.mem_n, r.mem + r.mem_n};
  ctx.memory.~Memory();
  std::memcpy(static_cast<void*>(&ctx.memory), mrep, sizeof(mrep));
  r.mem_k = at(r.mem, r.mem_n, r.k);
  uint64_t old = ctx.stack.GetSize();
  uint256_t* end = ctx.stack.Top() + old;
  r.n = vc_any<uint16_t>("end_stack");
  VC_REQUIRES(r.n <= 1024);
  ctx.stack.SetTop(end - r.n);
  if (r.n > 0) { __vc_any(end - 1 - (r.d < r.n ? r.d : 0), 32, "end_word"); }
  r.deep = r.d < r.n ? (end - 1 - r.d)->v : 0;
}
void begin(Run& r, evmc_message& msg, const evmc_host_interface& iface, InterpreterArgs& a) {
  g = &r;
  msg.gas = vc_any<int64_t>("gas");
  msg.flags = vc_any<uint32_t>("flags");
  r.is_static = (msg.flags & EVMC_STATIC) != 0;
  r.gas0 = msg.gas;
  r.k = vc_any<uint64_t>("k");
  r.d = vc_any<uint16_t>("d");
  auto rev = vc_any<uint8_t>("revision");
  VC_REQUIRES(rev >= EVMC_ISTANBUL && rev <= EVMC_CANCUN);
  r.code_n = vc_any<uint32_t>("code_n");
  r.code = static_cast<uint8_t*>(__vc_buffer(r.code_n, 16, "code"));
  r.targets_n = vc_any<uint32_t>("targets_n");
  r.targets = static_cast<uint8_t*>(__vc_buffer(r.targets_n, 16, "targets"));
  r.msg = &msg;
  r.rev = static_cast<evmc_revision>(rev);
  r.cache = (vc_any<uint8_t>("cached") & 1) ? reinterpret_cast<Sha3Cache*>(__vc_buffer(1, 16, "cache")) : nullptr;
  r.iface = &iface;
  r.hctx = reinterpret_cast<evmc_host_context*>(__vc_buffer(1, 16, "host"));
  a.padded_code = {r.code, r.code_n};
  a.valid_jump_targets = {r.targets, r.targets_n};
  a.message = &msg;
  a.host_interface = &iface;
  a.host_context = r.hctx;
  a.revision = r.rev;
  a.sha3_cache = r.cache;
}
void reported(const Run& r, const InterpreterResult& x) {
  VC_ENSURES("the code is run exactly once", r.calls == 1);
  VC_ENSURES("the reported state is the final state", x.state == r.state);
  VC_ENSURES("the reported gas is the gas left", x.remaining_gas == r.gas);
  VC_ENSURES("the reported refund is the refund accumulated", x.refunded_gas == r.refunds);
  VC_ENSURES("the reported return data is the data returned", x.return_data.size() == r.ret_n && at(x.return_data.data(), r.ret_n, r.k) == r.ret_k);
}
}
// runs a small program at once and in steps, resuming from the reported state; both have to end the same way
namespace {
void programs() {
  static const uint8_t pool[] = {op::ADD, op::MUL, op::SUB, op::DUP1, op::DUP2, op::SWAP1, op::POP, op::MSIZE, op::PC, op::GAS, op::RETURNDATASIZE, op::ISZERO, op::ADDRESS, op::CALLVALUE};
  std::vector<uint8_t> code;
  auto push = [&](uint8_t v) { code.push_back(op::PUSH1); code.push_back(v); };
  auto n = vc_any<uint8_t>("pieces") % 24;
  for (int i = 0; i < 4; i++) push(vc_any<uint8_t>("word"));
  for (int i = 0; i < n; i++) {
    auto b = vc_any<uint8_t>("piece");
    if (b < 60) push(vc_any<uint8_t>("value"));
    else if (b < 90) { push(vc_any<uint8_t>("value")); push(vc_any<uint8_t>("offset")); code.push_back(op::MSTORE); }
    else if (b < 120) { for (int k = 0; k < 6; k++) push(0); push(uint8_t(b & 15)); code.push_back(op::CALL); }
    else if (b < 140) { push(uint8_t(b & 7)); push(0); push(vc_any<uint8_t>("offset")); code.push_back(op::RETURNDATACOPY); }
    else if (b < 150) { push(vc_any<uint8_t>("offset")); code.push_back(op::MLOAD); }
    else code.push_back(pool[b % sizeof(pool)]);
  }
  auto e = vc_any<uint8_t>("end");
  push(0);
  code.push_back(op::MSTORE);
  if (e & 3) { push(e & 63); push(0); code.push_back(e & 1 ? op::RETURN : op::REVERT); }
  auto padded = internal::PadCode(code);
  auto targets = op::CalculateValidJumpTargets(code);
  static uint8_t answer[8] = {1, 2, 3, 4, 5, 6, 7, 8};
  evmc_host_interface iface{};
  iface.account_exists = [](evmc_host_context*, const evmc_address*) { return true; };
  iface.access_account = [](evmc_host_context*, const evmc_address*) { return EVMC_ACCESS_WARM; };
  iface.call = [](evmc_host_context*, const evmc_message* m) { evmc_result r{}; r.gas_left = m->gas; r.gas_refund = 5; r.output_data = answer; r.output_size = sizeof(answer); return r; };
  evmc_message msg{};
  msg.gas = 100 + 40 * vc_any<uint16_t>("gas");
  msg.flags = vc_any<uint8_t>("static") % 5 == 0 ? uint32_t{EVMC_STATIC} : 0;
  msg.recipient.bytes[3] = 9;
  auto set = [&](InterpreterArgs& a) { a.padded_code = padded; a.valid_jump_targets = targets; a.message = &msg; a.host_interface = &iface; a.revision = EVMC_LONDON; };
  InterpreterArgs a;
  set(a);
  NoObserver o;
  auto all = Interpret<NoObserver>(a, o);
  SteppingArgs s;
  set(s);
  evmc_message part = msg;
  s.message = &part;
  auto size = vc_any<uint8_t>("steps") % 5 + 1;
  for (int i = 0;; i++) {
    s.steps = size;
    auto r = InterpretNSteps(s);
    if (r.state != RunState::kRunning || i > 1000) {
      VC_ENSURES("running in steps ends as running at once", r.state == all.state && r.remaining_gas == all.remaining_gas && r.refunded_gas == all.refunded_gas);
      VC_ENSURES("running in steps returns what running at once returns", (r.state != RunState::kReturn && r.state != RunState::kRevert) || r.return_data == all.return_data);
      break;
    }
    s.state = r.state;
    s.pc = r.pc;
    s.gas_refunds = r.refunded_gas;
    part.gas = r.remaining_gas;
    s.stack = r.stack;
    s.memory = r.memory;
    s.last_call_return_data = r.last_call_return_data;
  }
}
}
extern "C" void vcontract_run(Context& ctx, NoObserver&, int steps) { run(ctx, steps); }
extern "C" void vch_interpret() {
  if (!__vc_symbolic()) { programs(); return; }
  Run r{};
  evmc_message msg{};
  evmc_host_interface iface{};
  InterpreterArgs a;
  begin(r, msg, iface, a);
  r.state0 = RunState::kRunning;
  NoObserver o;
  auto x = Interpret<NoObserver>(a, o);
  reported(r, x);
  __vc_cover("interpret");
}
extern "C" void vch_interpret_n_steps() {
  if (!__vc_symbolic()) { programs(); return; }
  Run r{};
  evmc_message msg{};
  evmc_host_interface iface{};
  SteppingArgs a;
  begin(r, msg, iface, a);
  r.stepping = true;
  auto s = vc_any<uint8_t>("state");
  VC_REQUIRES(s <= uint8_t(RunState::kErrorInitCodeSizeExceeded));
  r.state0 = a.state = static_cast<RunState>(s);
  r.pc0 = a.pc = vc_any<uint64_t>("pc");
  r.refunds0 = a.gas_refunds = vc_any<int64_t>("refunds");
  r.limit = a.steps = vc_any<int>("steps");
  // memory, return data and stack of the interrupted execution
  r.mem0_n = uint64_t{32} * vc_any<uint16_t>("mem");
  auto* m = static_cast<uint8_t*>(__vc_buffer(r.mem0_n, 16, "mem_data"));
  uint8_t* mrep[3] = {m, m + r.mem0_n, m + r.mem0_n};
  std::memcpy(static_cast<void*>(&a.memory), mrep, sizeof(mrep));
  r.mem0_k = at(m, r.mem0_n, r.k);
  r.ret0_n = vc_any<uint32_t>("ret");
  auto* q = static_cast<uint8_t*>(__vc_buffer(r.ret0_n, 16, "ret_data"));
  uint8_t* rrep[3] = {q, q + r.ret0_n, q + r.ret0_n};
  std::memcpy(static_cast<void*>(&a.last_call_return_data), rrep, sizeof(rrep));
  r.ret0_k = at(q, r.ret0_n, r.k);
  r.n0 = vc_any<uint16_t>("stack");
  VC_REQUIRES(r.n0 <= 1024);
  uint256_t* end = a.stack.Top();
  __vc_havoc(end - 1024, 32 * 1024, "stack_data");
  a.stack.SetTop(end - r.n0);
  VC_REQUIRES(r.d < 1024);
  r.deep0 = (end - 1 - r.d)->v;
  auto x = InterpretNSteps(a);
  reported(r, x);
  VC_ENSURES("the reported program counter is the final one", x.pc == r.pc);
  VC_ENSURES("the reported memory is the final one", x.memory.GetSize() == r.mem_n && (r.k >= r.mem_n || x.memory[r.k] == r.mem_k));
  VC_ENSURES("the reported stack is the final one", x.stack.GetSize() == r.n && (r.d >= r.n || (x.stack.Top() + r.n - 1 - r.d)->v == r.deep));
  VC_ENSURES("the reported last return data is the final one", x.last_call_return_data.size() == r.ret_n && at(x.last_call_return_data.data(), r.ret_n, r.k) == r.ret_k);
  __vc_cover("interpret n steps");
}

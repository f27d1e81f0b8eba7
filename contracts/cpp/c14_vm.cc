// Contracts for the evmc interface of evmzero (property C14): VM::Execute, VM::StepN, VM::SetOption and the status translation.
// Callees are represented by their contracts: the interpreter entry points (an arbitrary outcome satisfying what C09 and
// c14_interpret.cc prove), PadCode (C11), CalculateValidJumpTargets (C04) and LruCache::GetOrInsert (C01).
#include <atomic>
#include <cstring>
#include <fstream>
#include <iostream>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <ostream>
#include <span>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <chrono>
#include <cmath>
#include <thread>
#include <list>
#include <array>
#include <x86intrin.h>
#include "vc.h"
#include "absl/container/flat_hash_map.h"
#include "common/lru_cache.h"
#include <evmc/evmc.hpp>
namespace spec { bool cache_key(const void* key, uint64_t n); }
namespace tosca {
// the cached value equals a fresh one, provided the key identifies the code
template <class K, class V, size_t C, class H = std::hash<K>, class E = std::equal_to<K>>
class LruCacheContract {
 public:
  template <class F> V GetOrInsert(const K& key, F make) {
    VC_ENSURES("code analyses are cached under the hash of the code only", spec::cache_key(&key, sizeof(K)));
    return make();
  }
  std::optional<V> Get(const K&) { return std::nullopt; }
  V InsertOrAssign(const K& key, V v) {
    VC_ENSURES("code analyses are cached under the hash of the code only", spec::cache_key(&key, sizeof(K)));
    return v;
  }
};
}
#define LruCache LruCacheContract
#define private public
#include "vm/evmzero/stack.h"
#include "vm/evmzero/memory.h"
#include "vm/evmzero/interpreter.h"
#include "vm/evmzero/logger.h"
#include "vm/evmzero/profiler.h"
namespace tosca::evmzero {

template <> InterpreterResult Interpret<NoObserver>(const InterpreterArgs&, NoObserver&);
template <> InterpreterResult Interpret<Logger>(const InterpreterArgs&, Logger&);
template <> InterpreterResult Interpret<Profiler<ProfilerMode::kFull>>(const InterpreterArgs&, Profiler<ProfilerMode::kFull>&);
template <> InterpreterResult Interpret<Profiler<ProfilerMode::kExternal>>(const InterpreterArgs&, Profiler<ProfilerMode::kExternal>&);
}
#include "vm/evmzero/evmzero.cc"
#undef private
#include "vm/evmzero/stack.cc"
#include "vm/evmzero/memory.cc"
using namespace tosca::evmzero;
namespace spec {
using W = intx::u256n;
inline W word(const evmc_bytes32& b) { W r = 0; for (int i = 0; i < 32; i++) r = r << 8 | b.bytes[i]; return r; }
inline uint8_t at(const uint8_t* p, uint64_t n, uint64_t k) { return __vc_peek(k < n, p, k); }
struct Call {
  // what the host passed
  const evmc_message* msg;
  evmc_bytes32 hash;
  const uint8_t* code;
  uint64_t code_n;
  const evmc_host_interface* iface;
  evmc_host_context* hctx;
  evmc_revision rev;
  bool caching, hash_cache;
  VM* vm;
  // analysis of the code
  uint8_t *pad, *targets;
  uint64_t pad_n, targets_n;
  int pads = 0, analyses = 0, runs = 0;
  bool in = true, out_dir = true, states = true, sizes = true, flags = true;  // which directions this contract covers
  // stepping input
  evmc_step_status_code status;
  uint64_t pc;
  int64_t refunds;
  const evmc_uint256be* stack;
  uint64_t stack_n, w;
  const uint8_t *mem, *ret;
  uint64_t mem_n, ret_n, k;
  int32_t steps;
  // arbitrary outcome
  RunState end;
  int64_t end_gas, end_refunds;
  uint8_t *out, *out_mem, *out_ret;
  uint64_t out_n, out_mem_n, out_ret_n, end_pc;
  const uint256_t* out_top;
  uint256_t out_w;
  uint64_t out_stack_n;
  uint8_t out_k, out_mem_k, out_ret_k;
};
Call* g;
bool cache_key(const void* key, uint64_t n) {
  evmc_bytes32 zero{};
  return g->msg->code_hash != nullptr && n == 32 && std::memcmp(key, &g->hash, 32) == 0 && std::memcmp(key, &zero, 32) != 0;
}
inline void overlay(void* vec, uint8_t* b, uint64_t n) {
  uint8_t* rep[3] = {b, b + n, b + n};
  std::memcpy(vec, rep, sizeof(rep));
}
void arguments(const InterpreterArgs& a) {
  Call& c = *g;
  c.runs++;
  VC_ENSURES("the padded code of this message is run", a.padded_code.data() == c.pad && a.padded_code.size() == c.pad_n);
  VC_ENSURES("the jump targets of this code are used", a.valid_jump_targets.data() == c.targets && a.valid_jump_targets.size() == c.targets_n);
  VC_ENSURES("the message is passed on", a.message == c.msg);
  VC_ENSURES("the host is passed on", a.host_interface == c.iface && a.host_context == c.hctx);
  VC_ENSURES("the revision is passed on", a.revision == c.rev);
  VC_ENSURES("the hash cache is used exactly when enabled", a.sha3_cache == (c.hash_cache ? &c.vm->sha3_cache_ : nullptr));
}
void outcome(InterpreterResult& r, bool stepping) {
  Call& c = *g;
  if (!c.out_dir) return;
  auto s = c.states ? vc_any<uint8_t>("end") : uint8_t(RunState::kReturn);
  VC_REQUIRES(s <= uint8_t(RunState::kErrorInitCodeSizeExceeded));
  c.end = r.state = static_cast<RunState>(s);
  c.end_gas = r.remaining_gas = vc_any<int64_t>("end_gas");
  c.end_refunds = r.refunded_gas = vc_any<int64_t>("end_refunds");
  c.out_n = c.sizes ? vc_any<uint32_t>("out_n") : 0;
  if (!__vc_symbolic()) c.out_n %= 100;
  // contract of the run loop (C09): it only ends when execution has ended; failures leave no gas; only return and revert output
  bool ok = r.state == RunState::kDone || r.state == RunState::kReturn || r.state == RunState::kRevert;
  VC_REQUIRES(stepping || r.state != RunState::kRunning);
  VC_REQUIRES(ok || r.state == RunState::kRunning || c.end_gas == 0);
  VC_REQUIRES(r.state == RunState::kReturn || r.state == RunState::kRevert || r.state == RunState::kRunning || c.out_n == 0);
  c.out = static_cast<uint8_t*>(__vc_buffer(c.out_n, 16, "out"));
  overlay(&r.return_data, c.out, c.out_n);
  c.out_k = at(c.out, c.out_n, c.k);
}
InterpreterResult interpreted(const InterpreterArgs& a) {
  arguments(a);
  InterpreterResult r;
  outcome(r, false);
  return r;
}
}  // namespace spec
namespace tosca::evmzero {
template <> InterpreterResult Interpret<NoObserver>(const InterpreterArgs& a, NoObserver&) { return spec::interpreted(a); }
template <> InterpreterResult Interpret<Logger>(const InterpreterArgs& a, Logger&) { return spec::interpreted(a); }
template <> InterpreterResult Interpret<Profiler<ProfilerMode::kFull>>(const InterpreterArgs& a, Profiler<ProfilerMode::kFull>&) { return spec::interpreted(a); }
template <> InterpreterResult Interpret<Profiler<ProfilerMode::kExternal>>(const InterpreterArgs& a, Profiler<ProfilerMode::kExternal>&) { return spec::interpreted(a); }
std::vector<uint8_t> internal::PadCode(std::span<const uint8_t> code) {
  spec::Call& c = *spec::g;
  VC_ENSURES("the code of this message is padded", code.data() == c.code && code.size() == c.code_n);
  c.pads++;
  c.pad_n = c.code_n + 33;
  c.pad = static_cast<uint8_t*>(__vc_buffer(c.pad_n, 16, "padded"));
  std::vector<uint8_t> v;
  spec::overlay(&v, c.pad, c.pad_n);
  return v;
}
std::vector<uint8_t> op::CalculateValidJumpTargets(std::span<const uint8_t> code) {
  spec::Call& c = *spec::g;
  VC_ENSURES("the code of this message is analysed", code.data() == c.code && code.size() == c.code_n);
  c.analyses++;
  c.targets_n = c.code_n;
  c.targets = static_cast<uint8_t*>(__vc_buffer(c.targets_n, 16, "targets"));
  std::vector<uint8_t> v;
  spec::overlay(&v, c.targets, c.targets_n);
  return v;
}
SteppingResult InterpretNSteps(const SteppingArgs& a) {
  using namespace spec;
  Call& c = *g;
  arguments(a);
  if (c.in) {
  RunState want = c.status == EVMC_STEP_RUNNING ? RunState::kRunning : c.status == EVMC_STEP_STOPPED ? RunState::kDone :
      c.status == EVMC_STEP_RETURNED ? RunState::kReturn : c.status == EVMC_STEP_REVERTED ? RunState::kRevert : RunState::kInvalid;
  VC_ENSURES("stepping resumes in the given status", a.state == want);
  VC_ENSURES("a terminated execution is not continued, a running one makes the requested number of steps", c.status == EVMC_STEP_RUNNING ? a.steps == c.steps : a.steps <= 0);
  VC_ENSURES("stepping resumes at the given program counter", a.pc == c.pc);
  VC_ENSURES("stepping resumes with the given refund", a.gas_refunds == c.refunds);
  VC_ENSURES("stepping resumes with the given stack depth", a.stack.GetSize() == c.stack_n);
  VC_ENSURES("stepping resumes with the given stack words", c.w >= c.stack_n || (a.stack.top_ + c.stack_n - 1 - c.w)->v == word(c.stack[c.w]));
  VC_ENSURES("stepping resumes with the given memory", a.memory.GetSize() == (c.mem_n + 31) / 32 * 32 && (c.k >= a.memory.GetSize() || a.memory[c.k] == at(c.mem, c.mem_n, c.k)));
  VC_ENSURES("stepping resumes with the given return data", a.last_call_return_data.size() == c.ret_n && at(a.last_call_return_data.data(), c.ret_n, c.k) == at(c.ret, c.ret_n, c.k));
  }
  SteppingResult r;
  outcome(r, true);
  if (!c.out_dir) return r;
  c.end_pc = r.pc = vc_any<uint64_t>("end_pc");
  c.out_mem_n = uint64_t{32} * vc_any<uint16_t>("out_mem_n");
  if (!c.sizes) c.out_mem_n = 0;
  if (!__vc_symbolic()) c.out_mem_n %= 256;
  c.out_mem = static_cast<uint8_t*>(__vc_buffer(c.out_mem_n, 16, "out_mem"));
  overlay(&r.memory, c.out_mem, c.out_mem_n);
  c.out_mem_k = at(c.out_mem, c.out_mem_n, c.k);
  c.out_ret_n = vc_any<uint32_t>("out_ret_n");
  if (!c.sizes) c.out_ret_n = 0;
  if (!__vc_symbolic()) c.out_ret_n %= 256;
  c.out_ret = static_cast<uint8_t*>(__vc_buffer(c.out_ret_n, 16, "out_ret"));
  overlay(&r.last_call_return_data, c.out_ret, c.out_ret_n);
  c.out_ret_k = at(c.out_ret, c.out_ret_n, c.k);
  c.out_stack_n = vc_any<uint16_t>("out_stack_n");
  if (!c.sizes) c.out_stack_n = 0;
  if (!__vc_symbolic()) c.out_stack_n %= 1025;
  VC_REQUIRES(c.out_stack_n <= 1024);
  uint256_t* end = r.stack.Top();
  __vc_havoc(end - 1024, 32 * 1024, "out_stack");
  r.stack.SetTop(end - c.out_stack_n);
  c.out_top = r.stack.Top();
  if (c.w < c.out_stack_n) c.out_w = c.out_top[c.w];
  return r;
}
}  // namespace tosca::evmzero
using namespace spec;
namespace {
VM* machine(Call& c) {
  g = &c;
  auto* vm = static_cast<VM*>(__vc_buffer(sizeof(VM), 16, "vm"));
  if (!__vc_symbolic()) vm = static_cast<VM*>(evmc_create_evmzero());
  c.vm = vm;
  if (c.flags) {
    vm->logging_enabled_ = vc_any<uint8_t>("logging") & 1;
    vm->analysis_cache_enabled_ = vc_any<uint8_t>("analysis_cache") & 1;
    vm->sha3_cache_enabled_ = c.hash_cache = vc_any<uint8_t>("sha3_cache") & 1;
    vm->profiling_enabled_ = vc_any<uint8_t>("profiling") & 1;
    vm->profiling_external_enabled_ = vc_any<uint8_t>("profiling_external") & 1;
  } else {
    vm->analysis_cache_enabled_ = vm->sha3_cache_enabled_ = c.hash_cache = true;
    vm->logging_enabled_ = vm->profiling_enabled_ = vm->profiling_external_enabled_ = false;
  }
  return vm;
}
void message(Call& c, evmc_message& m, evmc_host_interface& h) {
  m.gas = vc_any<int64_t>("gas");
  __vc_any(&c.hash, 32, "code_hash");
  m.code_hash = (c.flags && vc_any<uint8_t>("has_hash") & 1) ? reinterpret_cast<decltype(m.code_hash)>(&c.hash) : nullptr;
  c.msg = &m;
  c.code_n = vc_any<uint32_t>("code_n");
  if (!__vc_symbolic()) c.code_n %= 200;
  c.code = static_cast<uint8_t*>(__vc_buffer(c.code_n, 16, "code"));
  c.iface = &h;
  c.hctx = reinterpret_cast<evmc_host_context*>(__vc_buffer(1, 16, "host"));
  auto rev = vc_any<uint8_t>("revision");
  VC_REQUIRES(rev >= EVMC_ISTANBUL && rev <= EVMC_CANCUN);
  c.rev = static_cast<evmc_revision>(rev);
  c.k = vc_any<uint32_t>("k");
}
// what the host is told about how execution ended
evmc_status_code status_of(RunState s) {
  switch (s) {
    case RunState::kDone: case RunState::kReturn: return EVMC_SUCCESS;
    case RunState::kRevert: return EVMC_REVERT;
    case RunState::kInvalid: return EVMC_INVALID_INSTRUCTION;
    case RunState::kErrorOpcode: return EVMC_UNDEFINED_INSTRUCTION;
    case RunState::kErrorGas: return EVMC_OUT_OF_GAS;
    case RunState::kErrorStackUnderflow: return EVMC_STACK_UNDERFLOW;
    case RunState::kErrorStackOverflow: return EVMC_STACK_OVERFLOW;
    case RunState::kErrorJump: return EVMC_BAD_JUMP_DESTINATION;
    case RunState::kErrorReturnDataCopyOutOfBounds: return EVMC_INVALID_MEMORY_ACCESS;
    case RunState::kErrorCall: return EVMC_CALL_DEPTH_EXCEEDED;
    case RunState::kErrorStaticCall: return EVMC_STATIC_MODE_VIOLATION;
    default: return EVMC_FAILURE;
  }
}
evmc_step_status_code step_status_of(RunState s) {
  switch (s) {
    case RunState::kRunning: return EVMC_STEP_RUNNING;
    case RunState::kDone: return EVMC_STEP_STOPPED;
    case RunState::kReturn: return EVMC_STEP_RETURNED;
    case RunState::kRevert: return EVMC_STEP_REVERTED;
    default: return EVMC_STEP_FAILED;
  }
}
template <class R> void reported(const Call& c, const R& r) {
  bool failed = r.status_code != EVMC_SUCCESS && r.status_code != EVMC_REVERT && c.end != RunState::kRunning;
  VC_ENSURES("the code is executed once", c.runs == 1 && c.pads <= 1 && c.analyses <= 1);
  VC_ENSURES("the reported status corresponds to how execution ended", r.status_code == status_of(c.end));
  VC_ENSURES("the reported gas is the gas left", r.gas_left == c.end_gas && (!failed || r.gas_left == 0));
  VC_ENSURES("the reported refund is the accumulated one", r.gas_refund == c.end_refunds);
  VC_ENSURES("only return and revert report output", r.output_size == 0 || c.end == RunState::kReturn || c.end == RunState::kRevert || c.end == RunState::kRunning);
  VC_ENSURES("the reported output equals the returned bytes", r.output_size == c.out_n && at(r.output_data, c.out_n, c.k) == c.out_k);
  VC_ENSURES("the reported output can be released", r.release != nullptr);
}
}
extern "C" void vch_execute() {
  Call c{};
  evmc_message m{};
  evmc_host_interface h{};
  VM* vm = machine(c);
  message(c, m, h);
  evmc_result r = vm->Execute({c.code, c.code_n}, &m, &h, c.hctx, c.rev);
  reported(c, r);
  const void* out = r.output_data;
  r.release(&r);
  if (__vc_symbolic() && out != nullptr) VC_ENSURES("releasing a result frees its output", __vc_alive(out) == 0);
  __vc_cover("execute");
}
// ---------------------------------------------------------------- stepping
// the stack words converted so far
extern "C" void vinv_stack_in(uint64_t i) {
  auto* d = static_cast<Stack::Data*>(__vc_heap(0));
  uint64_t w = g->w;
  if (d == nullptr || __vc_object_size(d) != sizeof(Stack::Data)) { __vc_inv(true); return; }
  __vc_inv(!(w < i) | ((d->end() - 1 - (w < 1024 ? w : 0))->v == word(g->stack[w < g->stack_n ? w : 0])));
}
extern "C" void vinv_stack_out(uint64_t i) {
  auto* s = static_cast<const evmc_uint256be*>(__vc_heap(0));
  uint64_t w = g->w, n = g->out_stack_n;
  if (s == nullptr || g->out_top == nullptr || !(w < n)) { __vc_inv(true); return; }
  __vc_inv(!(w < i) | (word(s[n - 1 - w]) == g->out_w.v));
}
namespace {
// the contract of StepN is decided in three parts: what goes in, how each end state is reported, and the data reported
enum Part { kIn, kEnd, kData };
void step_n(Part part) {
  Call c{};
  bool in = part == kIn;
  c.in = c.flags = in;
  c.out_dir = !in;
  c.states = part == kEnd;
  c.sizes = part == kData;
  evmc_message m{};
  evmc_host_interface h{};
  VM* vm = machine(c);
  message(c, m, h);
  auto st = in ? vc_any<uint8_t>("status") : uint8_t{0};
  VC_REQUIRES(st <= EVMC_STEP_FAILED);
  c.status = static_cast<evmc_step_status_code>(st);
  c.pc = vc_any<uint64_t>("pc");
  c.refunds = vc_any<int64_t>("refunds");
  c.steps = vc_any<int32_t>("steps");
  c.stack_n = in ? vc_any<uint16_t>("stack_n") : 0;
  if (!__vc_symbolic()) c.stack_n %= 1025;
  VC_REQUIRES(c.stack_n <= 1024);
  auto* stack = static_cast<evmc_uint256be*>(__vc_buffer(32 * c.stack_n, 16, "stack"));
  c.stack = stack;
  c.w = vc_any<uint16_t>("w");
  VC_REQUIRES(c.w < 1024);
  c.mem_n = in ? vc_any<uint32_t>("mem_n") : 0;
  c.ret_n = in ? vc_any<uint32_t>("ret_n") : 0;
  if (!__vc_symbolic()) { c.mem_n %= 256; c.ret_n %= 256; c.k %= 300; }
  auto* mem = static_cast<uint8_t*>(__vc_buffer(c.mem_n, 16, "mem"));
  auto* ret = static_cast<uint8_t*>(__vc_buffer(c.ret_n, 16, "ret"));
  c.mem = mem;
  c.ret = ret;
  evmc_step_result r = vm->StepN({c.code, c.code_n}, &m, &h, c.hctx, c.rev, c.status, c.pc, c.refunds, {stack, c.stack_n}, {mem, c.mem_n}, {ret, c.ret_n}, c.steps);
  if (in) {
    r.release(&r);
    __vc_cover("step in");
    return;
  }
  reported(c, r);
  VC_ENSURES("the reported step status corresponds to how the step ended", r.step_status_code == step_status_of(c.end));
  VC_ENSURES("the reported revision and program counter are those of the execution", r.revision == c.rev && r.pc == c.end_pc);
  VC_ENSURES("the reported memory is the final memory", r.memory_size == c.out_mem_n && at(r.memory, c.out_mem_n, c.k) == c.out_mem_k);
  VC_ENSURES("the reported last return data is the final one", r.last_call_return_data_size == c.out_ret_n && at(r.last_call_return_data, c.out_ret_n, c.k) == c.out_ret_k);
  VC_ENSURES("the reported stack has the final depth", r.stack_size == c.out_stack_n);
  if (c.w < c.out_stack_n) VC_ENSURES("the reported stack holds the final words, bottom first", word(r.stack[c.out_stack_n - 1 - c.w]) == c.out_w.v);
  const void *out = r.output_data, *rmem = r.memory, *rret = r.last_call_return_data, *rstack = r.stack;
  r.release(&r);
  if (__vc_symbolic()) {
    if (out != nullptr) VC_ENSURES("releasing a step result frees its output", __vc_alive(out) == 0);
    if (rmem != nullptr) VC_ENSURES("releasing a step result frees its memory", __vc_alive(rmem) == 0);
    if (rret != nullptr) VC_ENSURES("releasing a step result frees its return data", __vc_alive(rret) == 0);
    if (rstack != nullptr) VC_ENSURES("releasing a step result frees its stack", __vc_alive(rstack) == 0);
  }
  __vc_cover("step out");
}
}
extern "C" void vch_step_in() { step_n(kIn); }
extern "C" void vch_step_end() { step_n(kEnd); }
extern "C" void vch_step_data() { step_n(kData); }
// ---------------------------------------------------------------- status translation and options
extern "C" void vch_status() {
  auto s = vc_any<uint8_t>("state");
  VC_REQUIRES(s <= uint8_t(RunState::kErrorInitCodeSizeExceeded));
  auto st = static_cast<RunState>(s);
  VC_ENSURES("every way to end has its status", ToEvmcStatusCode(st) == status_of(st));
  VC_ENSURES("every way to end has its step status", ToEvmcStepStatusCode(st) == step_status_of(st));
  if (s <= uint8_t(RunState::kInvalid)) VC_ENSURES("a reported step status resumes the same way", ToRunStateCode(ToEvmcStepStatusCode(st)) == st);
  __vc_cover("status");
}

// Stub of the (absent) EVMC C++ wrapper.
#pragma once
#include <cstring>
#include <functional>
#include <initializer_list>
#include <span>
#include <utility>
#include <string_view>
#include <evmc/evmc.h>
namespace evmc {
struct address : evmc_address {
  constexpr address(evmc_address init = {}) noexcept : evmc_address{init} {}
  explicit constexpr address(uint64_t v) noexcept : evmc_address{} { for (int i = 0; i < 8; i++) bytes[19 - i] = uint8_t(v >> (8 * i)); }
  inline explicit operator bool() const noexcept;
};
struct bytes32 : evmc_bytes32 {
  constexpr bytes32(evmc_bytes32 init = {}) noexcept : evmc_bytes32{init} {}
  explicit constexpr bytes32(uint64_t v) noexcept : evmc_bytes32{} { for (int i = 0; i < 8; i++) bytes[31 - i] = uint8_t(v >> (8 * i)); }
  inline explicit operator bool() const noexcept;
};
using uint256be = bytes32;
namespace stub {
using w256 = unsigned _BitInt(256);
using w160 = unsigned _BitInt(160);
inline w256 w(const evmc_bytes32& b) { w256 r; std::memcpy(&r, b.bytes, 32); return r; }
struct a20 { uint64_t a, b; uint32_t c; };
inline a20 w(const evmc_address& x) { a20 r{}; std::memcpy(&r.a, x.bytes, 8); std::memcpy(&r.b, x.bytes + 8, 8); std::memcpy(&r.c, x.bytes + 16, 4); return r; }
}
inline bool operator==(const evmc_address& a, const evmc_address& b) noexcept { auto x = stub::w(a), y = stub::w(b); return ((x.a ^ y.a) | (x.b ^ y.b) | (x.c ^ y.c)) == 0; }
inline bool operator==(const address& a, const address& b) noexcept { return static_cast<const evmc_address&>(a) == static_cast<const evmc_address&>(b); }
inline bool operator==(const bytes32& a, const bytes32& b) noexcept { return stub::w(a) == stub::w(b); }
inline bool operator<(const bytes32& a, const bytes32& b) noexcept { return std::memcmp(a.bytes, b.bytes, 32) < 0; }
inline bool operator<(const address& a, const address& b) noexcept { return std::memcmp(a.bytes, b.bytes, 20) < 0; }
inline bool is_zero(const evmc_bytes32& b) noexcept { return stub::w(b) == 0; }
inline bool is_zero(const evmc_address& b) noexcept { auto x = stub::w(b); return (x.a | x.b | x.c) == 0; }
inline address::operator bool() const noexcept { return !is_zero(*this); }
inline bytes32::operator bool() const noexcept { return !is_zero(*this); }
using bytes_view = std::basic_string_view<uint8_t>;

class Result : private evmc_result {
 public:
  using evmc_result::create_address;
  using evmc_result::gas_left;
  using evmc_result::gas_refund;
  using evmc_result::output_data;
  using evmc_result::output_size;
  using evmc_result::status_code;
  Result() noexcept : evmc_result{} {}
  explicit Result(evmc_status_code s, int64_t gl = 0, int64_t gr = 0) noexcept : evmc_result{} { status_code = s; gas_left = gl; gas_refund = gr; }
  explicit Result(const evmc_result& r) noexcept : evmc_result{r} {}
  ~Result() noexcept { if (this->release != nullptr) this->release(this); }
  Result(Result&& o) noexcept : evmc_result{o} { o.release = nullptr; }
  Result& operator=(Result&& o) noexcept { evmc_result t{o}; o.release = nullptr; if (this->release) this->release(this); static_cast<evmc_result&>(*this) = t; return *this; }
  Result(const Result&) = delete;
  Result& operator=(const Result&) = delete;
  evmc_result release_raw() noexcept { const auto out = evmc_result{*this}; this->release = nullptr; return out; }
};

class HostInterface {
 public:
  virtual ~HostInterface() noexcept = default;
  virtual bool account_exists(const address& addr) const noexcept = 0;
  virtual bytes32 get_storage(const address& addr, const bytes32& key) const noexcept = 0;
  virtual evmc_storage_status set_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept = 0;
  virtual uint256be get_balance(const address& addr) const noexcept = 0;
  virtual size_t get_code_size(const address& addr) const noexcept = 0;
  virtual bytes32 get_code_hash(const address& addr) const noexcept = 0;
  virtual size_t copy_code(const address& addr, size_t off, uint8_t* buf, size_t n) const noexcept = 0;
  virtual bool selfdestruct(const address& addr, const address& beneficiary) noexcept = 0;
  virtual Result call(const evmc_message& msg) noexcept = 0;
  virtual evmc_tx_context get_tx_context() const noexcept = 0;
  virtual bytes32 get_block_hash(int64_t number) const noexcept = 0;
  virtual void emit_log(const address& addr, const uint8_t* data, size_t n, const bytes32 topics[], size_t nt) noexcept = 0;
  virtual evmc_access_status access_account(const address& addr) noexcept = 0;
  virtual evmc_access_status access_storage(const address& addr, const bytes32& key) noexcept = 0;
  virtual bytes32 get_transient_storage(const address& addr, const bytes32& key) const noexcept = 0;
  virtual void set_transient_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept = 0;
};

class HostContext : public HostInterface {
  const evmc_host_interface* host = nullptr;
  evmc_host_context* context = nullptr;
 public:
  HostContext() = default;
  HostContext(const evmc_host_interface& i, evmc_host_context* c) noexcept : host{&i}, context{c} {}
  bool account_exists(const address& a) const noexcept final { return host->account_exists(context, &a); }
  bytes32 get_storage(const address& a, const bytes32& k) const noexcept final { return host->get_storage(context, &a, &k); }
  evmc_storage_status set_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final { return host->set_storage(context, &a, &k, &v); }
  uint256be get_balance(const address& a) const noexcept final { return host->get_balance(context, &a); }
  size_t get_code_size(const address& a) const noexcept final { return host->get_code_size(context, &a); }
  bytes32 get_code_hash(const address& a) const noexcept final { return host->get_code_hash(context, &a); }
  size_t copy_code(const address& a, size_t o, uint8_t* b, size_t n) const noexcept final { return host->copy_code(context, &a, o, b, n); }
  bool selfdestruct(const address& a, const address& b) noexcept final { return host->selfdestruct(context, &a, &b); }
  Result call(const evmc_message& m) noexcept final { return Result{host->call(context, &m)}; }
  evmc_tx_context get_tx_context() const noexcept final { return host->get_tx_context(context); }
  bytes32 get_block_hash(int64_t n) const noexcept final { return host->get_block_hash(context, n); }
  void emit_log(const address& a, const uint8_t* d, size_t n, const bytes32 t[], size_t nt) noexcept final { host->emit_log(context, &a, d, n, t, nt); }
  evmc_access_status access_account(const address& a) noexcept final { return host->access_account(context, &a); }
  evmc_access_status access_storage(const address& a, const bytes32& k) noexcept final { return host->access_storage(context, &a, &k); }
  bytes32 get_transient_storage(const address& a, const bytes32& k) const noexcept final { return host->get_transient_storage(context, &a, &k); }
  void set_transient_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final { host->set_transient_storage(context, &a, &k, &v); }
};
}  // namespace evmc
template <> struct std::hash<evmc::address> {
  size_t operator()(const evmc::address& s) const noexcept { auto x = evmc::stub::w(s); return x.a ^ (x.b * 31) ^ x.c; }
};
template <> struct std::hash<evmc::bytes32> {
  size_t operator()(const evmc::bytes32& s) const noexcept { uint64_t w[4]; std::memcpy(w, s.bytes, 32); return w[0] ^ (w[1] * 3) ^ (w[2] * 5) ^ (w[3] * 7); }
};

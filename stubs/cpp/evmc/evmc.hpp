#pragma once
#include <cstring>
#include <compare>
#include <functional>
#include <utility>
#include <evmc/evmc.h>
namespace evmc {
struct address : evmc_address {
  constexpr address(evmc_address init = {}) noexcept : evmc_address{init} {}
  constexpr explicit address(uint64_t v) noexcept : evmc_address{} { for (int i = 0; i < 8; i++) bytes[19 - i] = (uint8_t)(v >> (8 * i)); }
  explicit operator bool() const noexcept;
};
struct bytes32 : evmc_bytes32 {
  constexpr bytes32(evmc_bytes32 init = {}) noexcept : evmc_bytes32{init} {}
  constexpr explicit bytes32(uint64_t v) noexcept : evmc_bytes32{} { for (int i = 0; i < 8; i++) bytes[31 - i] = (uint8_t)(v >> (8 * i)); }
  explicit operator bool() const noexcept;
};
using uint256be = bytes32;
inline bool operator==(const address& a, const address& b) noexcept { return std::memcmp(a.bytes, b.bytes, 20) == 0; }
inline bool operator!=(const address& a, const address& b) noexcept { return !(a == b); }
inline bool operator<(const address& a, const address& b) noexcept { return std::memcmp(a.bytes, b.bytes, 20) < 0; }
inline bool operator==(const bytes32& a, const bytes32& b) noexcept { return std::memcmp(a.bytes, b.bytes, 32) == 0; }
inline bool operator!=(const bytes32& a, const bytes32& b) noexcept { return !(a == b); }
inline bool operator<(const bytes32& a, const bytes32& b) noexcept { return std::memcmp(a.bytes, b.bytes, 32) < 0; }
inline bool is_zero(const address& a) noexcept { return a == address{}; }
inline bool is_zero(const bytes32& a) noexcept { return a == bytes32{}; }
inline address::operator bool() const noexcept { return !is_zero(*this); }
inline bytes32::operator bool() const noexcept { return !is_zero(*this); }

class Result : private evmc_result {
 public:
  using evmc_result::create_address;
  using evmc_result::gas_left;
  using evmc_result::gas_refund;
  using evmc_result::output_data;
  using evmc_result::output_size;
  using evmc_result::status_code;
  explicit Result(evmc_result const& res) noexcept : evmc_result{res} {}
  Result(Result&& o) noexcept : evmc_result{o} { o.release = nullptr; }
  ~Result() noexcept { if (evmc_result::release != nullptr) evmc_result::release(this); }
};

class HostInterface {
 public:
  virtual ~HostInterface() noexcept = default;
  virtual bool account_exists(const address& addr) const noexcept = 0;
  virtual bytes32 get_storage(const address& addr, const bytes32& key) const noexcept = 0;
  virtual evmc_storage_status set_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept = 0;
  virtual uint256be get_balance(const address& addr) const noexcept = 0;
  virtual size_t get_code_size(const address& addr) const noexcept = 0;
  virtual bytes32 get_code_hash(const address& addr) const noexcept = 0;
  virtual size_t copy_code(const address& addr, size_t code_offset, uint8_t* buffer_data, size_t buffer_size) const noexcept = 0;
  virtual bool selfdestruct(const address& addr, const address& beneficiary) noexcept = 0;
  virtual Result call(const evmc_message& msg) noexcept = 0;
  virtual evmc_tx_context get_tx_context() const noexcept = 0;
  virtual bytes32 get_block_hash(int64_t block_number) const noexcept = 0;
  virtual void emit_log(const address& addr, const uint8_t* data, size_t data_size, const bytes32 topics[], size_t num_topics) noexcept = 0;
  virtual evmc_access_status access_account(const address& addr) noexcept = 0;
  virtual evmc_access_status access_storage(const address& addr, const bytes32& key) noexcept = 0;
  virtual bytes32 get_transient_storage(const address& addr, const bytes32& key) const noexcept = 0;
  virtual void set_transient_storage(const address& addr, const bytes32& key, const bytes32& value) noexcept = 0;
};

class HostContext : public HostInterface {
  const evmc_host_interface* host = nullptr;
  evmc_host_context* context = nullptr;
 public:
  HostContext() = default;
  HostContext(const evmc_host_interface& interface, evmc_host_context* ctx) noexcept : host{&interface}, context{ctx} {}
  bool account_exists(const address& a) const noexcept final { return host->account_exists(context, &a); }
  bytes32 get_storage(const address& a, const bytes32& k) const noexcept final { return host->get_storage(context, &a, &k); }
  evmc_storage_status set_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final { return host->set_storage(context, &a, &k, &v); }
  uint256be get_balance(const address& a) const noexcept final { return host->get_balance(context, &a); }
  size_t get_code_size(const address& a) const noexcept final { return host->get_code_size(context, &a); }
  bytes32 get_code_hash(const address& a) const noexcept final { return host->get_code_hash(context, &a); }
  size_t copy_code(const address& a, size_t o, uint8_t* b, size_t n) const noexcept final { return host->copy_code(context, &a, o, b, n); }
  bool selfdestruct(const address& a, const address& b) noexcept final { return host->selfdestruct(context, &a, &b); }
  Result call(const evmc_message& m) noexcept final { return Result{host->call(context, &m)}; }
  evmc_tx_context get_tx_context() const noexcept final { return host->get_tx_context(context); }
  bytes32 get_block_hash(int64_t n) const noexcept final { return host->get_block_hash(context, n); }
  void emit_log(const address& a, const uint8_t* d, size_t n, const bytes32 t[], size_t m) noexcept final { host->emit_log(context, &a, d, n, t, m); }
  evmc_access_status access_account(const address& a) noexcept final { return host->access_account(context, &a); }
  evmc_access_status access_storage(const address& a, const bytes32& k) noexcept final { return host->access_storage(context, &a, &k); }
  bytes32 get_transient_storage(const address& a, const bytes32& k) const noexcept final { return host->get_transient_storage(context, &a, &k); }
  void set_transient_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final { host->set_transient_storage(context, &a, &k, &v); }
};
}  // namespace evmc
namespace std {
template <> struct hash<evmc::address> { size_t operator()(const evmc::address& a) const noexcept { return a.bytes[19]; } };
template <> struct hash<evmc::bytes32> { size_t operator()(const evmc::bytes32& a) const noexcept { return a.bytes[31]; } };
}

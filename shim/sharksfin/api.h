#pragma once
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <vector>
#include <sharksfin/CallResult.h>
#include <sharksfin/StatusCode.h>
#include <sharksfin/StorageOptions.h>
#include <sharksfin/TransactionInfo.h>
#include <sharksfin/TransactionState.h>
namespace sharksfin {
class Slice {
public:
    constexpr Slice() = default;
    constexpr Slice(void const* p, std::size_t n) : p_(static_cast<char const*>(p)), n_(n) {}
    constexpr Slice(std::string_view s) : p_(s.data()), n_(s.size()) {}
    Slice(std::string const& s) : p_(s.data()), n_(s.size()) {}
    Slice(char const* s) : p_(s), n_(std::string_view{s}.size()) {}
    template <class T = std::byte> [[nodiscard]] T const* data() const noexcept { return reinterpret_cast<T const*>(p_); }
    [[nodiscard]] std::size_t size() const noexcept { return n_; }
    [[nodiscard]] bool empty() const noexcept { return n_ == 0; }
    [[nodiscard]] std::string_view to_string_view() const noexcept { return {p_, n_}; }
    [[nodiscard]] std::string to_string() const { return {p_, n_}; }
private:
    char const* p_{}; std::size_t n_{};
};
struct DatabaseStub; struct StorageStub; struct TransactionControlStub; struct TransactionStub; struct IteratorStub;
using DatabaseHandle = DatabaseStub*;
using StorageHandle = StorageStub*;
using TransactionControlHandle = TransactionControlStub*;
using TransactionHandle = TransactionStub*;
using IteratorHandle = IteratorStub*;
using SequenceId = std::size_t;
using SequenceVersion = std::size_t;
using SequenceValue = std::int64_t;
using durability_marker_type = std::uint64_t;
using blob_id_type = std::uint64_t;
using durability_callback_type = std::function<void(durability_marker_type)>;
using commit_callback_type = std::function<void(StatusCode, ErrorCode, durability_marker_type)>;
enum class EndPointKind : std::uint32_t { UNBOUND, INCLUSIVE, EXCLUSIVE, PREFIXED_INCLUSIVE, PREFIXED_EXCLUSIVE };
enum class PutOperation : std::uint32_t { CREATE_OR_UPDATE, CREATE, UPDATE };
class WritePreserve { public: explicit WritePreserve(StorageHandle h) : h_(h) {} [[nodiscard]] StorageHandle handle() const { return h_; } private: StorageHandle h_{}; };
class TransactionOptions {
public:
    enum class TransactionType : std::uint32_t { SHORT, LONG, READ_ONLY };
    using WritePreserves = std::vector<WritePreserve>;
    using ReadAreas = std::vector<StorageHandle>;
    TransactionOptions() = default;
    explicit TransactionOptions(TransactionType t, WritePreserves w = {}, ReadAreas ri = {}, ReadAreas re = {}) : type_(t), wps_(std::move(w)), rai_(std::move(ri)), rae_(std::move(re)) {}
    [[nodiscard]] TransactionType transaction_type() const { return type_; }
    [[nodiscard]] WritePreserves const& write_preserves() const { return wps_; }
private:
    TransactionType type_{}; WritePreserves wps_{}; ReadAreas rai_{}, rae_{};
};
class DatabaseOptions { public: std::string attribute(std::string_view) const { return {}; } void attribute(std::string_view, std::string_view) {} };
// the engine's functions; a harness that links code calling them provides them
StatusCode database_open(DatabaseOptions const&, void*, DatabaseHandle*);
StatusCode database_close(DatabaseHandle);
StatusCode database_dispose(DatabaseHandle);
StatusCode database_register_durability_callback(DatabaseHandle, durability_callback_type);
StatusCode implementation_get_datastore(DatabaseHandle, void*);
StatusCode storage_create(DatabaseHandle, Slice, StorageOptions const&, StorageHandle*);
StatusCode storage_get(DatabaseHandle, Slice, StorageHandle*);
StatusCode storage_delete(StorageHandle);
StatusCode storage_dispose(StorageHandle);
StatusCode storage_list(DatabaseHandle, std::vector<std::string>&);
StatusCode storage_set_options(StorageHandle, StorageOptions const&);
StatusCode storage_get_options(StorageHandle, StorageOptions&);
StatusCode transaction_begin(DatabaseHandle, TransactionOptions const&, TransactionControlHandle*);
StatusCode transaction_borrow_handle(TransactionControlHandle, TransactionHandle*);
StatusCode transaction_acquire_handle(TransactionControlHandle, TransactionHandle*);
StatusCode transaction_release_handle(TransactionHandle);
bool transaction_commit_with_callback(TransactionControlHandle, commit_callback_type);
StatusCode transaction_abort(TransactionControlHandle, bool rollback = true);
StatusCode transaction_dispose(TransactionControlHandle);
StatusCode transaction_check(TransactionControlHandle, TransactionState&);
StatusCode transaction_get_info(TransactionControlHandle, std::shared_ptr<TransactionInfo>&);
std::shared_ptr<CallResult> transaction_inspect_recent_call(TransactionControlHandle);
StatusCode content_get(TransactionHandle, StorageHandle, Slice, Slice*);
StatusCode content_put_with_blobs(TransactionHandle, StorageHandle, Slice, Slice, blob_id_type const*, std::size_t, PutOperation);
StatusCode content_delete(TransactionHandle, StorageHandle, Slice);
StatusCode content_scan(TransactionHandle, StorageHandle, Slice, EndPointKind, Slice, EndPointKind, IteratorHandle*, std::size_t limit = 0, bool reverse = false);
StatusCode iterator_next(IteratorHandle);
StatusCode iterator_get_key(IteratorHandle, Slice*);
StatusCode iterator_get_value(IteratorHandle, Slice*);
StatusCode iterator_dispose(IteratorHandle);
StatusCode sequence_create(DatabaseHandle, SequenceId*);
StatusCode sequence_put(TransactionHandle, SequenceId, SequenceVersion, SequenceValue);
StatusCode sequence_get(DatabaseHandle, SequenceId, SequenceVersion*, SequenceValue*);
StatusCode sequence_delete(DatabaseHandle, SequenceId);
class Environment { public: void initialize() {} };
} // namespace sharksfin

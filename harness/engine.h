// A small in-memory stand-in for the transaction engine behind the kvs layer: storages with buffered writes per transaction,
// sequences whose puts take effect with the transaction, and three layers of state: uncommitted, committed, durable.
#pragma once
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <vector>
#include <cstring>
#include <sharksfin/api.h>
#include "hist.h"
namespace eng {
using namespace sharksfin;
using kvmap = std::map<std::string, std::string>;
struct sv { std::uint64_t ver; std::int64_t val; };
struct tx { bool alive{true}; int id{}; bool failput{false}; std::map<std::string, std::map<std::string, std::optional<std::string>>> w{}; std::map<std::size_t, sv> seq{}; int extra{}; };
struct stg { std::string name; };
struct iter { kvmap snap; kvmap::iterator it{}; bool started{false}; };
struct layer { std::map<std::string, kvmap> kv{}; std::map<std::size_t, sv> seq{}; };
struct engine {
    layer comm{}, dur{}; std::set<std::size_t> ids{}; std::size_t next{1}; int puts{0}; std::set<std::string> names{};
    std::set<tx*> txs{}; std::set<stg*> stgs{}; std::set<iter*> iters{};
    void* on_commit{};
    kvmap view(tx& t, std::string const& s) { auto m = comm.kv[s]; for (auto& [k, v] : t.w[s]) { if (v) m[k] = *v; else m.erase(k); } return m; }
    void commit(tx& t) {
        for (auto& [s, m] : t.w) for (auto& [k, v] : m) { if (v) comm.kv[s][k] = *v; else comm.kv[s].erase(k); }
        for (auto& [i, x] : t.seq) if (ids.count(i)) { auto it = comm.seq.find(i); if (it == comm.seq.end() || it->second.ver < x.ver) comm.seq[i] = x; }
        t.alive = false;
    }
    void sync() { dur = comm; }
    void crash() { comm = dur; for (auto* t : txs) t->alive = false; }
    ~engine() { for (auto* t : txs) delete t; for (auto* s : stgs) delete s; for (auto* i : iters) delete i; }
};
inline engine* cur{};
inline tx* T(TransactionControlHandle h) { return reinterpret_cast<tx*>(h); }
inline tx* T(TransactionHandle h) { return reinterpret_cast<tx*>(h); }
}
namespace sharksfin {
using eng::T; using hist::quiet;
inline std::string str(Slice s) { return std::string{s.to_string_view()}; }
inline eng::stg* S(StorageHandle h) { return reinterpret_cast<eng::stg*>(h); }
inline eng::iter* I(IteratorHandle h) { return reinterpret_cast<eng::iter*>(h); }
inline StorageHandle mk(std::string n) { auto* s = new eng::stg{std::move(n)}; eng::cur->stgs.insert(s); return reinterpret_cast<StorageHandle>(s); }
StatusCode database_open(DatabaseOptions const&, void*, DatabaseHandle*) { return StatusCode::ERR_UNSUPPORTED; }
StatusCode database_close(DatabaseHandle) { return StatusCode::OK; }
StatusCode database_dispose(DatabaseHandle) { return StatusCode::OK; }
StatusCode database_register_durability_callback(DatabaseHandle, durability_callback_type) { return StatusCode::OK; }
StatusCode implementation_get_datastore(DatabaseHandle, void*) { return StatusCode::ERR_UNSUPPORTED; }
StatusCode storage_create(DatabaseHandle, Slice n, StorageOptions const&, StorageHandle* out) { quiet q; if (! eng::cur->names.insert(str(n)).second) return StatusCode::ALREADY_EXISTS; *out = mk(str(n)); return StatusCode::OK; }
StatusCode storage_get(DatabaseHandle, Slice n, StorageHandle* out) { quiet q; if (! eng::cur->names.count(str(n))) return StatusCode::NOT_FOUND; *out = mk(str(n)); return StatusCode::OK; }
StatusCode storage_delete(StorageHandle h) { quiet q; eng::cur->names.erase(S(h)->name); eng::cur->comm.kv.erase(S(h)->name); return StatusCode::OK; }
StatusCode storage_dispose(StorageHandle h) { quiet q; eng::cur->stgs.erase(S(h)); delete S(h); return StatusCode::OK; }
StatusCode storage_list(DatabaseHandle, std::vector<std::string>& o) { quiet q; for (auto& n : eng::cur->names) o.push_back(n); return StatusCode::OK; }
StatusCode storage_set_options(StorageHandle, StorageOptions const&) { return StatusCode::OK; }
StatusCode storage_get_options(StorageHandle, StorageOptions&) { return StatusCode::OK; }
StatusCode transaction_begin(DatabaseHandle, TransactionOptions const&, TransactionControlHandle* out) { quiet q; auto* t = new eng::tx{}; eng::cur->txs.insert(t); *out = reinterpret_cast<TransactionControlHandle>(t); return StatusCode::OK; }
StatusCode transaction_borrow_handle(TransactionControlHandle h, TransactionHandle* out) { *out = reinterpret_cast<TransactionHandle>(h); return StatusCode::OK; }
StatusCode transaction_acquire_handle(TransactionControlHandle h, TransactionHandle* out) { *out = reinterpret_cast<TransactionHandle>(h); return StatusCode::OK; }
StatusCode transaction_release_handle(TransactionHandle) { return StatusCode::OK; }
bool transaction_commit_with_callback(TransactionControlHandle h, commit_callback_type cb) { bool ok = T(h)->alive; { quiet q; if (ok) eng::cur->commit(*T(h)); } cb(ok ? StatusCode::OK : StatusCode::ERR_INACTIVE_TRANSACTION, {}, 0); return true; }
StatusCode transaction_abort(TransactionControlHandle h, bool) { T(h)->alive = false; return StatusCode::OK; }
StatusCode transaction_dispose(TransactionControlHandle h) { quiet q; eng::cur->txs.erase(T(h)); delete T(h); return StatusCode::OK; }
StatusCode transaction_check(TransactionControlHandle, TransactionState& o) { o = TransactionState{TransactionState::StateKind::STARTED}; return StatusCode::OK; }
StatusCode transaction_get_info(TransactionControlHandle, std::shared_ptr<TransactionInfo>& o) { quiet q; o = std::make_shared<TransactionInfo>("TX"); return StatusCode::OK; }
std::shared_ptr<CallResult> transaction_inspect_recent_call(TransactionControlHandle) { return {}; }
StatusCode content_get(TransactionHandle h, StorageHandle s, Slice k, Slice* o) { quiet q; if (! T(h)->alive) return StatusCode::ERR_INACTIVE_TRANSACTION; auto m = eng::cur->view(*T(h), S(s)->name); auto it = m.find(str(k)); if (it == m.end()) return StatusCode::NOT_FOUND; static std::string keep; keep = it->second; *o = Slice{keep}; return StatusCode::OK; }
StatusCode content_put_with_blobs(TransactionHandle h, StorageHandle s, Slice k, Slice v, blob_id_type const*, std::size_t, PutOperation op) {
    quiet q; if (! T(h)->alive) return StatusCode::ERR_INACTIVE_TRANSACTION;
    auto m = eng::cur->view(*T(h), S(s)->name);
    if (op == PutOperation::CREATE && m.count(str(k))) return StatusCode::ALREADY_EXISTS;
    if (op == PutOperation::UPDATE && ! m.count(str(k))) return StatusCode::NOT_FOUND;
    T(h)->w[S(s)->name][str(k)] = str(v); return StatusCode::OK;
}
StatusCode content_delete(TransactionHandle h, StorageHandle s, Slice k) { quiet q; if (! T(h)->alive) return StatusCode::ERR_INACTIVE_TRANSACTION; auto m = eng::cur->view(*T(h), S(s)->name); if (! m.count(str(k))) return StatusCode::NOT_FOUND; T(h)->w[S(s)->name][str(k)] = std::nullopt; return StatusCode::OK; }
StatusCode content_scan(TransactionHandle h, StorageHandle s, Slice, EndPointKind, Slice, EndPointKind, IteratorHandle* o, std::size_t, bool) { quiet q; if (! T(h)->alive) return StatusCode::ERR_INACTIVE_TRANSACTION; auto* i = new eng::iter{eng::cur->view(*T(h), S(s)->name)}; eng::cur->iters.insert(i); *o = reinterpret_cast<IteratorHandle>(i); return StatusCode::OK; }
StatusCode iterator_next(IteratorHandle h) { quiet q; auto* i = I(h); if (! i->started) { i->started = true; i->it = i->snap.begin(); } else ++i->it; return i->it == i->snap.end() ? StatusCode::NOT_FOUND : StatusCode::OK; }
StatusCode iterator_get_key(IteratorHandle h, Slice* o) { quiet q; *o = Slice{I(h)->it->first.data(), I(h)->it->first.size()}; return StatusCode::OK; }
StatusCode iterator_get_value(IteratorHandle h, Slice* o) { quiet q; *o = Slice{I(h)->it->second.data(), I(h)->it->second.size()}; return StatusCode::OK; }
StatusCode iterator_dispose(IteratorHandle h) { quiet q; eng::cur->iters.erase(I(h)); delete I(h); return StatusCode::OK; }
StatusCode sequence_create(DatabaseHandle, SequenceId* o) { quiet q; *o = eng::cur->next++; eng::cur->ids.insert(*o); return StatusCode::OK; }
StatusCode sequence_put(TransactionHandle h, SequenceId i, SequenceVersion ver, SequenceValue val) {
    quiet q; ++eng::cur->puts; auto* t = T(h);
    if (! t->alive) return StatusCode::ERR_INACTIVE_TRANSACTION;
    if (! eng::cur->ids.count(i)) return StatusCode::NOT_FOUND;
    if (t->failput) { t->failput = false; return StatusCode::ERR_IO_ERROR; }
    auto it = t->seq.find(i); if (it == t->seq.end() || it->second.ver < ver) t->seq[i] = {ver, val};
    return StatusCode::OK;
}
StatusCode sequence_get(DatabaseHandle, SequenceId i, SequenceVersion* ver, SequenceValue* val) { quiet q; auto it = eng::cur->dur.seq.find(i); if (it == eng::cur->dur.seq.end() || ! eng::cur->ids.count(i)) return StatusCode::NOT_FOUND; *ver = it->second.ver; *val = it->second.val; return StatusCode::OK; }
StatusCode sequence_delete(DatabaseHandle, SequenceId i) { quiet q; if (! eng::cur->ids.erase(i)) return StatusCode::NOT_FOUND; return StatusCode::OK; }
}

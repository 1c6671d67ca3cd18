// braft interfaces used by dingo-store.  braft::Node is abstracted: the harness supplies the behaviour (shim_node_*).
#pragma once
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>
#include "brpc/closure_guard.h"
#include "brpc/controller.h"
#include "butil/atomicops.h"
#include "butil/endpoint.h"
#include "butil/iobuf.h"
#include "butil/logging.h"
#include "butil/memory/ref_counted.h"
#include "butil/scoped_lock.h"
#include "butil/status.h"
#include "bthread/bthread.h"
#include "gflags/gflags.h"
namespace brpc { class Server; }
namespace braft {
typedef std::string GroupId; typedef bthread::Mutex raft_mutex_t;
extern bool FLAGS_raft_sync, FLAGS_raft_sync_meta_x; inline bool raft_sync_meta() { return true; } extern int FLAGS_raft_max_segment_size;
enum RaftError { ERAFTTIMEDOUT = 10001, ESTATEMACHINE = 10002, ECATCHUP = 10003, ELEADERREMOVED = 10004, ESETPEER = 10005, ENODESHUTDOWN = 10006, EHIGHERTERMREQUEST = 10007, EHIGHERTERMRESPONSE = 10008, EBADNODE = 10009, EVOTEFORCANDIDATE = 10010, ENEWLEADER = 10011, ELEADERCONFLICT = 10012, ETRANSFERLEADERSHIP = 10013, ELOGDELETED = 10014, ENOMOREUSERLOG = 10015 };
enum EntryType { ENTRY_TYPE_UNKNOWN = 0, ENTRY_TYPE_NO_OP = 1, ENTRY_TYPE_DATA = 2, ENTRY_TYPE_CONFIGURATION = 3 };
enum ErrorType { ERROR_TYPE_NONE, ERROR_TYPE_LOG, ERROR_TYPE_STABLE, ERROR_TYPE_SNAPSHOT, ERROR_TYPE_STATE_MACHINE, ERROR_TYPE_META_STORAGE };
struct PeerId { butil::EndPoint addr; int idx = 0; int type_ = 0; enum Role { REPLICA = 0, WITNESS = 1 }; PeerId() {} explicit PeerId(butil::EndPoint a) : addr(a) {} PeerId(butil::EndPoint a, int i) : addr(a), idx(i) {} PeerId(const std::string& s) { parse(s); } bool is_empty() const { return addr.ip.s_addr == 0 && addr.port == 0 && idx == 0; } void reset() { *this = PeerId(); } int parse(const std::string& s) { reset(); size_t a = s.find(':'); if (a == s.npos) return -1; size_t b = s.find(':', a + 1); if (butil::str2endpoint(s.substr(0, b == s.npos ? s.size() : b).c_str(), &addr)) return -1; if (b != s.npos) { idx = 0; for (size_t i = b + 1; i < s.size() && s[i] >= '0' && s[i] <= '9'; i++) idx = idx * 10 + (s[i] - '0'); } return 0; } std::string to_string() const { std::string r = butil::endpoint2str(addr).c_str(); r += ':'; r += (char)('0' + idx % 10); return r; } bool is_witness() const { return false; } };
inline bool operator<(const PeerId& a, const PeerId& b) { return a.addr < b.addr ? true : (b.addr < a.addr ? false : a.idx < b.idx); } inline bool operator==(const PeerId& a, const PeerId& b) { return a.addr == b.addr && a.idx == b.idx; } inline bool operator!=(const PeerId& a, const PeerId& b) { return !(a == b); } inline std::ostream& operator<<(std::ostream& o, const PeerId&) { return o; }
class Configuration { std::set<PeerId> p; public: Configuration() {} explicit Configuration(const std::vector<PeerId>& v) : p(v.begin(), v.end()) {} explicit Configuration(const std::set<PeerId>& v) : p(v) {} typedef std::set<PeerId>::const_iterator const_iterator; const_iterator begin() const { return p.begin(); } const_iterator end() const { return p.end(); } void reset() { p.clear(); } bool empty() const { return p.empty(); } size_t size() const { return p.size(); } void list_peers(std::set<PeerId>* o) const { *o = p; } void list_peers(std::vector<PeerId>* o) const { o->assign(p.begin(), p.end()); } bool add_peer(const PeerId& x) { return p.insert(x).second; } bool remove_peer(const PeerId& x) { return p.erase(x) > 0; } bool contains(const PeerId& x) const { return p.count(x) > 0; } bool equals(const Configuration& o) const { return p == o.p; } int parse_from(const std::string&) { return 0; } };
inline std::ostream& operator<<(std::ostream& o, const Configuration&) { return o; }
struct LogId { int64_t index = 0, term = 0; LogId() {} LogId(int64_t i, int64_t t) : index(i), term(t) {} };
inline bool operator==(const LogId& a, const LogId& b) { return a.index == b.index && a.term == b.term; } inline bool operator!=(const LogId& a, const LogId& b) { return !(a == b); } inline bool operator<(const LogId& a, const LogId& b) { return a.term == b.term ? a.index < b.index : a.term < b.term; } inline bool operator>(const LogId& a, const LogId& b) { return b < a; } inline bool operator<=(const LogId& a, const LogId& b) { return !(b < a); } inline bool operator>=(const LogId& a, const LogId& b) { return !(a < b); } inline std::ostream& operator<<(std::ostream& o, const LogId&) { return o; }
struct LogEntry : public butil::RefCountedThreadSafe<LogEntry> { EntryType type = ENTRY_TYPE_UNKNOWN; LogId id; std::vector<PeerId>* peers = nullptr; std::vector<PeerId>* old_peers = nullptr; butil::IOBuf data; LogEntry() {} ~LogEntry() { delete peers; delete old_peers; } };
class ConfigurationPBMeta { public: std::string s; }; struct ConfigurationEntry { LogId id; Configuration conf, old_conf; ConfigurationEntry() {} ConfigurationEntry(const LogEntry& e) { id = e.id; if (e.peers) conf = Configuration(*e.peers); if (e.old_peers) old_conf = Configuration(*e.old_peers); } };
class ConfigurationManager { public: std::deque<ConfigurationEntry> c; int add(const ConfigurationEntry& e) { c.push_back(e); return 0; } void truncate_prefix(int64_t i) { while (!c.empty() && c.front().id.index < i) c.pop_front(); } void truncate_suffix(int64_t i) { while (!c.empty() && c.back().id.index > i) c.pop_back(); } };
inline butil::Status parse_configuration_meta(const butil::IOBuf& d, LogEntry* e) { e->peers = new std::vector<PeerId>(); const std::string& s = d.s; size_t i = 0; while (i + sizeof(PeerId) <= s.size()) { PeerId p; memcpy((void*)&p, s.data() + i, sizeof p); e->peers->push_back(p); i += sizeof p; } return butil::Status(); }
inline butil::Status serialize_configuration_meta(const LogEntry* e, butil::IOBuf& d) { if (e->peers) for (auto& p : *e->peers) d.append(&p, sizeof p); return butil::Status(); }
struct IOMetric { int64_t start_time_us = 0, bthread_queue_time_us = 0, open_segment_time_us = 0, append_entry_time_us = 0, sync_segment_time_us = 0; }; 
class LogStorage { public: virtual ~LogStorage() {} virtual int init(ConfigurationManager*) = 0; virtual int64_t first_log_index() = 0; virtual int64_t last_log_index() = 0; virtual LogEntry* get_entry(const int64_t) = 0; virtual int64_t get_term(const int64_t) = 0; virtual int append_entry(const LogEntry*) = 0; virtual int append_entries(const std::vector<LogEntry*>&, IOMetric*) = 0; virtual int truncate_prefix(const int64_t) = 0; virtual int truncate_suffix(const int64_t) = 0; virtual int reset(const int64_t) = 0; virtual LogStorage* new_instance(const std::string&) const = 0; virtual butil::Status gc_instance(const std::string&) const { return butil::Status(); } };
class Closure : public google::protobuf::Closure { butil::Status st; public: butil::Status& status() { return st; } const butil::Status& status() const { return st; } };
class AsyncClosureGuard { Closure* d = nullptr; public: explicit AsyncClosureGuard(google::protobuf::Closure* x) : d((Closure*)x) {} AsyncClosureGuard() {} ~AsyncClosureGuard() { if (d) d->Run(); } void reset(google::protobuf::Closure* x) { if (d) d->Run(); d = (Closure*)x; } Closure* release() { auto* x = d; d = nullptr; return x; } };
struct Task { butil::IOBuf* data = nullptr; Closure* done = nullptr; int64_t expected_term = -1; };
class Iterator { public: std::vector<LogEntry*>* v; std::vector<Closure*>* dn; size_t i = 0; bool err = false; Iterator(std::vector<LogEntry*>* v, std::vector<Closure*>* dn) : v(v), dn(dn) {} bool valid() const { return !err && i < v->size(); } void next() { ++i; } int64_t index() const { return (*v)[i]->id.index; } int64_t term() const { return (*v)[i]->id.term; } const butil::IOBuf& data() const { return (*v)[i]->data; } Closure* done() const { return dn && i < dn->size() ? (*dn)[i] : nullptr; } void set_error_and_rollback(size_t = 1, const butil::Status* = nullptr) { err = true; } };
class Error { public: int type() const { return 0; } const butil::Status& status() const { return st; } butil::Status st; }; inline std::ostream& operator<<(std::ostream& o, const Error&) { return o; }
class LeaderChangeContext { PeerId p; int64_t t; butil::Status st; public: LeaderChangeContext(const PeerId& p, int64_t t, const butil::Status& s) : p(p), t(t), st(s) {} const PeerId& leader_id() const { return p; } int64_t term() const { return t; } const butil::Status& status() const { return st; } }; inline std::ostream& operator<<(std::ostream& o, const LeaderChangeContext&) { return o; }
class SnapshotMeta { public: int64_t li = 0, lt = 0; int64_t last_included_index() const { return li; } int64_t last_included_term() const { return lt; } void set_last_included_index(int64_t v) { li = v; } void set_last_included_term(int64_t v) { lt = v; } std::vector<std::string> p; int peers_size() const { return (int)p.size(); } std::string ShortDebugString() const { return ""; } };
class LocalFileMeta : public ::google::protobuf::Message { public: std::string u; void Clear() override { u.clear(); } void Enc(::google::protobuf::Writer&) const override {} bool Dec(::google::protobuf::Reader&) override { return true; } bool has_user_meta() const { return !u.empty(); } const std::string& user_meta() const { return u; } void set_user_meta(const std::string& x) { u = x; } void set_checksum(const std::string&) {} bool ParseFromString(const std::string& x) { u = x; return true; } bool SerializeToString(std::string* o) const { *o = u; return true; } std::string checksum() const { return ""; } bool has_checksum() const { return false; } bool has_source() const { return false; } int source() const { return 0; } void set_source(int) {} std::string ShortDebugString() const { return ""; } };
enum FileSource { FILE_SOURCE_LOCAL = 0, FILE_SOURCE_REFERENCE = 1 };
class Snapshot : public butil::Status { public: virtual ~Snapshot() {} virtual std::string get_path() = 0; virtual void list_files(std::vector<std::string>*) = 0; virtual int get_file_meta(const std::string&, ::google::protobuf::Message*) { return 0; } template <class M> int get_file_meta(const std::string&, M*) { return 0; } };
class SnapshotWriter : public Snapshot { public: virtual int add_file(const std::string& f) { return add_file(f, nullptr); } virtual int add_file(const std::string&, const ::google::protobuf::Message*) = 0; template <class M> int add_file(const std::string& f, const M*) { return add_file(f, (const ::google::protobuf::Message*)nullptr); } virtual int remove_file(const std::string&) { return 0; } virtual int save_meta(const SnapshotMeta&) { return 0; } };
class SnapshotReader : public Snapshot { public: virtual int load_meta(SnapshotMeta*) = 0; virtual std::string generate_uri_for_copy() { return ""; } };
class StateMachine { public: virtual ~StateMachine() {} virtual void on_apply(Iterator&) = 0; virtual void on_shutdown() {} virtual void on_snapshot_save(SnapshotWriter*, Closure*) {} virtual int on_snapshot_load(SnapshotReader*) { return -1; } virtual void on_leader_start(int64_t) {} virtual void on_leader_stop(const butil::Status&) {} virtual void on_error(const Error&) {} virtual void on_configuration_committed(const Configuration&) {} virtual void on_configuration_committed(const Configuration& c, int64_t) { on_configuration_committed(c); } virtual void on_stop_following(const LeaderChangeContext&) {} virtual void on_start_following(const LeaderChangeContext&) {} };
struct PeerStatus { bool valid = false, installing_snapshot = false; int64_t next_index = 0, last_rpc_send_timestamp = 0, flying_append_entries_size = 0; int readonly_index = 0, consecutive_error_times = 0; }; struct NodeStatus { typedef std::map<PeerId, PeerStatus> PeerStatusMap; int state = 0; PeerId peer_id, leader_id; bool readonly = false; int64_t term = 0, committed_index = 0, known_applied_index = 0, pending_index = 0, pending_queue_size = 0, applying_index = 0, first_index = 0, last_index = -1, disk_index = 0; PeerStatusMap stable_followers, unstable_followers; };
class FileSystemAdaptor; class SnapshotThrottle; struct NodeOptions { int election_timeout_ms = 1000, max_clock_drift_ms = 1000, catchup_margin = 1000, snapshot_interval_s = 3600; Configuration initial_conf; bool usercode_in_pthread = false; StateMachine* fsm = nullptr; bool node_owns_fsm = false; std::string log_uri, raft_meta_uri, snapshot_uri; LogStorage* log_storage = nullptr; bool node_owns_log_storage = true; bool filter_before_copy_remote = false, disable_cli = false; FileSystemAdaptor* fsa_x = nullptr; scoped_refptr<FileSystemAdaptor>* snapshot_file_system_adaptor = nullptr; void* snapshot_throttle = nullptr; bool witness = false; };
class NodeImplX {};
class Node { public: GroupId g; PeerId p; StateMachine* fsm = nullptr; Node(const GroupId& g, const PeerId& p) : g(g), p(p) {} virtual ~Node() {} int init(const NodeOptions& o); void apply(const Task& t); bool is_leader(); bool is_leader_lease_valid() { return is_leader(); } PeerId leader_id(); void shutdown(Closure* done); void join() {} butil::Status list_peers(std::vector<PeerId>* o); void add_peer(const PeerId&, Closure* d); void remove_peer(const PeerId&, Closure* d); void change_peers(const Configuration&, Closure* d); butil::Status reset_peers(const Configuration&) { return butil::Status(); } int transfer_leadership_to(const PeerId&) { return 0; } void snapshot(Closure* d); butil::Status reset_election_timeout_ms(int) { return butil::Status(); } butil::Status read_committed_user_log(const int64_t, void*) { return butil::Status(); } void get_status(NodeStatus* s) { } void enter_readonly_mode() {} void leave_readonly_mode() {} bool readonly() { return false; } butil::Status vote(int) { return butil::Status(); } void get_leader_lease_status(void*) {} const PeerId& node_id_x() { return p; } };
template <class... A> int add_service(A&&...) { return 0; }
class SnapshotThrottle : public butil::RefCountedThreadSafe<SnapshotThrottle> {}; class ThroughputSnapshotThrottle : public SnapshotThrottle { public: ThroughputSnapshotThrottle(int64_t, int64_t) {} };
class RepeatedTimerTask { public: virtual ~RepeatedTimerTask() {} int init(int) { return 0; } void start() {} void stop() {} void reset() {} void reset(int) {} void destroy() {} void run_once_now() { run(); } virtual void run() = 0; protected: virtual void on_destroy() {} virtual int adjust_timeout_ms(int t) { return t; } };
uint32_t murmurhash32(const void*, int); uint32_t crc32(const void*, int); uint32_t murmurhash32(const butil::IOBuf&); uint32_t crc32(const butil::IOBuf&);
}

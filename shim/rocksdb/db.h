// rocksdb interfaces; a small in-memory model (ordered map per column family, atomic write batches, snapshots)
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <memory>
#include <string>
#include <string_view>
#include <vector>
namespace rocksdb {
class Slice { public: const char* data_ = ""; size_t size_ = 0; Slice() {} Slice(const char* d, size_t n) : data_(d), size_(n) {} Slice(const std::string& s) : data_(s.data()), size_(s.size()) {} Slice(std::string_view s) : data_(s.data()), size_(s.size()) {} Slice(const char* s) : data_(s), size_(std::char_traits<char>::length(s)) {} const char* data() const { return data_; } size_t size() const { return size_; } bool empty() const { return size_ == 0; } char operator[](size_t i) const { return data_[i]; } void clear() { data_ = ""; size_ = 0; } void remove_prefix(size_t k) { data_ += k; size_ -= k; } std::string ToString(bool = false) const { return std::string(data_, size_); } std::string_view ToStringView() const { return {data_, size_}; } int compare(const Slice& o) const { return ToStringView().compare(o.ToStringView()); } bool starts_with(const Slice& o) const { return size_ >= o.size_ && std::string_view(data_, o.size_) == o.ToStringView(); } };
inline bool operator==(const Slice& a, const Slice& b) { return a.ToStringView() == b.ToStringView(); } inline bool operator!=(const Slice& a, const Slice& b) { return !(a == b); } inline bool operator<(const Slice& a, const Slice& b) { return a.compare(b) < 0; }
class PinnableSlice : public Slice { std::string s; public: std::string* GetSelf() { return &s; } void PinSelf() { data_ = s.data(); size_ = s.size(); } void PinSelf(const Slice& o) { s = o.ToString(); PinSelf(); } void Reset() { s.clear(); PinSelf(); } };
class Status { public: enum Code { kOk = 0, kNotFound = 1, kCorruption = 2, kNotSupported = 3, kInvalidArgument = 4, kIOError = 5, kIncomplete = 7 }; Code c = kOk; Status() {} explicit Status(Code c) : c(c) {} static Status OK() { return Status(); } template <class... A> static Status NotFound(const A&...) { return Status(kNotFound); } template <class... A> static Status IOError(const A&...) { return Status(kIOError); } template <class... A> static Status InvalidArgument(const A&...) { return Status(kInvalidArgument); } template <class... A> static Status Corruption(const A&...) { return Status(kCorruption); } bool ok() const { return c == kOk; } bool IsNotFound() const { return c == kNotFound; } bool IsIncomplete() const { return c == kIncomplete; } bool IsInvalidArgument() const { return c == kInvalidArgument; } Code code() const { return c; } std::string ToString() const { return ""; } int subcode() const { return 0; } int severity() const { return 0; } };
enum CompressionType { kNoCompression, kSnappyCompression, kLZ4Compression, kZSTD }; enum CompactionPri { kByCompensatedSize, kOldestLargestSeqFirst, kOldestSmallestSeqFirst, kMinOverlappingRatio, kRoundRobin }; enum BottommostLevelCompaction { kSkip, kForce, kForceOptimized, kIfHaveCompactionFilter }; enum PerfLevel { kUninitialized, kDisable, kEnableCount, kEnableTimeExceptForMutex, kEnableTimeAndCPUTimeExceptForMutex, kEnableTime }; enum InfoLogLevel { DEBUG_LEVEL, INFO_LEVEL, WARN_LEVEL, ERROR_LEVEL, FATAL_LEVEL }; enum class WALRecoveryMode { kTolerateCorruptedTailRecords, kAbsoluteConsistency, kPointInTimeRecovery, kSkipAnyCorruptedRecords }; enum CompactionStyle { kCompactionStyleLevel, kCompactionStyleUniversal }; enum ChecksumType { kNoChecksum, kCRC32c, kxxHash };
class SliceTransform { public: virtual ~SliceTransform() {} virtual const char* Name() const = 0; virtual Slice Transform(const Slice&) const = 0; virtual bool InDomain(const Slice&) const = 0; virtual bool InRange(const Slice&) const { return false; } virtual bool SameResultWhenAppended(const Slice&) const { return false; } }; inline const SliceTransform* NewCappedPrefixTransform(size_t) { return nullptr; } inline const SliceTransform* NewFixedPrefixTransform(size_t) { return nullptr; }
class Cache { public: virtual ~Cache() {} size_t GetUsage() const { return 0; } size_t GetCapacity() const { return 0; } size_t GetPinnedUsage() const { return 0; } void SetCapacity(size_t) {} }; template <class... A> std::shared_ptr<Cache> NewLRUCache(A...) { return std::make_shared<Cache>(); } class FilterPolicy {}; template <class... A> const FilterPolicy* NewBloomFilterPolicy(A...) { return nullptr; } template <class... A> const FilterPolicy* NewRibbonFilterPolicy(A...) { return nullptr; } class RateLimiter {}; template <class... A> RateLimiter* NewGenericRateLimiter(A...) { return nullptr; } class TableFactory {}; struct BlockBasedTableOptions { enum IndexType { kBinarySearch, kHashSearch, kTwoLevelIndexSearch }; enum DataBlockIndexType { kDataBlockBinarySearch, kDataBlockBinaryAndHash }; IndexType index_type = kBinarySearch; DataBlockIndexType data_block_index_type = kDataBlockBinarySearch; double data_block_hash_table_util_ratio = 0.75; std::shared_ptr<Cache> block_cache, block_cache_compressed; std::shared_ptr<const FilterPolicy> filter_policy; size_t block_size = 4096, metadata_block_size = 4096; bool partition_filters = false, cache_index_and_filter_blocks = false, pin_l0_filter_and_index_blocks_in_cache = false, cache_index_and_filter_blocks_with_high_priority = false, whole_key_filtering = true, pin_top_level_index_and_filter = true, optimize_filters_for_memory = false, no_block_cache = false, enable_index_compression = true; int block_restart_interval = 16, index_block_restart_interval = 1; uint32_t format_version = 5; ChecksumType checksum = kCRC32c; }; inline TableFactory* NewBlockBasedTableFactory(const BlockBasedTableOptions&) { return nullptr; }
class EventListener { public: virtual ~EventListener() {} }; class Statistics { public: std::string ToString() const { return ""; } void Reset() {} void set_stats_level(int) {} }; inline std::shared_ptr<Statistics> CreateDBStatistics() { return std::make_shared<Statistics>(); } class Env { public: static Env* Default() { static Env e; return &e; } enum Priority { BOTTOM, LOW, HIGH }; void SetBackgroundThreads(int, Priority = LOW) {} }; class Comparator {}; class CompactionFilterFactory {}; class MergeOperator {}; class WriteBufferManager {}; class Logger {};
struct AdvancedColumnFamilyOptions {}; struct CompressionOptions {}; struct ColumnFamilyOptions { CompressionOptions bottommost_compression_opts; size_t write_buffer_size = 0, arena_block_size = 0; int max_write_buffer_number = 2, min_write_buffer_number_to_merge = 1, num_levels = 7, level0_file_num_compaction_trigger = 4, level0_slowdown_writes_trigger = 20, level0_stop_writes_trigger = 36, target_file_size_multiplier = 1; uint64_t target_file_size_base = 0, max_bytes_for_level_base = 0, max_compaction_bytes = 0, soft_pending_compaction_bytes_limit = 0, hard_pending_compaction_bytes_limit = 0, ttl = 0, periodic_compaction_seconds = 0; double max_bytes_for_level_multiplier = 10, memtable_prefix_bloom_size_ratio = 0; bool memtable_whole_key_filtering = false, optimize_filters_for_hits = false, level_compaction_dynamic_level_bytes = false, disable_auto_compactions = false, paranoid_file_checks = false, report_bg_io_stats = false; CompressionType compression = kNoCompression, bottommost_compression = kNoCompression; std::vector<CompressionType> compression_per_level; std::shared_ptr<const SliceTransform> prefix_extractor; std::shared_ptr<TableFactory> table_factory; CompactionPri compaction_pri = kMinOverlappingRatio; std::shared_ptr<CompactionFilterFactory> compaction_filter_factory; std::shared_ptr<MergeOperator> merge_operator; const Comparator* comparator = nullptr; size_t max_successive_merges = 0; int64_t max_write_buffer_size_to_maintain = 0; CompactionStyle compaction_style = kCompactionStyleLevel; bool enable_blob_files = false; uint64_t min_blob_size = 0; };
struct DBOptions { bool create_if_missing = false, create_missing_column_families = false, error_if_exists = false, use_fsync = false, enable_pipelined_write = false, allow_mmap_reads = false, use_direct_reads = false, use_direct_io_for_flush_and_compaction = false, unordered_write = false, two_write_queues = false, allow_concurrent_memtable_write = true, manual_wal_flush = false, atomic_flush = false, avoid_flush_during_shutdown = false; int max_background_jobs = 2, max_subcompactions = 1, max_open_files = -1, max_background_compactions = -1, max_background_flushes = -1; unsigned stats_dump_period_sec = 0; uint64_t max_total_wal_size = 0, bytes_per_sync = 0, wal_bytes_per_sync = 0, delayed_write_rate = 0, WAL_ttl_seconds = 0, WAL_size_limit_MB = 0; size_t keep_log_file_num = 1000, max_log_file_size = 0, db_write_buffer_size = 0, compaction_readahead_size = 0, recycle_log_file_num = 0; std::shared_ptr<RateLimiter> rate_limiter; std::vector<std::shared_ptr<EventListener>> listeners; std::shared_ptr<Statistics> statistics; InfoLogLevel info_log_level = INFO_LEVEL; WALRecoveryMode wal_recovery_mode = WALRecoveryMode::kPointInTimeRecovery; Env* env = nullptr; void IncreaseParallelism(int = 16) {} std::string wal_dir, db_log_dir; };
struct Options : DBOptions, ColumnFamilyOptions { Options() {} Options(const DBOptions&, const ColumnFamilyOptions&) {} };
class Snapshot; struct ReadOptions { const Snapshot* snapshot = nullptr; const Slice* iterate_lower_bound = nullptr; const Slice* iterate_upper_bound = nullptr; bool fill_cache = true, total_order_seek = false, auto_prefix_mode = false, prefix_same_as_start = false, verify_checksums = true, async_io = false, adaptive_readahead = false, pin_data = false, tailing = false; size_t readahead_size = 0; }; struct WriteOptions { bool sync = false, disableWAL = false, no_slowdown = false, low_pri = false; }; struct FlushOptions { bool wait = true, allow_write_stall = false; }; struct CompactRangeOptions { bool exclusive_manual_compaction = true, change_level = false, allow_write_stall = false; int target_level = -1; uint32_t max_subcompactions = 0; BottommostLevelCompaction bottommost_level_compaction = kIfHaveCompactionFilter; }; struct IngestExternalFileOptions { bool move_files = false, snapshot_consistency = true, allow_global_seqno = true, allow_blocking_flush = true, ingest_behind = false, write_global_seqno = false, verify_checksums_before_ingest = false, failed_move_fall_back_to_copy = true, fail_if_not_bottommost_level = false; }; struct EnvOptions {}; struct SizeApproximationOptions { bool include_memtables = false, include_files = true; double files_size_error_margin = -1; }; struct ExportImportFilesMetaData {}; struct LiveFileMetaData { int level = 0; std::string column_family_name, name, db_path, smallestkey, largestkey, directory, relative_filename; uint64_t size = 0; std::string file_checksum; }; typedef LiveFileMetaData SstFileMetaData; struct LevelMetaData { int level = 0; std::vector<SstFileMetaData> files; }; struct ColumnFamilyMetaData { uint64_t size = 0; std::vector<LevelMetaData> levels; std::string name; };
struct ColumnFamilyDescriptor { std::string name; ColumnFamilyOptions options; ColumnFamilyDescriptor() {} ColumnFamilyDescriptor(const std::string& n, const ColumnFamilyOptions& o) : name(n), options(o) {} }; class ColumnFamilyHandle { public: std::string name; std::map<std::string, std::string> m; ColumnFamilyHandle(const std::string& n) : name(n) {} virtual ~ColumnFamilyHandle() {} const std::string& GetName() const { return name; } uint32_t GetID() const { return 0; } }; struct Range { Slice start, limit; Range() {} Range(const Slice& a, const Slice& b) : start(a), limit(b) {} }; struct RangePtr { const Slice *start, *limit; };
extern const std::string kDefaultColumnFamilyName;
class Snapshot { public: virtual ~Snapshot() {} std::map<const ColumnFamilyHandle*, std::map<std::string, std::string>> s; uint64_t GetSequenceNumber() const { return 0; } };
class Iterator { public: virtual ~Iterator() {} virtual bool Valid() const = 0; virtual void SeekToFirst() = 0; virtual void SeekToLast() = 0; virtual void Seek(const Slice&) = 0; virtual void SeekForPrev(const Slice&) = 0; virtual void Next() = 0; virtual void Prev() = 0; virtual Slice key() const = 0; virtual Slice value() const = 0; virtual Status status() const = 0; };
class WriteBatch { public: struct Op { int k; ColumnFamilyHandle* h; std::string a, b; }; std::vector<Op> ops; virtual ~WriteBatch() {} Status Put(ColumnFamilyHandle* h, const Slice& k, const Slice& v) { ops.push_back({0, h, k.ToString(), v.ToString()}); return {}; } Status Put(const Slice& k, const Slice& v) { return Put(nullptr, k, v); } Status Delete(ColumnFamilyHandle* h, const Slice& k) { ops.push_back({1, h, k.ToString(), ""}); return {}; } Status Delete(const Slice& k) { return Delete(nullptr, k); } Status SingleDelete(ColumnFamilyHandle* h, const Slice& k) { return Delete(h, k); } Status DeleteRange(ColumnFamilyHandle* h, const Slice& a, const Slice& b) { ops.push_back({2, h, a.ToString(), b.ToString()}); return {}; } Status DeleteRange(const Slice& a, const Slice& b) { return DeleteRange(nullptr, a, b); } void Clear() { ops.clear(); } size_t Count() const { return ops.size(); } size_t GetDataSize() const { return 0; } };
class DB { public: std::vector<ColumnFamilyHandle*> cfs; virtual ~DB() {} ColumnFamilyHandle* def(ColumnFamilyHandle* h) { return h ? h : cfs[0]; } ColumnFamilyHandle* DefaultColumnFamily() const { return cfs[0]; }
  virtual Status Write(const WriteOptions&, WriteBatch* b);
  Status Put(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& k, const Slice& v) { WriteBatch b; b.Put(h, k, v); return Write(o, &b); } Status Put(const WriteOptions& o, const Slice& k, const Slice& v) { return Put(o, nullptr, k, v); } Status Delete(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& k) { WriteBatch b; b.Delete(h, k); return Write(o, &b); } Status Delete(const WriteOptions& o, const Slice& k) { return Delete(o, nullptr, k); } Status DeleteRange(const WriteOptions& o, ColumnFamilyHandle* h, const Slice& k, const Slice& e) { WriteBatch b; b.DeleteRange(h, k, e); return Write(o, &b); }
  Status Get(const ReadOptions& o, ColumnFamilyHandle* h, const Slice& k, std::string* v); Status Get(const ReadOptions& o, ColumnFamilyHandle* h, const Slice& k, PinnableSlice* v) { Status s = Get(o, h, k, v->GetSelf()); v->PinSelf(); return s; } Status Get(const ReadOptions& o, const Slice& k, std::string* v) { return Get(o, cfs[0], k, v); } Iterator* NewIterator(const ReadOptions& o, ColumnFamilyHandle* h); Iterator* NewIterator(const ReadOptions& o) { return NewIterator(o, cfs[0]); } const Snapshot* GetSnapshot(); void ReleaseSnapshot(const Snapshot*);
  Status DropColumnFamilies(const std::vector<ColumnFamilyHandle*>&) { return {}; } Status DeleteRange(const WriteOptions& o, const Slice& k, const Slice& e) { return DeleteRange(o, nullptr, k, e); } template <class... A> Status GetApproximateSizes(const SizeApproximationOptions&, ColumnFamilyHandle*, Range*, int n, uint64_t* s) { for (int i = 0; i < n; ++i) s[i] = 0; return {}; }
  template <class... A> Status Flush(const A&...) { return {}; } template <class... A> Status CompactRange(const A&...) { return {}; } template <class... A> Status GetApproximateSizes(const A&...) { return {}; } template <class... A> Status IngestExternalFile(const A&...) { return {}; } Status Close() { return {}; } template <class... A> bool GetProperty(const A&...) { return false; } template <class... A> bool GetIntProperty(const A&...) { return false; } template <class... A> bool GetAggregatedIntProperty(const A&...) { return false; } template <class... A> bool GetMapProperty(const A&...) { return false; } Status FlushWAL(bool) { return {}; } Status SyncWAL(); Status DestroyColumnFamilyHandle(ColumnFamilyHandle*) { return {}; } Status DropColumnFamily(ColumnFamilyHandle*) { return {}; } template <class... A> Status CreateColumnFamily(const A&...) { return {}; } Options GetOptions() const { return {}; } Options GetOptions(ColumnFamilyHandle*) const { return {}; } void GetLiveFilesMetaData(std::vector<LiveFileMetaData>*) {} template <class... A> void GetColumnFamilyMetaData(const A&...) {} Env* GetEnv() const { return Env::Default(); } uint64_t GetLatestSequenceNumber() const { return 0; } Status DisableFileDeletions() { return {}; } Status EnableFileDeletions(bool = true) { return {}; } template <class... A> Status SetOptions(const A&...) { return {}; } template <class... A> Status SuggestCompactRange(const A&...) { return {}; }
  static Status Open(const DBOptions& o, const std::string& n, const std::vector<ColumnFamilyDescriptor>& d, std::vector<ColumnFamilyHandle*>* hs, DB** db); static Status Open(const Options& o, const std::string& n, DB** db); static Status ListColumnFamilies(const DBOptions&, const std::string&, std::vector<std::string>*) { return {}; } static Status OpenForReadOnly(const DBOptions& o, const std::string& n, const std::vector<ColumnFamilyDescriptor>& d, std::vector<ColumnFamilyHandle*>* hs, DB** db) { return Open(o, n, d, hs, db); } };
template <class... A> Status RepairDB(const A&...) { return {}; } template <class... A> Status DestroyDB(const A&...) { return {}; } template <class... A> Status DeleteFilesInRange(const A&...) { return {}; } template <class... A> Status DeleteFilesInRanges(const A&...) { return {}; } template <class... A> void CancelAllBackgroundWork(const A&...) {}
struct ExternalSstFileInfo { std::string file_path, smallest_key, largest_key; uint64_t file_size = 0, num_entries = 0; }; class SstFileWriter { public: template <class... A> SstFileWriter(const A&...) {} Status Open(const std::string&) { return {}; } Status Put(const Slice&, const Slice&) { return {}; } Status Delete(const Slice&) { return {}; } Status Add(const Slice&, const Slice&) { return {}; } Status Finish(ExternalSstFileInfo* = nullptr) { return {}; } uint64_t FileSize() { return 0; } }; class SstFileReader { public: SstFileReader(const Options&) {} Status Open(const std::string&) { return {}; } Iterator* NewIterator(const ReadOptions&) { return nullptr; } Status VerifyChecksum() { return {}; } }; class Checkpoint { public: virtual ~Checkpoint() {} static Status Create(DB*, Checkpoint**) { return {}; } template <class... A> Status CreateCheckpoint(const A&...) { return {}; } template <class... A> Status ExportColumnFamily(const A&...) { return {}; } };
inline void SetPerfLevel(PerfLevel) {} struct PerfContext { uint64_t internal_delete_skipped_count = 0, internal_key_skipped_count = 0, block_read_count = 0, block_cache_hit_count = 0, block_read_byte = 0, block_read_time = 0, block_decompress_time = 0, user_key_comparison_count = 0, seek_internal_seek_time = 0, find_next_user_entry_time = 0; void Reset() {} std::string ToString(bool = false) const { return ""; } void EnablePerLevelPerfContext() {} }; inline PerfContext* get_perf_context() { static PerfContext p; return &p; } struct IOStatsContext { void Reset() {} std::string ToString(bool = false) const { return ""; } }; inline IOStatsContext* get_iostats_context() { static IOStatsContext p; return &p; }
enum class BackgroundErrorReason { kFlush, kCompaction, kWriteCallback, kMemTable }; struct FlushJobInfo { std::string cf_name, file_path; uint64_t file_number = 0; bool triggered_writes_slowdown = false, triggered_writes_stop = false; int flush_reason = 0; uint64_t smallest_seqno = 0, largest_seqno = 0; }; struct CompactionJobInfo { std::string cf_name; Status status; int base_input_level = 0, output_level = 0; std::vector<std::string> input_files, output_files; int compaction_reason = 0; }; struct TableFileDeletionInfo {}; struct TableFileCreationInfo {}; struct WriteStallInfo {}; struct MemTableInfo {}; struct SubcompactionJobInfo {};
}

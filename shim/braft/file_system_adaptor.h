#pragma once
#include "braft/raft.h"
#include "google/protobuf/shim_pb.h"
#include "butil/iobuf.h"
#include <dirent.h>
#include "butil/files/file.h"
#include "butil/files/dir_reader_posix.h"
namespace braft {
struct FileAdaptor { virtual ~FileAdaptor() {} 
  virtual ssize_t write(const butil::IOBuf&, off_t) { return -1; }
  virtual ssize_t read(butil::IOPortal*, off_t, size_t) { return -1; }
  virtual ssize_t size() { return 0; }
  virtual bool sync() { return true; }
  virtual bool close() { return true; } };
struct DirReader { virtual ~DirReader() {} virtual bool is_valid() const { return false; } virtual bool next() { return false; } virtual const char* name() const { return ""; } };
struct FileSystemAdaptor : public butil::RefCountedThreadSafe<FileSystemAdaptor> { virtual ~FileSystemAdaptor() {}
  virtual FileAdaptor* open(const std::string&, int, const ::google::protobuf::Message*, butil::File::Error*) { return nullptr; } virtual bool delete_file(const std::string&, bool) { return false; } virtual bool rename(const std::string&, const std::string&) { return false; } virtual bool link(const std::string&, const std::string&) { return false; } virtual bool create_directory(const std::string&, butil::File::Error*, bool) { return false; } virtual bool path_exists(const std::string&) { return false; } virtual bool directory_exists(const std::string&) { return false; } virtual DirReader* directory_reader(const std::string&) { return nullptr; }
  virtual bool open_snapshot(const std::string&) { return true; }
  virtual void close_snapshot(const std::string&) {} };
struct PosixFileSystemAdaptor : FileSystemAdaptor {};
struct PosixDirReader : DirReader { PosixDirReader(const std::string&) {} };
ssize_t file_pread(butil::IOPortal* portal, int fd, off_t offset, size_t size);
ssize_t file_pwrite(const butil::IOBuf& data, int fd, off_t offset);
int raft_fsync(int fd);
inline int file_error_to_os_error(butil::File::Error) { return 5; } inline bool create_sub_directory(const std::string&, const std::string&, FileSystemAdaptor* = nullptr, butil::File::Error* = nullptr) { return true; } inline FileSystemAdaptor* default_file_system() { static FileSystemAdaptor f; return &f; }
}

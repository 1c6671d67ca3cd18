#pragma once
#include "braft/file_system_adaptor.h"
namespace braft {
// The file behind a ProtoBufFile is a harness-owned slot keyed by path.
extern "C" int shim_pbfile_save(const char* path, const void* msg);
extern "C" int shim_pbfile_load(const char* path, void* msg);
struct ProtoBufFile { std::string path_; explicit ProtoBufFile(const char* p, FileSystemAdaptor* = nullptr) : path_(p) {} explicit ProtoBufFile(const std::string& p, FileSystemAdaptor* = nullptr) : path_(p) {}
  template <class M> int save(const M* m, bool) { return shim_pbfile_save(path_.c_str(), m); }
  template <class M> int load(M* m) { return shim_pbfile_load(path_.c_str(), m); } };
}

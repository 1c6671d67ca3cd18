#pragma once
namespace butil { extern "C" const char* shim_readdir(void** st); extern "C" void* shim_opendir(const char*);
struct DirReaderPosix { void* st_; const char* n_ = nullptr; explicit DirReaderPosix(const char* p) { st_ = shim_opendir(p); } bool IsValid() const { return st_ != nullptr; } bool Next() { n_ = shim_readdir(&st_); return n_ != nullptr; } const char* name() { return n_; } int fd() const { return -1; } }; }

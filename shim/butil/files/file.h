#pragma once
#include <string>
namespace butil { struct File { enum Error { FILE_OK = 0, FILE_ERROR_FAILED = -1, FILE_ERROR_IN_USE = -2, FILE_ERROR_EXISTS = -3, FILE_ERROR_NOT_FOUND = -4, FILE_ERROR_ACCESS_DENIED = -5, FILE_ERROR_TOO_MANY_OPENED = -6, FILE_ERROR_NO_MEMORY = -7, FILE_ERROR_NO_SPACE = -8, FILE_ERROR_NOT_A_DIRECTORY = -9, FILE_ERROR_INVALID_OPERATION = -10, FILE_ERROR_SECURITY = -11, FILE_ERROR_ABORT = -12, FILE_ERROR_NOT_A_FILE = -13, FILE_ERROR_NOT_EMPTY = -14, FILE_ERROR_INVALID_URL = -15, FILE_ERROR_IO = -16 }; static Error OSErrorToFileError(int) { return FILE_ERROR_FAILED; } };
struct FilePath { std::string p; explicit FilePath(const std::string& s) : p(s) {} const std::string& value() const { return p; } };
extern "C" int shim_mkdirs(const char*); extern "C" int shim_path_exists(const char*); extern "C" int shim_rm(const char*);
inline bool CreateDirectory(const FilePath& f) { return shim_mkdirs(f.p.c_str()) == 0; } inline bool CreateDirectoryAndGetError(const FilePath& f, File::Error* e, bool = true) { if (e) *e = File::FILE_OK; return shim_mkdirs(f.p.c_str()) == 0; } inline bool PathExists(const FilePath& f) { return shim_path_exists(f.p.c_str()); } inline bool DirectoryExists(const FilePath& f) { return shim_path_exists(f.p.c_str()); } inline bool DeleteFile(const FilePath& f, bool) { return shim_rm(f.p.c_str()) == 0; } template <class... A> bool ReplaceFile(const A&...) { return true; } template <class... A> bool CreateHardLink(const A&...) { return true; } inline std::string FileErrorToString(File::Error) { return ""; } }

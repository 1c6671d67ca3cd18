#pragma once
#include <cstdint>
#include <cstring>
#include <arpa/inet.h>
namespace butil {
class RawPacker { char* p; public: explicit RawPacker(void* s) : p((char*)s) {} RawPacker& pack32(uint32_t v) { v = htonl(v); memcpy(p, &v, 4); p += 4; return *this; } RawPacker& pack64(uint64_t v) { pack32(v >> 32); return pack32((uint32_t)v); } };
class RawUnpacker { const char* p; public: explicit RawUnpacker(const void* s) : p((const char*)s) {} RawUnpacker& unpack32(uint32_t& v) { memcpy(&v, p, 4); v = ntohl(v); p += 4; return *this; } RawUnpacker& unpack64(uint64_t& v) { uint32_t a, b; unpack32(a); unpack32(b); v = ((uint64_t)a << 32) | b; return *this; } };
}

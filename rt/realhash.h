// std::hash<std::string> exactly as libstdc++ computes it (the engine's default hash is only the length, which keeps symbolic strings cheap).
#pragma once
#include <cstddef>
#include <cstring>
#include <cstdint>
namespace std { size_t _Hash_bytes(const void* ptr, size_t len, size_t seed) {
  const size_t mul = 0xc6a4a7935bd1e995ULL; auto mix = [](size_t v) { return v ^ (v >> 47); }; const unsigned char* b = (const unsigned char*)ptr; size_t al = len & ~(size_t)7, h = seed ^ (len * mul);
  for (size_t i = 0; i < al; i += 8) { size_t d = 0; for (int j = 7; j >= 0; --j) d = (d << 8) + b[i + j]; d = mix(d * mul) * mul; h ^= d; h *= mul; }
  if (len & 7) { size_t d = 0; for (int j = (int)(len & 7) - 1; j >= 0; --j) d = (d << 8) + b[al + j]; h ^= d; h *= mul; }
  h = mix(h) * mul; return mix(h); } }

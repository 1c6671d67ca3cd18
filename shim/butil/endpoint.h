#pragma once
#include <cstdint>
#include <cstring>
#include <ostream>
#include <string>
#include <netinet/in.h>
#include <arpa/inet.h>
inline bool operator==(in_addr a, in_addr b) { return a.s_addr == b.s_addr; } inline bool operator!=(in_addr a, in_addr b) { return a.s_addr != b.s_addr; } inline bool operator<(in_addr a, in_addr b) { return a.s_addr < b.s_addr; }
namespace butil {
typedef struct in_addr ip_t; static const ip_t IP_ANY = {INADDR_ANY}; static const ip_t IP_NONE = {INADDR_NONE};
struct EndPoint { ip_t ip; int port; EndPoint() { ip.s_addr = 0; port = 0; } EndPoint(ip_t i, int p) : ip(i), port(p) {} void reset() { ip.s_addr = 0; port = 0; } };
inline bool operator==(const EndPoint& a, const EndPoint& b) { return a.ip.s_addr == b.ip.s_addr && a.port == b.port; } inline bool operator!=(const EndPoint& a, const EndPoint& b) { return !(a == b); } inline bool operator<(const EndPoint& a, const EndPoint& b) { return a.ip.s_addr != b.ip.s_addr ? a.ip.s_addr < b.ip.s_addr : a.port < b.port; }
struct Cstr { char b[64]; const char* c_str() const { return b; } operator const char*() const { return b; } };
inline std::ostream& operator<<(std::ostream& o, const Cstr&) { return o; } inline std::ostream& operator<<(std::ostream& o, const EndPoint&) { return o; }
inline Cstr shim_ip(ip_t ip) { Cstr c; unsigned a = ip.s_addr; char* p = c.b; for (int i = 0; i < 4; i++) { unsigned v = (a >> (8 * i)) & 255; if (v >= 100) *p++ = '0' + v / 100; if (v >= 10) *p++ = '0' + v / 10 % 10; *p++ = '0' + v % 10; if (i < 3) *p++ = '.'; } *p = 0; return c; }
inline int ip2hostname(ip_t, std::string* h) { h->clear(); return 0; } inline Cstr ip2str(ip_t ip) { return shim_ip(ip); }
inline Cstr endpoint2str(const EndPoint& e) { Cstr c = shim_ip(e.ip); size_t n = strlen(c.b); c.b[n++] = ':'; char t[12]; int k = 0; unsigned v = e.port; do { t[k++] = '0' + v % 10; v /= 10; } while (v); while (k) c.b[n++] = t[--k]; c.b[n] = 0; return c; }
inline int str2ip(const char* s, ip_t* ip) { unsigned r = 0; for (int i = 0; i < 4; i++) { if (*s < '0' || *s > '9') return -1; unsigned v = 0; while (*s >= '0' && *s <= '9') v = v * 10 + (*s++ - '0'); if (v > 255) return -1; r |= v << (8 * i); if (i < 3 && *s++ != '.') return -1; } if (*s && *s != ':') return -1; ip->s_addr = r; return 0; }
inline int str2endpoint(const char* s, int port, EndPoint* e) { if (str2ip(s, &e->ip)) return -1; e->port = port; return 0; }
inline int str2endpoint(const char* s, EndPoint* e) { const char* c = strchr(s, ':'); if (!c || str2ip(s, &e->ip)) return -1; c++; int p = 0; if (!*c) return -1; while (*c >= '0' && *c <= '9') p = p * 10 + (*c++ - '0'); if (*c || p > 65535) return -1; e->port = p; return 0; }
inline int hostname2endpoint(const char* s, int port, EndPoint* e) { return str2endpoint(s, port, e); } inline int hostname2endpoint(const char* s, EndPoint* e) { return str2endpoint(s, e); } inline int hostname2ip(const char* s, ip_t* ip) { return str2ip(s, ip); } inline ip_t int2ip(uint32_t v) { ip_t i; i.s_addr = htonl(v); return i; } inline uint32_t ip2int(ip_t i) { return ntohl(i.s_addr); } inline ip_t my_ip() { return IP_ANY; } inline const char* my_hostname() { return ""; } inline const char* my_ip_cstr() { return ""; } inline int endpoint2hostname(const EndPoint&, std::string*) { return -1; }
}
namespace std { template <> struct hash<butil::EndPoint> { size_t operator()(const butil::EndPoint& e) const { return e.port; } }; }

#pragma once
#include <cstdint>
#include <string>
#include "google/protobuf/shim_pb.h"
#include "butil/endpoint.h"
#include "butil/iobuf.h"
#include "butil/time.h"
#include "butil/status.h"
#include "bthread/bthread.h"
#include "butil/logging.h"
namespace brpc {
typedef uint64_t CallId; inline void Join(CallId) {} inline void StartCancel(CallId) {}
enum Errno { ENOSERVICE = 1001, ENOMETHOD, EREQUEST, ERPCAUTH, ETOOMANYFAILS, EPCHANFINISH, EBACKUPREQUEST, ERPCTIMEDOUT, EFAILEDSOCKET, EHTTP, EOVERCROWDED, EINTERNAL = 2001, ERESPONSE, ELOGOFF, ELIMIT };
class ProgressiveAttachmentX {}; class HttpHeader { std::string h; public: const std::string* GetHeader(const std::string&) const { return nullptr; } void SetHeader(const std::string&, const std::string&) {} void set_content_type(const std::string&) {} void AppendHeader(const std::string&, const std::string&) {} struct URI { const std::string* GetQuery(const char*) const { return nullptr; } void operator=(const std::string&) {} } u; URI& uri() { return u; } const std::string& unresolved_path() const { return h; } void set_status_code(int) {} void set_method(int) {} int status_code() const { return 200; } };
enum HttpMethodX { HTTP_METHOD_GET, HTTP_METHOD_POST };
class Server;
class Controller : public google::protobuf::RpcController { int e = 0; butil::IOBuf ra, rb; HttpHeader hh; bool cancel_ = false;
 public: bool Failed() const override { return e != 0; } void SetFailed(const std::string&) override { e = -1; } template <class... A> void SetFailed(int c, const char*, A...) { e = c; } int ErrorCode() const { return e; } std::string ErrorText() const override { return ""; } butil::IOBuf& request_attachment() { return ra; } butil::IOBuf& response_attachment() { return rb; } butil::EndPoint remote_side() const { return {}; } butil::EndPoint local_side() const { return {}; } bool has_log_id() const { return false; } uint64_t log_id() const { return 0; } void set_log_id(uint64_t) {} void set_timeout_ms(int64_t) {} int64_t timeout_ms() const { return 0; } void set_max_retry(int) {} void set_connection_type(int) {} int64_t latency_us() const { return 0; } CallId call_id() { return 0; } void Reset() override { e = 0; } HttpHeader& http_request() { return hh; } HttpHeader& http_response() { return hh; } bool IsCanceled() const override { return false; } std::string method_x; void set_request_compress_type(int) {} void set_response_compress_type(int) {} void ignore_eovercrowded() {} int retried_count() const { return 0; } const Server* server() const { return nullptr; } template <class T> void set_after_rpc_resp_fn(T) {} google::protobuf::Service* service() { return nullptr; } bool has_x() { return false; } };
extern "C" void shim_rpc(void* channel, void* controller, const void* request, void* response);   // what a remote call answers; see the harness
class Channel; struct ChannelOptions { int64_t timeout_ms = 500, connect_timeout_ms = 200, backup_request_ms = -1; int max_retry = 3; std::string protocol, connection_type; const char* connection_group = ""; };
class Channel : public google::protobuf::RpcChannel { public: template <class... A> int Init(A...) { return -1; } template <class Q, class R, class D> void CallMethod(const google::protobuf::MethodDescriptor*, Controller* c, const Q* q, R* r, D) { shim_rpc(this, c, q, r); } };
}

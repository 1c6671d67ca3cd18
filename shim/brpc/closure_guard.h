#pragma once
#include "google/protobuf/shim_pb.h"
namespace brpc { class ClosureGuard { google::protobuf::Closure* d = nullptr; public: ClosureGuard() {} explicit ClosureGuard(google::protobuf::Closure* d) : d(d) {} ~ClosureGuard() { if (d) d->Run(); } void reset(google::protobuf::Closure* x) { if (d) d->Run(); d = x; } google::protobuf::Closure* release() { auto* x = d; d = nullptr; return x; } bool empty() const { return !d; } };
template <class... A> google::protobuf::Closure* NewCallback(A... a) { return google::protobuf::NewCallback(a...); } }

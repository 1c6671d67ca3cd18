#pragma once
#include "brpc/controller.h"
#include "brpc/closure_guard.h"
namespace brpc { enum ServiceOwnership { SERVER_OWNS_SERVICE, SERVER_DOESNT_OWN_SERVICE }; struct ServerOptions { int num_threads = 0, idle_timeout_sec = 0; std::string pid_file; bool has_builtin_services = true; int max_concurrency = 0; }; class Server { public: template <class... A> int AddService(A&&...) { return 0; } template <class... A> int Start(A&&...) { return 0; } int Stop(int) { return 0; } int Join() { return 0; } void RunUntilAskedToQuit() {} butil::EndPoint listen_address() const { return {}; } bool IsRunning() const { return true; } }; inline bool IsAskedToQuit() { return false; } inline void AskToQuit() {} }

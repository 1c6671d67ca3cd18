#pragma once
namespace butil { inline int make_close_on_exec(int) { return 0; } inline int make_non_blocking(int) { return 0; } }

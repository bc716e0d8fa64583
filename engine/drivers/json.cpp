#include "zoo.hpp"
using namespace eosio;
#define OUT(n, ...) \
   extern "C" void sa_json_##n(const __VA_ARGS__& o, vector_stream& s) { to_json(o, s); } \
   extern "C" void sa_pretty_##n(const __VA_ARGS__& o, std::string& s) { s = format_json(o); }
ZOO_BUILTIN(OUT) ZOO_CHAIN(OUT) ZOO_COMP(OUT) ZOO_ABI(OUT) ZOO_SHIP(OUT)
extern "C" void sa_text(const char* d, std::size_t n, vector_stream& s) { to_json(std::string_view(d, n), s); }
extern "C" void sa_hex(const char* d, std::size_t n, vector_stream& s) { to_json_hex(d, n, s); }

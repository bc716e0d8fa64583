#include "zoo.hpp"
using namespace eosio;
namespace eosio { struct sa_text { std::string_view s; std::string_view get_string() { return s; } }; }
#define K(n, ...) \
   extern "C" void sa_key_in_##n(const char* p, size_t n_, __VA_ARGS__& r) { sa_text t{ { p, n_ } }; from_json(r, t); } \
   extern "C" void sa_key_out_##n(const __VA_ARGS__& k, std::string& r) { r = n##_to_string(k); } \
   extern "C" size_t sa_key_index_##n(const __VA_ARGS__& k) { return k.index(); }
K(public_key, public_key) K(private_key, private_key) K(signature, signature)
extern "C" size_t sa_key_wa_rpid(const public_key& k) { return std::get<2>(k).rpid.size(); }

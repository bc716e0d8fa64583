// typed JSON readers with the parser left undefined
#define ABIEOS_SHIM_DECL_ONLY
#include "zoo.hpp"
using namespace eosio;
#define JSON_IN(n, ...) extern "C" void sa_from_json_##n(__VA_ARGS__& o, json_token_stream& s) { from_json(o, s); }
ZOO_BUILTIN(JSON_IN) ZOO_COMP(JSON_IN) ZOO_ABI(JSON_IN)
JSON_IN(abi_def, abi_def) JSON_IN(sv, std::string_view)
extern "C" void sa_skip_value(json_token_stream& s) { from_json_skip_value(s); }

#include "zoo.hpp"
using namespace eosio;
#define BIN(n, ...) \
   extern "C" void sa_from_bin_##n(__VA_ARGS__& o, input_stream& s) { from_bin(o, s); } \
   extern "C" void sa_convert_from_bin_##n(__VA_ARGS__& o, std::vector<char>& s) { convert_from_bin(o, s); } \
   extern "C" void sa_to_bin_size_##n(const __VA_ARGS__& o, size_stream& s) { to_bin(o, s); } \
   extern "C" void sa_to_bin_fixed_##n(const __VA_ARGS__& o, fixed_buf_stream& s) { to_bin(o, s); } \
   extern "C" void sa_to_bin_vec_##n(const __VA_ARGS__& o, vector_stream& s) { to_bin(o, s); } \
   extern "C" void sa_convert_to_bin_##n(const __VA_ARGS__& o, std::vector<char>& s) { convert_to_bin(o, s); }
#define JSON_OUT(n, ...) \
   extern "C" void sa_to_json_##n(const __VA_ARGS__& o, vector_stream& s) { to_json(o, s); } \
   extern "C" void sa_convert_to_json_##n(const __VA_ARGS__& o, std::string& s) { s = convert_to_json(o); }
#define JSON_IN(n, ...) \
   extern "C" void sa_from_json_##n(__VA_ARGS__& o, json_token_stream& s) { from_json(o, s); }
#define KEY(n, ...) \
   extern "C" void sa_to_key_##n(const __VA_ARGS__& o, vector_stream& s) { to_key(o, s); }
ZOO_BUILTIN(BIN) ZOO_BUILTIN(JSON_OUT) ZOO_BUILTIN(JSON_IN)
ZOO_CHAIN(BIN) ZOO_CHAIN(JSON_OUT)
ZOO_COMP(BIN) ZOO_COMP(JSON_OUT) ZOO_COMP(JSON_IN) ZOO_COMP(KEY)
ZOO_BIN(BIN) ZOO_BIN(KEY)
ZOO_ABI(BIN) ZOO_ABI(JSON_OUT) ZOO_ABI(JSON_IN)
BIN(sv, std::string_view) BIN(abi_def, abi_def) BIN(s_result, SP::result) JSON_IN(abi_def, abi_def)
ZOO_SHIP(BIN) ZOO_SHIP(JSON_OUT)
KEY(bool_, bool) KEY(u8, uint8_t) KEY(i32, int32_t) KEY(u64, uint64_t) KEY(f32, float) KEY(f64, double) KEY(str, std::string) KEY(name_, name) KEY(c256, checksum256) KEY(c160, checksum160)
KEY(pubkey, public_key) KEY(sym, symbol) KEY(asset_, asset) KEY(tp, time_point) KEY(vu32, varuint32) KEY(color, zoo::color) KEY(o_bool, std::optional<bool>) KEY(v_bool_str, std::vector<std::string>)
extern "C" void sa_opaque(opaque<std::vector<zoo::leaf>>& o, input_stream& s) { from_bin(o, s); o.unpack_size(); zoo::leaf l; o.unpack_next(l); o.unpack_next(); }
extern "C" void sa_opaque1(opaque<zoo::leaf>& o, vector_stream& s) { o.unpack(); to_bin(o, s); }

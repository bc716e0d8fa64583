#include "zoo.hpp"
#include <eosio/abieos_numeric.hpp>
using namespace eosio;
namespace eosio {
std::vector<char> from_base58(const std::string_view& s);
struct sa_text { std::string_view s; std::string_view get_string() { return s; } };
}
namespace abieos { struct sa_state { std::string_view s; std::string_view get_string() { return s; } std::vector<char> data; vector_stream writer{ data }; std::vector<int> stack; }; }
#define T(n, ...) extern "C" void sa_txt_##n(const char* p, size_t n_, __VA_ARGS__& r) { sa_text t{ { p, n_ } }; from_json(r, t); }
T(symcode, symbol_code) T(symbol, symbol) T(asset, asset) T(tp, time_point) T(tps, time_point_sec) T(bts, block_timestamp) T(f32, float) T(f64, double) T(bytes, bytes)
#define F(n, N) extern "C" void sa_txt_##n(const char* p, size_t n_, std::array<uint8_t, N>& r) { sa_text t{ { p, n_ } }; fixed_bytes<N> x; from_json(x, t); r = x.extract_as_byte_array(); }
F(c160, 20) F(c256, 32) F(c512, 64) F(f128, 16)
extern "C" void sa_txt_hexvec(const char* p, size_t n_, std::vector<char>& r) { sa_text t{ { p, n_ } }; from_json_hex(r, t); }
extern "C" bool sa_try_unhex(const char* p, size_t n_, char* r) { return eosio::unhex(r, p, p + n_); }
extern "C" bool sa_try_unhex2(const char* p, size_t n_, char* r, std::string& e) { return abieos::unhex(e, p, p + n_, r); }
extern "C" void sa_txt_jbytes(const char* p, size_t n_, std::vector<char>& r) { abieos::sa_state s{ { p, n_ } }; abieos::json_to_bin((bytes*)nullptr, s, false, nullptr, true); r = s.data; }
extern "C" void sa_txt_symcode_ctor(const char* p, size_t n_, symbol_code& r) { r = symbol_code(std::string_view(p, n_)); }
extern "C" void sa_txt_asset_fs(const char* p, size_t n_, asset& r) { convert_from_string(r, std::string_view(p, n_)); }
extern "C" void sa_txt_base58(const char* p, size_t n_, std::vector<char>& r) { r = from_base58(std::string_view(p, n_)); }
extern "C" void sa_txt_dec16(const char* p, size_t n_, std::array<uint8_t, 16>& r) { abieos::decimal_to_binary(r, std::string_view(p, n_)); }

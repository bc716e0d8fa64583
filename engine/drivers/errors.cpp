// error tables evaluated by the compiler: for k = 0..63 the enumerator's name (or "(type)k") and its message
#include "zoo.hpp"
#include <utility>
using namespace eosio;
struct ent { const char* nm; const char* msg; size_t len; };
template <auto E> constexpr const char* ename() { return __PRETTY_FUNCTION__; }
template <typename E, auto F, size_t... I> constexpr auto tab(std::index_sequence<I...>) {
   struct T { ent e[sizeof...(I)]; };
   return T{ { ent{ ename<(E)I>(), F((E)I).data(), F((E)I).size() }... } };
}
constexpr std::string_view json_f(from_json_error e) { return convert_json_error(e); }
constexpr std::string_view json_i(from_json_error e) { return convert_json_error((int)e); }
constexpr std::string_view stream_f(stream_error e) { return convert_stream_error(e); }
constexpr std::string_view abi_f(abi_error e) { return convert_abi_error(e); }
constexpr std::string_view rj_f(rapidjson::ParseErrorCode e) { return "x"; }
using seq = std::make_index_sequence<64>;
extern const constexpr auto sa_err_json = tab<from_json_error, json_f>(seq{});
extern const constexpr auto sa_err_jsoni = tab<from_json_error, json_i>(seq{});
extern const constexpr auto sa_err_stream = tab<stream_error, stream_f>(seq{});
extern const constexpr auto sa_err_abi = tab<abi_error, abi_f>(seq{});
extern const constexpr auto sa_err_rj = tab<rapidjson::ParseErrorCode, rj_f>(std::make_index_sequence<32>{});
extern "C" {
int sa_convert_error(int e) { return (int)convert_error((rapidjson::ParseErrorCode)e); }
void sa_convert_error_sv(int e, std::string_view& out) { out = convert_error_to_string_view((rapidjson::ParseErrorCode)e); }
// single conditions
void sa_e_overrun_read(input_stream& s, char* d, size_t n) { s.read(d, n); }
void sa_e_overrun_skip(input_stream& s, size_t n) { s.skip(n); }
void sa_e_overrun_reuse(input_stream& s, const char*& d, size_t n) { s.read_reuse_storage(d, n); }
void sa_e_overrun_check(input_stream& s, size_t n) { s.check_available(n); }
void sa_e_overrun_write(fixed_buf_stream& s, const void* d, size_t n) { s.write(d, n); }
void sa_e_overrun_write1(fixed_buf_stream& s, char c) { s.write(c); }
void sa_e_varu32(uint32_t& v, input_stream& s) { varuint32_from_bin(v, s); }
void sa_e_varu64(uint64_t& v, input_stream& s) { varuint64_from_bin(v, s); }
void sa_e_array(int (&v)[3], input_stream& s) { from_bin(v, s); }
void sa_e_variant(std::variant<uint8_t, uint64_t>& v, input_stream& s) { from_bin(v, s); }
uint64_t sa_e_name(const char* p, size_t n) { return string_to_name_strict(std::string_view(p, n)); }
}

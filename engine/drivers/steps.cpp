// the object / array / variant / optional / extension machines of the three ABI-driven conversions, one root per function
#include <atomic>
#include <deque>
#include <functional>
#include <sstream>
#define private public
#include <eosio/from_json.hpp>
#undef private
#include "abieos.hpp"
using namespace eosio;
#define OFF(T, m) (reinterpret_cast<size_t>(&reinterpret_cast<T*>(4096)->m) - 4096)
#define C(n, v) extern "C" size_t sa_c_##n() { return (v); }
C(type_name, OFF(abi_type, name)) C(type_data, OFF(abi_type, _data)) C(type_ser, OFF(abi_type, ser)) C(type_size, sizeof(abi_type))
C(field_size, sizeof(abi_field)) C(field_name, OFF(abi_field, name)) C(field_type, OFF(abi_field, type))
C(struct_fields, OFF(abi_type::struct_, fields))
C(jvalue_size, sizeof(abieos::jvalue)) C(jvalue_value, OFF(abieos::jvalue, value))
C(sizeof_jvalue_to_bin_stack_entry, sizeof(abieos::jvalue_to_bin_stack_entry)) C(sizeof_json_to_bin_stack_entry, sizeof(abieos::json_to_bin_stack_entry))
C(sizeof_bin_to_json_stack_entry, sizeof(abieos::bin_to_json_stack_entry)) C(sizeof_size_insertion, sizeof(abieos::size_insertion))
C(in_pos, OFF(input_stream, pos)) C(in_end, OFF(input_stream, end)) C(max_stack, abieos::max_stack_size)
C(jv_received, OFF(abieos::jvalue_to_bin_state, received_value))
static_assert(sizeof(vector_stream) == sizeof(void*), "a vector_stream is a reference to its vector");
C(writer_data, 0)
// construction of the variants, to learn their layout
using data_t = decltype(abi_type::_data);
using value_t = decltype(abieos::jvalue::value);
template <typename T, typename V> void mk(V& v) { new (&v) V(std::in_place_type<T>); }
extern "C" {
void sa_mk_builtin(data_t& v) { mk<abi_type::builtin>(v); }
void sa_mk_optional(data_t& v) { mk<abi_type::optional>(v); }
void sa_mk_extension(data_t& v) { mk<abi_type::extension>(v); }
void sa_mk_array(data_t& v) { mk<abi_type::array>(v); }
void sa_mk_struct(data_t& v) { mk<abi_type::struct_>(v); }
void sa_mk_variant(data_t& v) { mk<abi_type::variant>(v); }
void sa_mj_null(value_t& v) { mk<std::nullptr_t>(v); }
void sa_mj_bool(value_t& v) { mk<bool>(v); }
void sa_mj_string(value_t& v) { mk<std::string>(v); }
void sa_mj_object(value_t& v) { mk<abieos::jobject>(v); }
void sa_mj_array(value_t& v) { mk<abieos::jarray>(v); }
void sa_js(std::vector<char>& out, const abi_type* t, std::string_view json) { abieos::json_to_bin(out, t, json, [] {}); }
void sa_jv(std::vector<char>& out, const abi_type* t, const abieos::jvalue& v) { abieos::json_to_bin(out, t, v, [] {}); }
void sa_bj(input_stream& in, const abi_type* t, std::string& out) { abieos::bin_to_json(in, t, out, [] {}); }
}
#define STEP(p) \
extern "C" void sa_js_##p(abieos::json_to_bin_state& s, bool a, const abi_type* t, bool b) { abieos::json_to_bin((abieos::pseudo_##p*)nullptr, s, a, t, b); } \
extern "C" void sa_jv_##p(abieos::jvalue_to_bin_state& s, bool a, const abi_type* t, bool b) { abieos::json_to_bin((abieos::pseudo_##p*)nullptr, s, a, t, b); } \
extern "C" void sa_bj_##p(abieos::bin_to_json_state& s, bool a, const abi_type* t, bool b) { abieos::bin_to_json((abieos::pseudo_##p*)nullptr, s, a, t, b); }
STEP(object) STEP(array) STEP(variant) STEP(optional) STEP(extension)
// the getters of the tree state
#define GET(n, R, call) extern "C" R sa_jg_##n(const abieos::jvalue& v) { std::vector<char>* out = nullptr; abieos::jvalue_to_bin_state s{{*out}, &v}; return call; }
GET(bool, bool, s.get_bool()) GET(null, bool, (s.get_null(), true)) GET(nullp, bool, s.get_null_pred())
extern "C" void sa_jg_string(const abieos::jvalue& v, std::pair<const char*, size_t>& o) { std::vector<char>* out = nullptr; abieos::jvalue_to_bin_state s{{*out}, &v}; auto r = s.get_string(); o.first = r.data(); o.second = r.size(); }
C(jj_size, sizeof(abieos::json_to_jvalue_stack_entry)) C(jj_value, OFF(abieos::json_to_jvalue_stack_entry, value)) C(jj_key, OFF(abieos::json_to_jvalue_stack_entry, key))

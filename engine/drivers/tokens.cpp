// json_token_stream's operations and parser callbacks, one root each; the parser itself is left undefined
#define ABIEOS_SHIM_DECL_ONLY
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <deque>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <system_error>
#include <tuple>
#include <variant>
#include <vector>
#include <rapidjson/reader.h>
#define private public
#include <eosio/from_json.hpp>
#undef private
using namespace eosio;
#define OFF(T, m) (reinterpret_cast<size_t>(&reinterpret_cast<T*>(4096)->m) - 4096)
using JS = json_token_stream;
extern "C" {
size_t sa_o_type() { return OFF(JS, current_token.type); }
size_t sa_o_key() { return OFF(JS, current_token.key); }
size_t sa_o_bool() { return OFF(JS, current_token.value_bool); }
size_t sa_o_string() { return OFF(JS, current_token.value_string); }
size_t sa_o_err() { return OFF(JS, reader.parseResult_.code_); }
size_t sa_o_state() { return OFF(JS, reader.state_); }
size_t sa_o_src() { return OFF(JS, ss.src_); }
void sa_t_peek(JS& s) { s.peek_token(); }
void sa_t_eat(JS& s) { s.eat_token(); }
void sa_t_end(JS& s) { s.get_end(); }
bool sa_t_null_pred(JS& s) { return s.get_null_pred(); }
void sa_t_null(JS& s) { s.get_null(); }
bool sa_t_bool(JS& s) { return s.get_bool(); }
void sa_t_string(JS& s, std::string_view& o) { o = s.get_string(); }
void sa_t_start_object(JS& s) { s.get_start_object(); }
void sa_t_key(JS& s, std::string_view& o) { o = s.get_key(); }
bool sa_t_maybe_key(JS& s, std::string_view& o) { auto x = s.maybe_get_key(); if (x) o = *x; return bool(x); }
bool sa_t_end_object_pred(JS& s) { return s.get_end_object_pred(); }
void sa_t_end_object(JS& s) { s.get_end_object(); }
bool sa_t_start_array_pred(JS& s) { return s.get_start_array_pred(); }
bool sa_t_end_array_pred(JS& s) { return s.get_end_array_pred(); }
void sa_t_start_array(JS& s) { s.get_start_array(); }
void sa_t_end_array(JS& s) { s.get_end_array(); }
bool sa_h_null(JS& s) { return s.Null(); }
bool sa_h_bool(JS& s, bool v) { return s.Bool(v); }
bool sa_h_number(JS& s, const char* p, unsigned n) { return s.RawNumber(p, n, false); }
bool sa_h_string(JS& s, const char* p, unsigned n) { return s.String(p, n, false); }
bool sa_h_key(JS& s, const char* p, unsigned n) { return s.Key(p, n, false); }
bool sa_h_start_object(JS& s) { return s.StartObject(); }
bool sa_h_end_object(JS& s) { return s.EndObject(0); }
bool sa_h_start_array(JS& s) { return s.StartArray(); }
bool sa_h_end_array(JS& s) { return s.EndArray(0); }
bool sa_h_int(JS& s) { return s.Int(0); }
bool sa_h_uint(JS& s) { return s.Uint(0); }
bool sa_h_int64(JS& s) { return s.Int64(0); }
bool sa_h_uint64(JS& s) { return s.Uint64(0); }
bool sa_h_double(JS& s) { return s.Double(0); }
void sa_js_ctor(JS& s, char* p) { new (&s) JS(p); }
}
#define K(n) extern "C" int sa_k_##n() { return (int)json_token_type::type_##n; }
K(unread) K(null) K(bool) K(string) K(start_object) K(key) K(end_object) K(start_array) K(end_array)

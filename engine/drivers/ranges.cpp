// discriminants and fixed counts with unknown alternatives and elements
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
namespace eosio {
struct probe_in {
   void read(void*, std::size_t); void check_available(std::size_t); std::size_t remaining(); void skip(std::size_t);
};
template <int N> struct item { int x; };
template <int N> void from_bin(item<N>&, probe_in&);
struct probe_text { std::string_view get_string(); void get_start_array(); void get_end_array(); };
template <int N> void from_json(item<N>&, probe_text&);
constexpr const char* get_type_name(item<0>*) { return "a"; }
constexpr const char* get_type_name(item<1>*) { return "ab"; }
constexpr const char* get_type_name(item<2>*) { return "b"; }
constexpr const char* get_type_name(item<3>*) { return "abc"; }
}
using namespace eosio;
extern "C" {
void sa_rv1(std::variant<item<0>>& v, probe_in& s) { from_bin(v, s); }
void sa_rv2(std::variant<item<0>, item<1>>& v, probe_in& s) { from_bin(v, s); }
void sa_rv3(std::variant<item<0>, item<1>, item<2>>& v, probe_in& s) { from_bin(v, s); }
void sa_rv4(std::variant<item<0>, item<1>, item<2>, item<3>>& v, probe_in& s) { from_bin(v, s); }
void sa_ra1(item<0> (&v)[1], probe_in& s) { from_bin(v, s); }
void sa_ra3(item<0> (&v)[3], probe_in& s) { from_bin(v, s); }
void sa_rb4(uint16_t (&v)[4], probe_in& s) { from_bin(v, s); }
void sa_jv1(std::variant<item<0>>& v, probe_text& s) { from_json(v, s); }
void sa_jv2(std::variant<item<0>, item<1>>& v, probe_text& s) { from_json(v, s); }
void sa_jv3(std::variant<item<0>, item<1>, item<2>>& v, probe_text& s) { from_json(v, s); }
void sa_jv4(std::variant<item<0>, item<1>, item<2>, item<3>>& v, probe_text& s) { from_json(v, s); }
}

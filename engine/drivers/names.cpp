#include "zoo.hpp"
using namespace eosio;
#define EACH(X) X(0) X(1) X(2) X(3) X(4) X(5) X(6) X(7) X(8) X(9) X(10) X(11) X(12) X(13) X(14) X(15)
#define N(n) \
   extern "C" uint64_t sa_lenient_##n(const char* p) { return string_to_name(p, n); } \
   extern "C" uint64_t sa_lenient_sv_##n(const char* p) { return string_to_name(std::string_view(p, n)); } \
   extern "C" uint64_t sa_lenient_str_##n(const char* p) { return string_to_name(std::string(p, n)); } \
   extern "C" bool sa_try_strict_##n(const char* p, uint64_t& r) { auto x = try_string_to_name_strict(std::string_view(p, n)); r = x.value(); return bool(x); } \
   extern "C" uint64_t sa_strict_##n(const char* p) { return string_to_name_strict(std::string_view(p, n)); } \
   extern "C" uint64_t sa_name_ctor_##n(const char* p) { return name(std::string_view(p, n)).value; } \
   extern "C" uint64_t sa_hash_name_##n(const char* p) { return hash_name(std::string_view(p, n)); }
EACH(N)
extern "C" uint64_t sa_char_to_value(char c) { return name::char_to_value(c); }
extern "C" void sa_name_to_string(uint64_t n, std::string& out) { out = name_to_string(n); }
extern "C" void sa_name_str(uint64_t n, std::string& out) { name x; x.value = n; out = (std::string)x; }
// the compile-time reader, evaluated by the compiler
template <char C> constexpr uint64_t at0 = string_to_name_strict<C>();
template <char C> constexpr uint64_t at5 = string_to_name_strict<'.', '.', '.', '.', '.', C>();
template <char C> constexpr uint64_t at11 = string_to_name_strict<'.', '.', '.', '.', '.', '.', '.', '.', '.', '.', '.', C>();
template <char C> constexpr uint64_t at12 = string_to_name_strict<'.', '.', '.', '.', '.', '.', '.', '.', '.', '.', '.', '.', C>();
extern "C" const uint64_t sa_ct0[] = { at0<'.'>, at0<'1'>, at0<'2'>, at0<'3'>, at0<'4'>, at0<'5'>, at0<'a'>, at0<'b'>, at0<'c'>, at0<'d'>, at0<'e'>, at0<'f'>, at0<'g'>, at0<'h'>, at0<'i'>, at0<'j'>, at0<'k'>, at0<'l'>, at0<'m'>, at0<'n'>, at0<'o'>, at0<'p'>, at0<'q'>, at0<'r'>, at0<'s'>, at0<'t'>, at0<'u'>, at0<'v'>, at0<'w'>, at0<'x'>, at0<'y'>, at0<'z'> };
extern "C" const uint64_t sa_ct5[] = { at5<'.'>, at5<'1'>, at5<'2'>, at5<'3'>, at5<'4'>, at5<'5'>, at5<'a'>, at5<'b'>, at5<'c'>, at5<'d'>, at5<'e'>, at5<'f'>, at5<'g'>, at5<'h'>, at5<'i'>, at5<'j'>, at5<'k'>, at5<'l'>, at5<'m'>, at5<'n'>, at5<'o'>, at5<'p'>, at5<'q'>, at5<'r'>, at5<'s'>, at5<'t'>, at5<'u'>, at5<'v'>, at5<'w'>, at5<'x'>, at5<'y'>, at5<'z'> };
extern "C" const uint64_t sa_ct11[] = { at11<'.'>, at11<'1'>, at11<'2'>, at11<'3'>, at11<'4'>, at11<'5'>, at11<'a'>, at11<'b'>, at11<'c'>, at11<'d'>, at11<'e'>, at11<'f'>, at11<'g'>, at11<'h'>, at11<'i'>, at11<'j'>, at11<'k'>, at11<'l'>, at11<'m'>, at11<'n'>, at11<'o'>, at11<'p'>, at11<'q'>, at11<'r'>, at11<'s'>, at11<'t'>, at11<'u'>, at11<'v'>, at11<'w'>, at11<'x'>, at11<'y'>, at11<'z'> };
extern "C" const uint64_t sa_ct12[] = { at12<'.'>, at12<'1'>, at12<'2'>, at12<'3'>, at12<'4'>, at12<'5'>, at12<'a'>, at12<'b'>, at12<'c'>, at12<'d'>, at12<'e'>, at12<'f'>, at12<'g'>, at12<'h'>, at12<'i'>, at12<'j'> };

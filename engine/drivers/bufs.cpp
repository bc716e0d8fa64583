// number and time formatting into scratch buffers, and the fixed-size destination
#include <eosio/stream.hpp>
#include <eosio/to_json.hpp>
#include <eosio/chain_conversions.hpp>
#include <eosio/varint.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_key.hpp>
namespace eosio {
struct probe {
   void write(char);
   void write(const void*, std::size_t);
   template <int N> void write(const char (&s)[N]) { write(s, N); }
   template <typename T> void write_raw(const T& v) { write(&v, sizeof v); }
};
// a value whose writers are unknown: only the two-pass protocol is visible
struct opq { int x; };
void to_bin(const opq&, size_stream&);
void to_bin(const opq&, fixed_buf_stream&);
void to_key(const opq&, size_stream&);
void to_key(const opq&, fixed_buf_stream&);
void to_json(const opq&, size_stream&);
void to_json(const opq&, fixed_buf_stream&);
void to_json(const opq&, pretty_stream<size_stream>&);
void to_json(const opq&, pretty_stream<fixed_buf_stream>&);
} // namespace eosio
using namespace eosio;
extern "C" {
#define NUM(n, ...) void sa_num_##n(__VA_ARGS__ v, probe& s) { to_json(v, s); }
NUM(bool, bool) NUM(char, char) NUM(i8, signed char) NUM(u8, unsigned char) NUM(i16, int16_t) NUM(u16, uint16_t) NUM(i32, int32_t) NUM(u32, uint32_t) NUM(i64, int64_t) NUM(u64, uint64_t)
void sa_num_i128(__int128 v, probe& s) { to_json(v, s); }
void sa_num_u128(unsigned __int128 v, probe& s) { to_json(v, s); }
NUM(f64, double) NUM(f32, float)
void sa_num_hex(const char* p, size_t n, probe& s) { to_json_hex(p, n, s); }
void sa_time(uint64_t us, std::string& o) { o = microseconds_to_str(us); }
void sa_fixed_c(fixed_buf_stream& s, char c) { s.write(c); }
void sa_fixed_n(fixed_buf_stream& s, const void* p, size_t n) { s.write(p, n); }
void sa_fixed_a1(fixed_buf_stream& s, const char (&a)[1]) { s.write(a); }
void sa_fixed_a7(fixed_buf_stream& s, const char (&a)[7]) { s.write(a); }
void sa_fixed_r1(fixed_buf_stream& s, const char& v) { s.write_raw(v); }
void sa_fixed_r4(fixed_buf_stream& s, const uint32_t& v) { s.write_raw(v); }
void sa_fixed_r16(fixed_buf_stream& s, const unsigned __int128& v) { s.write_raw(v); }
void sa_fixed_new(fixed_buf_stream& s, char* p, size_t n) { s = fixed_buf_stream(p, n); }
void sa_two_bin(const opq& v, std::vector<char>& o) { convert_to_bin(v, o); }
void sa_two_binr(const opq& v, std::vector<char>* o) { new (o) std::vector<char>(convert_to_bin(v)); }
void sa_two_key(const opq& v, std::vector<char>& o) { convert_to_key(v, o); }
void sa_two_json(const opq& v, std::string* o) { new (o) std::string(convert_to_json(v)); }
void sa_two_pretty(const opq& v, std::string* o) { new (o) std::string(format_json(v)); }
void sa_num_key8(const uint8_t* v, probe& s) { to_key_optional(v, s); }
}

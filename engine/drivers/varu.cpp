// variable-length integers and booleans over streams whose bytes are known to the analysis; the writes of the three binary sinks
#include <eosio/varint.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/from_bin.hpp>
namespace eosio {
struct probe_out { void write(char); void write(const void*, std::size_t); };
struct probe_in {
   void read(void*, std::size_t); void check_available(std::size_t); std::size_t remaining(); void skip(std::size_t); const char* get_pos();
   template <typename T> void read_raw(T& d) { read(&d, sizeof d); }
};
}
using namespace eosio;
extern "C" {
void sa_vu_write(uint64_t v, probe_out& s) { varuint32_to_bin(v, s); }
void sa_vu_push(uint32_t v, std::vector<char>& s) { push_varuint32(s, v); }
void sa_vut_write(const varuint32& v, probe_out& s) { to_bin(v, s); }
void sa_vit_write(const varint32& v, probe_out& s) { to_bin(v, s); }
void sa_vu32_read(uint32_t& v, probe_in& s) { varuint32_from_bin(v, s); }
void sa_vu64_read(uint64_t& v, probe_in& s) { varuint64_from_bin(v, s); }
void sa_vi32_read(int32_t& v, probe_in& s) { varint32_from_bin(v, s); }
void sa_vut_read(varuint32& v, probe_in& s) { from_bin(v, s); }
void sa_vit_read(varint32& v, probe_in& s) { from_bin(v, s); }
void sa_bool_read(bool& v, probe_in& s) { from_bin(v, s); }
void sa_bool_write(const bool& v, probe_out& s) { to_bin(v, s); }
#define SINK(n, T) \
   void sa_sink_##n##_c(T& s, char c) { s.write(c); } \
   void sa_sink_##n##_n0(T& s, const void* p) { s.write(p, 0); } \
   void sa_sink_##n##_n1(T& s, const void* p) { s.write(p, 1); } \
   void sa_sink_##n##_n5(T& s, const void* p) { s.write(p, 5); } \
   void sa_sink_##n##_n8(T& s, const void* p) { s.write(p, 8); } \
   void sa_sink_##n##_n33(T& s, const void* p) { s.write(p, 33); } \
   void sa_sink_##n##_r1(T& s, const char& v) { s.write_raw(v); } \
   void sa_sink_##n##_r4(T& s, const uint32_t& v) { s.write_raw(v); } \
   void sa_sink_##n##_r16(T& s, const unsigned __int128& v) { s.write_raw(v); }
SINK(size, size_stream) SINK(fixed, fixed_buf_stream) SINK(vec, vector_stream)
#define LIT(n, T) void sa_sink_##n##_a7(T& s, const char (&a)[7]) { s.write(a); }
LIT(size, size_stream) LIT(fixed, fixed_buf_stream)
}

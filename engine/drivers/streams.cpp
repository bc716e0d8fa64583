// the cursor operations of input_stream, one root each
#include <eosio/stream.hpp>
#include <eosio/from_bin.hpp>
using namespace eosio;
extern "C" {
void sa_is_read(input_stream& s, char* d, size_t n) { s.read(d, n); }
void sa_is_skip(input_stream& s, size_t n) { s.skip(n); }
void sa_is_reuse(input_stream& s, const char*& d, size_t n) { s.read_reuse_storage(d, n); }
void sa_is_check(const input_stream& s, size_t n) { s.check_available(n); }
size_t sa_is_remaining(const input_stream& s) { return s.remaining(); }
void sa_is_raw1(input_stream& s, uint8_t& v) { s.read_raw(v); }
void sa_is_raw2(input_stream& s, uint16_t& v) { s.read_raw(v); }
void sa_is_raw4(input_stream& s, uint32_t& v) { s.read_raw(v); }
void sa_is_raw8(input_stream& s, uint64_t& v) { s.read_raw(v); }
}

#include "zoo.hpp"
using namespace eosio;
namespace eosio { struct sa_text { std::string_view s; std::string_view get_string() { return s; } }; }
#define I(n, ...) extern "C" void sa_int_##n(const char* p, size_t n_, __VA_ARGS__& r) { sa_text t{ { p, n_ } }; from_json(r, t); }
I(u8, uint8_t) I(u16, uint16_t) I(u32, uint32_t) I(u64, uint64_t) I(u128, unsigned __int128)
I(i8, int8_t) I(i16, int16_t) I(i32, int32_t) I(i64, int64_t) I(i128, __int128) I(vu32, varuint32) I(vi32, varint32)

// asset and extended_asset operators
#include <eosio/asset.hpp>
using namespace eosio;
#define BIN(n, T, R, E) void sa_as_##n(R& r, const T& a, const T& b) { r = (E); }
extern "C" {
BIN(add, asset, asset, a + b)
BIN(sub, asset, asset, a - b)
BIN(quot, asset, int64_t, a / b)
BIN(eq, asset, bool, a == b)
BIN(ne, asset, bool, a != b)
BIN(lt, asset, bool, a < b)
BIN(le, asset, bool, a <= b)
BIN(gt, asset, bool, a > b)
BIN(ge, asset, bool, a >= b)
BIN(xadd, extended_asset, extended_asset, a + b)
BIN(xsub, extended_asset, extended_asset, a - b)
BIN(xeq, extended_asset, bool, a == b)
BIN(xne, extended_asset, bool, a != b)
BIN(xlt, extended_asset, bool, a < b)
BIN(xle, extended_asset, bool, a <= b)
BIN(xge, extended_asset, bool, a >= b)
void sa_as_addto(asset& r, const asset& b) { r += b; }
void sa_as_subfrom(asset& r, const asset& b) { r -= b; }
void sa_as_xaddto(extended_asset& r, const extended_asset& b) { r += b; }
void sa_as_xsubfrom(extended_asset& r, const extended_asset& b) { r -= b; }
void sa_as_neg(asset& r, const asset& a) { r = -a; }
void sa_as_xneg(extended_asset& r, const extended_asset& a) { r = -a; }
void sa_as_set(asset& r, int64_t n) { r.set_amount(n); }
void sa_as_make(asset& r, int64_t n, uint64_t s) { r = asset{n, symbol{s}}; }
void sa_as_mulby(asset& r, int64_t n) { r *= n; }
void sa_as_mul(asset& r, const asset& a, int64_t n) { r = a * n; }
void sa_as_mulr(asset& r, const asset& a, int64_t n) { r = n * a; }
void sa_as_divby(asset& r, int64_t n) { r /= n; }
void sa_as_div(asset& r, const asset& a, int64_t n) { r = a / n; }
}

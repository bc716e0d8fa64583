#include <eosio/abi.hpp>
extern "C" void sa_load(const eosio::abi_def& d, eosio::abi& a) { eosio::convert(d, a); }
extern "C" const eosio::abi_type* sa_query(eosio::abi& a, const std::string& n) { return a.get_type(n); }
extern "C" void sa_unload(const eosio::abi& a, eosio::abi_def& d) { eosio::convert(a, d); }

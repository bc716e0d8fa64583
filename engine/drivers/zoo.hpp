// every codec of the library, instantiated
#pragma once
#include "abieos.hpp"
#include <eosio/abi.hpp>
#include <eosio/chain_types.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/from_string.hpp>
#include <eosio/opaque.hpp>
#include <eosio/ship_protocol.hpp>
#include <eosio/convert.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/to_key.hpp>

namespace zoo {
enum class color : uint8_t { red, green };
struct leaf { uint16_t a; std::string b; };
EOSIO_REFLECT(leaf, a, b)
struct derived : leaf { std::optional<uint32_t> c; std::vector<leaf> d; };
EOSIO_REFLECT(derived, base leaf, c, d)
struct pod { uint8_t x; uint32_t y; };
EOSIO_REFLECT(pod, x, y)
}

#define ZOO_BUILTIN(X) \
   X(bool_, bool) X(i8, int8_t) X(u8, uint8_t) X(i16, int16_t) X(u16, uint16_t) X(i32, int32_t) X(u32, uint32_t) X(i64, int64_t) X(u64, uint64_t) \
   X(i128, abieos::int128) X(u128, abieos::uint128) X(vu32, eosio::varuint32) X(vi32, eosio::varint32) X(f32, float) X(f64, double) X(f128, eosio::float128) \
   X(tp, eosio::time_point) X(tps, eosio::time_point_sec) X(bts, eosio::block_timestamp) X(name_, eosio::name) X(bytes_, eosio::bytes) X(str, std::string) \
   X(c160, eosio::checksum160) X(c256, eosio::checksum256) X(c512, eosio::checksum512) X(pubkey, eosio::public_key) X(privkey, eosio::private_key) \
   X(sig, eosio::signature) X(sym, eosio::symbol) X(symcode, eosio::symbol_code) X(asset_, eosio::asset)
#define ZOO_CHAIN(X) X(xasset, eosio::extended_asset) X(xsym, eosio::extended_symbol) X(usec, eosio::microseconds)
#define ZOO_COMP(X) \
   X(v_u8, std::vector<uint8_t>) X(v_u32, std::vector<uint32_t>) X(v_str, std::vector<std::string>) X(o_u32, std::optional<uint32_t>) X(o_str, std::optional<std::string>) \
   X(jvar, std::variant<zoo::leaf COMMA zoo::pod COMMA zoo::derived>) X(z_leaf, zoo::leaf) X(z_derived, zoo::derived) X(z_pod, zoo::pod) X(v_pod, std::vector<zoo::pod>)
// binary (and sort key) only
#define ZOO_BIN(X) \
   X(var, std::variant<uint8_t COMMA std::string COMMA uint64_t>)    X(l_u32, std::list<uint32_t>) X(d_u16, std::deque<uint16_t>) X(s_u32, std::set<uint32_t>) X(m_su, std::map<std::string COMMA uint32_t>) \
   X(p_us, std::pair<uint32_t COMMA std::string>) X(t_usb, std::tuple<uint32_t COMMA std::string COMMA bool>) X(a_u8, std::array<uint8_t COMMA 5>) X(a_str, std::array<std::string COMMA 2>)
#define ZOO_ABI(X) \
   X(type_def, eosio::type_def) X(field_def, eosio::field_def) X(struct_def, eosio::struct_def) X(action_def, eosio::action_def) X(table_def, eosio::table_def) \
   X(clause_pair, eosio::clause_pair) X(error_message, eosio::error_message) X(variant_def, eosio::variant_def)
#define SP eosio::ship_protocol
#define ZOO_SHIP(X) \
   X(s_request, SP::request) X(s_gsr, SP::get_status_result_v0) X(s_gbr0, SP::get_blocks_result_v0) X(s_table_delta, SP::table_delta) X(s_transaction_trace, SP::transaction_trace) X(s_signed_block_v0, SP::signed_block_v0) \
   X(s_signed_block_v1, SP::signed_block_v1) X(s_transaction, SP::transaction) X(s_account, SP::account) X(s_account_metadata, SP::account_metadata) X(s_code, SP::code) \
   X(s_contract_table, SP::contract_table) X(s_contract_row, SP::contract_row) X(s_ci64, SP::contract_index64) X(s_ci128, SP::contract_index128) X(s_ci256, SP::contract_index256) \
   X(s_cid, SP::contract_index_double) X(s_cild, SP::contract_index_long_double) X(s_kv, SP::key_value) X(s_bsa, SP::producer_authority_schedule) X(s_ps, SP::producer_schedule) X(s_gp, SP::global_property) \
   X(s_gt, SP::generated_transaction) X(s_apf, SP::activated_protocol_feature) X(s_protocol_state, SP::protocol_state) X(s_permission, SP::permission) X(s_permission_link, SP::permission_link) \
   X(s_rl, SP::resource_limits) X(s_ru, SP::resource_usage) X(s_rls, SP::resource_limits_state) X(s_rlc, SP::resource_limits_config) X(s_pad, SP::packed_transaction)
#define COMMA ,

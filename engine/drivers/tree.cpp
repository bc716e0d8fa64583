// the document tree builder: the top-level function (its reader is replaced by a source of events) and the handler of every event
#include <atomic>
#include <deque>
#include <functional>
#include <sstream>
#define private public
#include <eosio/from_json.hpp>
#undef private
#include "abieos.hpp"
using namespace abieos;
using St = json_to_jvalue_state;
extern "C" {
void sa_tree(jvalue& root, std::string_view json) { json_to_jvalue(root, json, [] {}); }
bool sa_ev_null(St& s) { return s.Null(); }
bool sa_ev_bool(St& s, bool b) { return s.Bool(b); }
bool sa_ev_string(St& s, const char* p, unsigned n) { return s.String(p, n, true); }
bool sa_ev_number(St& s, const char* p, unsigned n) { return s.RawNumber(p, n, true); }
bool sa_ev_object(St& s) { return s.StartObject(); }
bool sa_ev_key(St& s, const char* p, unsigned n) { return s.Key(p, n, true); }
bool sa_ev_endobject(St& s) { return s.EndObject(0); }
bool sa_ev_array(St& s) { return s.StartArray(); }
bool sa_ev_endarray(St& s) { return s.EndArray(0); }
}

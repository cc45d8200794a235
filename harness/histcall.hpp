// One call of the C API, and what it gives.
#pragma once
#include <cstdlib>
#include <eosio/abieos.h>
#include <string>
#include <vector>

namespace hist {
enum Kind { set_json, set_bin, set_hex, to_bin, to_bin_reorder, to_json, hex_to_json, to_name, from_name, action, table, recreate, kinds };
struct Op { int kind; uint64_t n; std::string type, arg; int spin; };
using History = std::vector<Op>;

inline const char* const kind_name[] = {"set_abi", "set_abi_bin", "set_abi_hex", "json_to_bin", "json_to_bin_reorderable", "bin_to_json", "hex_to_json", "string_to_name", "name_to_string", "get_type_for_action", "get_type_for_table", "destroy and create"};

inline std::string str(const char* p) { return p ? std::string("=") + p : std::string("none"); }
// what a call gives: its result, the bytes or text, the message of a failed call
inline std::string call(abieos_context*& c, const Op& o) {
    std::string r;
    bool bin = false;
    switch (o.kind) {
    case set_json: r = std::to_string(bool(abieos_set_abi(c, o.n, o.arg.c_str()))); break;
    case set_bin: r = std::to_string(bool(abieos_set_abi_bin(c, o.n, o.arg.data(), o.arg.size()))); break;
    case set_hex: r = std::to_string(bool(abieos_set_abi_hex(c, o.n, o.arg.c_str()))); break;
    case to_bin: r = std::to_string(bool(abieos_json_to_bin(c, o.n, o.type.c_str(), o.arg.c_str()))); bin = r == "1"; break;
    case to_bin_reorder: r = std::to_string(bool(abieos_json_to_bin_reorderable(c, o.n, o.type.c_str(), o.arg.c_str()))); bin = r == "1"; break;
    case to_json: r = str(abieos_bin_to_json(c, o.n, o.type.c_str(), o.arg.data(), o.arg.size())); break;
    case hex_to_json: r = str(abieos_hex_to_json(c, o.n, o.type.c_str(), o.arg.c_str())); break;
    case to_name: r = std::to_string(abieos_string_to_name(c, o.arg.c_str())); break;
    case from_name: r = str(abieos_name_to_string(c, o.n)); break;
    case action: r = str(abieos_get_type_for_action(c, o.n, std::strtoull(o.arg.c_str(), nullptr, 10))); break;
    case table: r = str(abieos_get_type_for_table(c, o.n, std::strtoull(o.arg.c_str(), nullptr, 10))); break;
    default: abieos_destroy(c); c = abieos_create(); break;
    }
    if (bin) {
        int n = abieos_get_bin_size(c);
        r += ":" + std::string(abieos_get_bin_data(c), size_t(n > 0 ? n : 0));
        r += str(abieos_get_bin_hex(c));
    }
    // the message of a failed call
    if (r == "0" || r == "none") r += str(abieos_get_error(c));
    return r;
}
}  // namespace hist

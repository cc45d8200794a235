// What every function that reads text gives for a text.
#pragma once
#include <cerrno>
#include <eosio/abieos.h>
#include <eosio/asset.hpp>
#include <eosio/chain_conversions.hpp>
#include <eosio/crypto.hpp>
#include <eosio/from_string.hpp>
#include <eosio/name.hpp>
#include <eosio/symbol.hpp>
#include <eosio/to_bin.hpp>
#include <string>
#include <vector>

inline std::vector<std::string> text_functions(const std::string& t, int err) {
    std::vector<std::string> r;
    auto put = [&](auto&& f) {
        std::string x;
        errno = err;
        try { x = f(); } catch (std::exception& e) { x = std::string("throws ") + e.what(); }
        r.push_back(x);
    };
    const char *b = t.data(), *e = b + t.size();
    auto bytes = [](const std::vector<char>& v) { return std::string(v.begin(), v.end()); };
    auto num = [](uint64_t v) { return std::to_string(v); };
    auto pre = [&](auto&& f) {  // f(result, position, whole)
        for (bool whole : {true, false}) put([&] { const char* p = b; std::string v; bool ok = f(v, p, whole); return ok ? v + (whole ? "" : " to " + num(p - b)) : "refused"; });
    };
    put([&] { return num(eosio::string_to_name(std::string_view(t))); });
    put([&] { return num(eosio::string_to_name_strict(std::string_view(t))); });
    put([&] { return num(eosio::name(std::string_view(t)).value); });
    put([&] { auto x = eosio::try_string_to_name_strict(t); return x ? num(x.value()) : std::string("error"); });
    put([&] { return num(eosio::symbol_code(std::string_view(t)).raw()); });
    pre([&](std::string& v, const char*& p, bool w) { uint64_t x = 0; bool ok = eosio::string_to_symbol_code(x, p, e, w); v = num(x); return ok; });
    pre([&](std::string& v, const char*& p, bool w) { uint64_t x = 0; bool ok = eosio::string_to_symbol(x, p, e, w); v = num(x); return ok; });
    pre([&](std::string& v, const char*& p, bool w) { int64_t a = 0; uint64_t x = 0; bool ok = eosio::string_to_asset(a, x, p, e, w); v = num(a) + ' ' + num(x); return ok; });
    put([&] { auto a = eosio::convert_from_string<eosio::asset>(std::string_view(t)); return num(a.amount) + ' ' + num(a.symbol.raw()); });
    pre([&](std::string& v, const char*& p, bool w) { uint32_t x = 0; bool ok = eosio::string_to_utc_seconds(x, p, e, false, w); v = num(x); return ok; });
    pre([&](std::string& v, const char*& p, bool w) { uint64_t x = 0; bool ok = eosio::string_to_utc_microseconds(x, p, e, w); v = num(x); return ok; });
    put([&] { return bytes(eosio::convert_to_bin(eosio::public_key_from_string(t))); });
    put([&] { return bytes(eosio::convert_to_bin(eosio::private_key_from_string(t))); });
    put([&] { return bytes(eosio::convert_to_bin(eosio::signature_from_string(t))); });
    put([&] { return num(abieos_string_to_name(nullptr, t.c_str())); });
    uint64_t h = 0;
    for (unsigned char ch : t) h = h * 1000003 + ch;
    put([&] { return eosio::microseconds_to_str(h % 253402300800000000ull); });
    put([&] { return eosio::asset_to_string(int64_t(h), 0x4241ull << 8 | h % 20); });
    put([&] { return eosio::symbol_to_string(0x4241ull << 8 | h % 20); });
    put([&] { return eosio::name_to_string(h); });
    put([&] { return num(eosio::hash_name(t)); });
    return r;
}

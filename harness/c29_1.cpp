// abieos.cpp of the build without 128-bit integers
#include "no_int128.hpp"
#include "../src/abieos.cpp"
#include "c29.hpp"
#undef eosio
#undef abieos
#include <cstring>
namespace no128 {
std::string dec(const Bits& b) { return abieos_n::binary_to_decimal(b); }
bool bin(const std::string& t, Bits& b) {
    try { abieos_n::decimal_to_binary(b, t); } catch (std::exception&) { return false; }
    return true;
}
void neg(Bits& b) { abieos_n::negate(b); }
bool is_neg(const Bits& b) { return abieos_n::is_negative(b); }
template <class T> static bool native_(const std::string& json, std::string& wire, std::string& text) {
    std::vector<char> buf(json.begin(), json.end());
    buf.insert(buf.end(), 4, 0);
    buf.shrink_to_fit();
    T v;
    try {
        eosio_n::json_token_stream st(buf.data());
        from_json(v, st);
        st.get_end();
        auto w = eosio_n::convert_to_bin(v);
        wire.assign(w.begin(), w.end());
        text = eosio_n::convert_to_json(v);
        T u;
        eosio_n::input_stream in(w);
        from_bin(u, in);
        if (in.remaining() || eosio_n::convert_to_bin(u) != w) text = "reads back as another value";
    } catch (std::exception&) { return false; }
    return true;
}
bool native(bool sgn, const std::string& json, std::string& wire, std::string& text) {
    return sgn ? native_<abieos_n::int128>(json, wire, text) : native_<abieos_n::uint128>(json, wire, text);
}
}

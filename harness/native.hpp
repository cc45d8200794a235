// Reference description of native C++ types: generator, wire encoding, ordering and JSON meaning,
// written against the documented formats and independent of the library's own templates.
#pragma once
#include "refabi.hpp"
#include <deque>
#include <eosio/abi.hpp>
#include <eosio/asset.hpp>
#include <eosio/bytes.hpp>
#include <eosio/crypto.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/name.hpp>
#include <eosio/operators.hpp>
#include <eosio/reflection.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/to_key.hpp>
#include <eosio/types.hpp>
#include <eosio/varint.hpp>
#include <list>
#include <map>
#include <set>

namespace nat {
using namespace ref;

struct G {
    pbt::Source& s;
    bool json = false;  // only values which survive their JSON text (ms times, valid UTF-8, canonical NaN)
    bool key = false;   // no NaN, one symbol per case
    int budget = 60;
    int depth = 0;
    uint64_t sym = 0;
    explicit G(pbt::Source& s) : s(s) { sym = (code_value("ABC") << 8) | 4; }
    size_t count(size_t max) {
        if (budget <= 0 || depth > 6) return 0;
        size_t n = s.size(max);
        if (n > size_t(budget)) n = size_t(budget);
        return n;
    }
};
template <class T> int cmp3(const T& a, const T& b) { return a < b ? -1 : b < a ? 1 : 0; }

// ---- structs described by hand: Desc<T>::names() and Desc<T>::tie(x)
template <class T> struct Desc { static constexpr bool ok = false; };
#define FE_1(m, x) m(x)
#define FE_2(m, x, ...) m(x), FE_1(m, __VA_ARGS__)
#define FE_3(m, x, ...) m(x), FE_2(m, __VA_ARGS__)
#define FE_4(m, x, ...) m(x), FE_3(m, __VA_ARGS__)
#define FE_5(m, x, ...) m(x), FE_4(m, __VA_ARGS__)
#define FE_6(m, x, ...) m(x), FE_5(m, __VA_ARGS__)
#define FE_7(m, x, ...) m(x), FE_6(m, __VA_ARGS__)
#define FE_8(m, x, ...) m(x), FE_7(m, __VA_ARGS__)
#define FE_9(m, x, ...) m(x), FE_8(m, __VA_ARGS__)
#define FE_10(m, x, ...) m(x), FE_9(m, __VA_ARGS__)
#define FE_11(m, x, ...) m(x), FE_10(m, __VA_ARGS__)
#define FE_12(m, x, ...) m(x), FE_11(m, __VA_ARGS__)
#define FE_13(m, x, ...) m(x), FE_12(m, __VA_ARGS__)
#define FE_14(m, x, ...) m(x), FE_13(m, __VA_ARGS__)
#define FE_15(m, x, ...) m(x), FE_14(m, __VA_ARGS__)
#define FE_16(m, x, ...) m(x), FE_15(m, __VA_ARGS__)
#define FE_17(m, x, ...) m(x), FE_16(m, __VA_ARGS__)
#define FE_18(m, x, ...) m(x), FE_17(m, __VA_ARGS__)
#define FE_19(m, x, ...) m(x), FE_18(m, __VA_ARGS__)
#define FE_20(m, x, ...) m(x), FE_19(m, __VA_ARGS__)
#define FE_21(m, x, ...) m(x), FE_20(m, __VA_ARGS__)
#define FE_22(m, x, ...) m(x), FE_21(m, __VA_ARGS__)
#define FE_23(m, x, ...) m(x), FE_22(m, __VA_ARGS__)
#define FE_24(m, x, ...) m(x), FE_23(m, __VA_ARGS__)
#define FE_PICK(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14, _15, _16, _17, _18, _19, _20, _21, _22, _23, _24, N, ...) FE_##N
#define FE(m, ...) FE_PICK(__VA_ARGS__, 24, 23, 22, 21, 20, 19, 18, 17, 16, 15, 14, 13, 12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1)(m, __VA_ARGS__)
#define FE_STR(x) #x
#define FE_MEM(x) o.x
// use at namespace nat scope
#define DESC(S, ...)                                                                                                   \
    template <> struct Desc<S> {                                                                                       \
        static constexpr bool ok = true;                                                                               \
        static const std::vector<std::string>& names() { static const std::vector<std::string> n{FE(FE_STR, __VA_ARGS__)}; return n; } \
        template <class O> static auto tie(O& o) { return std::tie(FE(FE_MEM, __VA_ARGS__)); }                         \
    };

// independent type names
template <class T> struct TN;
template <class T> std::string tn() { return TN<T>::get(); }
#define TNAME(T, S) template <> struct TN<T> { static std::string get() { return S; } };
TNAME(bool, "bool") TNAME(int8_t, "int8") TNAME(uint8_t, "uint8") TNAME(int16_t, "int16") TNAME(uint16_t, "uint16") TNAME(int32_t, "int32") TNAME(uint32_t, "uint32")
TNAME(int64_t, "int64") TNAME(uint64_t, "uint64") TNAME(__int128, "int128") TNAME(unsigned __int128, "uint128") TNAME(float, "float32") TNAME(double, "float64")
TNAME(std::string, "string") TNAME(eosio::bytes, "bytes") TNAME(eosio::varuint32, "varuint32") TNAME(eosio::varint32, "varint32") TNAME(eosio::name, "name")
TNAME(eosio::symbol, "symbol") TNAME(eosio::symbol_code, "symbol_code") TNAME(eosio::asset, "asset") TNAME(eosio::extended_asset, "extended_asset") TNAME(eosio::extended_symbol, "extended_symbol")
TNAME(eosio::microseconds, "microseconds") TNAME(eosio::time_point, "time_point") TNAME(eosio::time_point_sec, "time_point_sec") TNAME(eosio::block_timestamp, "block_timestamp_type")
TNAME(eosio::checksum160, "checksum160") TNAME(eosio::checksum256, "checksum256") TNAME(eosio::checksum512, "checksum512") TNAME(eosio::float128, "float128")
TNAME(eosio::public_key, "public_key") TNAME(eosio::private_key, "private_key") TNAME(eosio::signature, "signature")
template <class T> struct TN<std::vector<T>> { static std::string get() { return tn<T>() + "[]"; } };
template <class T> struct TN<std::optional<T>> { static std::string get() { return tn<T>() + "?"; } };
template <class... T> struct TN<std::variant<T...>> { static std::string get() { return "variant" + (("_" + tn<T>()) + ...); } };


// ---- per-type traits
template <class T, class = void> struct N;
template <class T> void gen(G& g, T& v) { N<T>::gen(g, v); }
template <class T> void enc(Bytes& b, const T& v) { N<T>::enc(b, v); }
template <class T> int cmp(const T& a, const T& b) { return N<T>::cmp(a, b); }
template <class T> void perturb(G& g, T& v) { N<T>::perturb(g, v); }
template <class T> std::string chk(const T& v, const J& j) { return N<T>::chk(v, j); }
template <class T> Bytes wire(const T& v) { Bytes b; enc(b, v); return b; }
template <class T> T make(G& g) { T v{}; gen(g, v); return v; }

template <class T, Sc K> struct ScalarN {
    static void gen(G& g, T& v) { --g.budget; N<T>::from_wire(v, pick(g)); }
    static Bytes pick(G& g) {
        Bytes w = gen_scalar(K, g.s);
        if (K == Sc::tp) {
            if (!g.json && g.s.flip()) { w.clear(); put_le(w, u128(g.s.int_bits(64)), 8); }
            else if (g.json) { uint64_t ms = uint64_t(get_le(w, 0, 8)) / 1000; w.clear(); put_le(w, ms * 1000, 8); }
        }
        if ((K == Sc::string || K == Sc::bytes) && !g.json && g.s.flip()) { auto b = gen_bytes(g.s, 40); w.clear(); put_varuint(w, b.size()); w += b; }
        if (K == Sc::f32 || K == Sc::f64) {
            double d = K == Sc::f32 ? double(f32_of(w)) : f64_of(w);
            if (std::isnan(d)) { w.clear(); put_le(w, g.key ? 0 : K == Sc::f32 ? 0x7fc00000u : 0x7ff8000000000000ull, K == Sc::f32 ? 4 : 8); }
        }
        if (K == Sc::asset && g.key && g.s.flip()) { Bytes a = w.substr(0, 8); put_le(a, g.sym, 8); w = a; }
        return w;
    }
    static void enc(Bytes& b, const T& v) { b += N<T>::to_wire(v); }
    static void perturb(G& g, T& v) { gen(g, v); }
    static std::string chk(const T& v, const J& j) { return check_scalar(K, N<T>::to_wire(v), j); }
};
template <class T> constexpr Sc int_sc() {
    constexpr bool sg = T(-1) < T(0);
    if constexpr (std::is_same_v<T, bool>) return Sc::bool_;
    else if constexpr (sizeof(T) == 1) return sg ? Sc::i8 : Sc::u8;
    else if constexpr (sizeof(T) == 2) return sg ? Sc::i16 : Sc::u16;
    else if constexpr (sizeof(T) == 4) return sg ? Sc::i32 : Sc::u32;
    else if constexpr (sizeof(T) == 8) return sg ? Sc::i64 : Sc::u64;
    else return sg ? Sc::i128_ : Sc::u128_;
}
template <class T> struct N<T, std::enable_if_t<std::is_integral_v<T>>> : ScalarN<T, int_sc<T>()> {
    static void from_wire(T& v, const Bytes& w) { v = T(get_le(w, 0, sizeof(T))); }
    static Bytes to_wire(const T& v) { Bytes w; put_le(w, u128(v), sizeof(T)); return w; }
    static int cmp(T a, T b) { return cmp3(a, b); }
    static void perturb(G& g, T& v) {
        if (std::is_same_v<T, bool> || g.s.flip()) return N::gen(g, v);
        u128 d = u128(1) << (8 * g.s.below(sizeof(T)));
        u128 u = u128(v);
        v = T(g.s.flip() ? u + d : u - d);
    }
};
template <class T> struct N<T, std::enable_if_t<std::is_enum_v<T>>> {
    using U = std::underlying_type_t<T>;
    static void gen(G& g, T& v) { U u; nat::gen(g, u); v = T(u); }
    static void enc(Bytes& b, const T& v) { nat::enc(b, U(v)); }
    static int cmp(T a, T b) { return cmp3(U(a), U(b)); }
    static void perturb(G& g, T& v) { U u = U(v); nat::perturb(g, u); v = T(u); }
};
template <class T> struct N<T, std::enable_if_t<std::is_floating_point_v<T>>> : ScalarN<T, sizeof(T) == 4 ? Sc::f32 : Sc::f64> {
    static void from_wire(T& v, const Bytes& w) { memcpy(&v, w.data(), sizeof v); }
    static Bytes to_wire(const T& v) { return Bytes((const char*)&v, sizeof v); }
    static int cmp(T a, T b) { return cmp3(a, b); }
    static void perturb(G& g, T& v) {
        switch (g.s.below(4)) {
        case 0: v = -v; break;
        case 1: v = std::nextafter(v, T(INFINITY)); break;
        case 2: v = std::nextafter(v, T(-INFINITY)); break;
        default: N::gen(g, v);
        }
    }
};
inline void perturb_bytes(G& g, std::string& v) {
    switch (v.empty() ? g.s.below(2) : g.s.below(7)) {
    case 0: v += g.json ? 'a' : char(g.s.pick({0, 1, 2, 255, 127, 128, int('a')})); break;
    case 1: v.insert(0, 1, g.json ? 'b' : '\0'); break;
    case 2: if (!g.json) { v.pop_back(); } break;
    case 3: if (!g.json) { v[g.s.below(v.size())] = char(g.s.byte()); } break;
    case 4: if (!g.json) { v[v.size() - 1] = char(v[v.size() - 1] + (g.s.flip() ? 1 : -1)); } break;
    case 5: if (!g.json) { v.resize(g.s.below(v.size())); } break;
    default: if (!g.json) { v += '\0'; v += char(g.s.below(3)); }
    }
}
template <> struct N<std::string> : ScalarN<std::string, Sc::string> {
    static void from_wire(std::string& v, const Bytes& w) { size_t p = 0; get_varuint(w, p); v = w.substr(p); }
    static Bytes to_wire(const std::string& v) { Bytes w; put_varuint(w, v.size()); return w + v; }
    static int cmp(const std::string& a, const std::string& b) {
        int r = memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
        return r ? (r < 0 ? -1 : 1) : cmp3(a.size(), b.size());
    }
    static void perturb(G& g, std::string& v) { if (g.s.chance(1, 6)) gen(g, v); else perturb_bytes(g, v); }
};
template <> struct N<eosio::bytes> : ScalarN<eosio::bytes, Sc::bytes> {
    static void from_wire(eosio::bytes& v, const Bytes& w) { size_t p = 0; get_varuint(w, p); v.data.assign(w.begin() + p, w.end()); }
    static Bytes to_wire(const eosio::bytes& v) { Bytes w; put_varuint(w, v.data.size()); w.append(v.data.data(), v.data.size()); return w; }
    static int cmp(const eosio::bytes& a, const eosio::bytes& b) {  // std::vector<char>: signed char order
        for (size_t i = 0; i < a.data.size() && i < b.data.size(); ++i)
            if (a.data[i] != b.data[i]) return a.data[i] < b.data[i] ? -1 : 1;
        return cmp3(a.data.size(), b.data.size());
    }
    static void perturb(G& g, eosio::bytes& v) {
        std::string s(v.data.begin(), v.data.end());
        bool j = g.json;
        g.json = false;
        perturb_bytes(g, s);
        g.json = j;
        v.data.assign(s.begin(), s.end());
    }
};
#define U64_SCALAR(T, K, F, BITS)                                                                                      \
    template <> struct N<T> : ScalarN<T, K> {                                                                          \
        static void from_wire(T& v, const Bytes& w) { v.F = decltype(v.F)(get_le(w, 0, BITS / 8)); }                   \
        static Bytes to_wire(const T& v) { Bytes w; put_le(w, u128(v.F), BITS / 8); return w; }                        \
        static int cmp(const T& a, const T& b) { return cmp3(a.F, b.F); }                                              \
    };
U64_SCALAR(eosio::name, Sc::name, value, 64)
U64_SCALAR(eosio::symbol_code, Sc::symcode, value, 64)
U64_SCALAR(eosio::symbol, Sc::symbol, value, 64)
U64_SCALAR(eosio::time_point, Sc::tp, elapsed._count, 64)
U64_SCALAR(eosio::time_point_sec, Sc::tps, utc_seconds, 32)
U64_SCALAR(eosio::block_timestamp, Sc::bts, slot, 32)
template <> struct N<eosio::varuint32> : ScalarN<eosio::varuint32, Sc::vu32> {
    static void from_wire(eosio::varuint32& v, const Bytes& w) { size_t p = 0; v.value = uint32_t(get_varuint(w, p)); }
    static Bytes to_wire(const eosio::varuint32& v) { Bytes w; put_varuint(w, v.value); return w; }
    static int cmp(const eosio::varuint32& a, const eosio::varuint32& b) { return cmp3(a.value, b.value); }
    static void perturb(G& g, eosio::varuint32& v) {
        switch (g.s.below(3)) {
        case 0: gen(g, v); break;
        case 1: v.value += g.s.flip() ? 1 : -1; break;
        default: v.value = (1u << g.s.pick({7, 14, 21, 28, 8, 16, 24, 31})) + uint32_t(g.s.range(-2, 2));
        }
    }
};
template <> struct N<eosio::varint32> : ScalarN<eosio::varint32, Sc::vi32> {
    static void from_wire(eosio::varint32& v, const Bytes& w) { v.value = int32_t(int_value(Sc::vi32, w)); }
    static Bytes to_wire(const eosio::varint32& v) { Bytes w; put_varuint(w, zigzag(v.value)); return w; }
    static int cmp(const eosio::varint32& a, const eosio::varint32& b) { return cmp3(a.value, b.value); }
};
template <> struct N<eosio::asset> : ScalarN<eosio::asset, Sc::asset> {
    static void from_wire(eosio::asset& v, const Bytes& w) { v.amount = int64_t(get_le(w, 0, 8)); v.symbol.value = uint64_t(get_le(w, 8, 8)); }
    static Bytes to_wire(const eosio::asset& v) { Bytes w; put_le(w, u128(v.amount), 8); put_le(w, v.symbol.value, 8); return w; }
    static int cmp(const eosio::asset& a, const eosio::asset& b) { int r = cmp3(a.amount, b.amount); return r ? r : cmp3(a.symbol.value, b.symbol.value); }
};
// big-endian bytes of a fixed_bytes value, read word by word
template <size_t S, class W> Bytes fb_bytes(const eosio::fixed_bytes<S, W>& v) {
    Bytes b;
    for (size_t i = 0; i < S; ++i) b += char(uint8_t(v.value[i / sizeof(W)] >> (8 * (sizeof(W) - 1 - i % sizeof(W)))));
    return b;
}
template <size_t S, class W> void fb_set(eosio::fixed_bytes<S, W>& v, const Bytes& b) {
    for (auto& w : v.value) w = 0;
    for (size_t i = 0; i < S; ++i) v.value[i / sizeof(W)] |= W(uint8_t(b[i])) << (8 * (sizeof(W) - 1 - i % sizeof(W)));
}
template <size_t S, class W> struct N<eosio::fixed_bytes<S, W>> {
    using T = eosio::fixed_bytes<S, W>;
    static void gen(G& g, T& v) {
        --g.budget;
        Bytes b;
        int mode = int(g.s.below(4));
        for (size_t i = 0; i < S; ++i) b += mode == 0 ? char(g.s.below(2)) : mode == 1 ? char(255 - g.s.below(2)) : char(g.s.byte());
        fb_set(v, b);
    }
    static void enc(Bytes& b, const T& v) { b += fb_bytes(v); }
    static int cmp(const T& a, const T& b) { auto x = fb_bytes(a), y = fb_bytes(b); int r = memcmp(x.data(), y.data(), S); return r < 0 ? -1 : r > 0; }
    static void perturb(G& g, T& v) { auto b = fb_bytes(v); b[g.s.below(S)] ^= char(1 << g.s.below(8)); fb_set(v, b); }
    static std::string chk(const T& v, const J& j) { return j.k == J::str && j.s == pbt::hexs(fb_bytes(v)) ? "" : "fixed_bytes: got " + j.s + " expected " + pbt::hexs(fb_bytes(v)); }
};
// keys: variants of byte arrays and a WebAuthn struct
template <size_t K> Bytes arr_bytes(const std::array<char, K>& a) { return Bytes(a.data(), K); }
template <class T, Sc K> struct KeyN : ScalarN<T, K> {
    template <class V> static void take(V& v, const Bytes& w, size_t& p) {
        if constexpr (std::is_same_v<V, eosio::webauthn_public_key>) {
            take(v.key, w, p);
            v.user_presence = eosio::webauthn_public_key::user_presence_t(w[p++]);
            size_t n = get_varuint(w, p);
            v.rpid = w.substr(p, n);
        } else if constexpr (std::is_same_v<V, eosio::webauthn_signature>) {
            take(v.compact_signature, w, p);
            size_t n = get_varuint(w, p);
            v.auth_data.assign(w.begin() + p, w.begin() + p + n);
            p += n;
            n = get_varuint(w, p);
            v.client_json = w.substr(p, n);
        } else {
            memcpy(v.data(), w.data() + p, v.size());
            p += v.size();
        }
    }
    template <size_t I = 0> static void from_wire(T& v, const Bytes& w) {
        if (size_t(uint8_t(w[0])) == I) { size_t p = 1; take(v.template emplace<I>(), w, p); }
        else if constexpr (I + 1 < std::variant_size_v<T>) from_wire<I + 1>(v, w);
    }
    template <class V> static void put(Bytes& b, const V& v) {
        if constexpr (std::is_same_v<V, eosio::webauthn_public_key>) {
            b += arr_bytes(v.key); b += char(v.user_presence); put_varuint(b, v.rpid.size()); b += v.rpid;
        } else if constexpr (std::is_same_v<V, eosio::webauthn_signature>) {
            b += arr_bytes(v.compact_signature); put_varuint(b, v.auth_data.size()); b.append((const char*)v.auth_data.data(), v.auth_data.size());
            put_varuint(b, v.client_json.size()); b += v.client_json;
        } else b += arr_bytes(v);
    }
    static Bytes to_wire(const T& v) { Bytes b(1, char(v.index())); std::visit([&](auto& x) { put(b, x); }, v); return b; }
    static int sc(const Bytes& a, const Bytes& b) {  // arrays of (signed) char
        for (size_t i = 0; i < a.size() && i < b.size(); ++i) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
        return cmp3(a.size(), b.size());
    }
    static int cv(const eosio::webauthn_public_key& a, const eosio::webauthn_public_key& b) {
        if (int r = sc(arr_bytes(a.key), arr_bytes(b.key))) return r;
        if (a.user_presence != b.user_presence) return a.user_presence < b.user_presence ? -1 : 1;
        return nat::cmp(a.rpid, b.rpid);
    }
    static int cv(const eosio::webauthn_signature& a, const eosio::webauthn_signature& b) {
        if (int r = sc(arr_bytes(a.compact_signature), arr_bytes(b.compact_signature))) return r;
        if (a.auth_data != b.auth_data) return a.auth_data < b.auth_data ? -1 : 1;
        return nat::cmp(a.client_json, b.client_json);
    }
    template <size_t M> static int cv(const std::array<char, M>& a, const std::array<char, M>& b) { return sc(arr_bytes(a), arr_bytes(b)); }
    template <size_t I = 0> static int cmp(const T& a, const T& b) {
        if (a.index() != b.index()) return a.index() < b.index() ? -1 : 1;
        if (a.index() == I) return cv(std::get<I>(a), std::get<I>(b));
        if constexpr (I + 1 < std::variant_size_v<T>) return cmp<I + 1>(a, b);
        return 0;
    }
    static void perturb(G& g, T& v) {
        Bytes w = to_wire(v);
        if (g.s.chance(1, 3)) return KeyN::gen(g, v);
        w[1 + g.s.below(32)] ^= char(1 << g.s.below(8));
        from_wire(v, w);
    }
};
template <> struct N<eosio::public_key> : KeyN<eosio::public_key, Sc::pub> {};
template <> struct N<eosio::private_key> : KeyN<eosio::private_key, Sc::pvt> {};
template <> struct N<eosio::signature> : KeyN<eosio::signature, Sc::sig> {};

// ---- containers
template <class T> struct SeqN {
    using E = typename T::value_type;
    static void gen(G& g, T& v) {
        v.clear();
        ++g.depth;
        size_t n = g.count(300);
        g.budget -= int(n);
        for (size_t i = 0; i < n; ++i) { E e{}; nat::gen(g, e); v.push_back(e); }
        --g.depth;
    }
    static void enc(Bytes& b, const T& v) { put_varuint(b, v.size()); for (auto& e : v) nat::enc(b, e); }
    static int cmp(const T& a, const T& b) {
        auto i = a.begin(), j = b.begin();
        for (; i != a.end() && j != b.end(); ++i, ++j) if (int r = nat::cmp(*i, *j)) return r;
        return i == a.end() ? (j == b.end() ? 0 : -1) : 1;
    }
    static void perturb(G& g, T& v) {
        switch (v.empty() ? g.s.below(2) : g.s.below(6)) {
        case 0: gen(g, v); break;
        case 1: { E e{}; if (g.s.flip()) nat::gen(g, e); v.push_back(e); break; }
        case 2: v.pop_back(); break;
        default: { auto it = v.begin(); std::advance(it, g.s.below(v.size())); nat::perturb(g, *it); }
        }
    }
    static std::string chk(const T& v, const J& j) {
        if (j.k != J::arr) return "expected an array";
        if (j.a.size() != v.size()) return "array of " + std::to_string(j.a.size()) + ", expected " + std::to_string(v.size());
        size_t i = 0;
        for (auto& e : v) { auto r = nat::chk(e, j.a[i]); if (!r.empty()) return "[" + std::to_string(i) + "]" + r; ++i; }
        return "";
    }
};
template <class T> struct N<std::vector<T>> : SeqN<std::vector<T>> {};
template <class T> struct N<std::list<T>> : SeqN<std::list<T>> {};
template <class T> struct N<std::deque<T>> : SeqN<std::deque<T>> {};
template <class T> struct AssocN {
    static void gen(G& g, T& v) {
        v.clear();
        ++g.depth;
        size_t n = g.count(40);
        g.budget -= int(n);
        for (size_t i = 0; i < n; ++i) add(g, v);
        --g.depth;
    }
    static void add(G& g, T& v) {
        if constexpr (is_map()) { typename T::key_type k{}; nat::gen(g, k); typename T::mapped_type m{}; nat::gen(g, m); v[k] = m; }
        else { typename T::key_type k{}; nat::gen(g, k); v.insert(k); }
    }
    template <class U> static auto mapped(int) -> typename U::mapped_type;
    template <class U> static auto mapped(long) -> void;
    static constexpr bool is_map() { return !std::is_void_v<decltype(mapped<T>(0))>; }
    static void one(Bytes& b, const typename T::value_type& e) {
        if constexpr (is_map()) { nat::enc(b, e.first); nat::enc(b, e.second); } else nat::enc(b, e);
    }
    static void enc(Bytes& b, const T& v) { put_varuint(b, v.size()); for (auto& e : v) one(b, e); }
    static int cmp(const T& a, const T& b) {
        auto i = a.begin(), j = b.begin();
        for (; i != a.end() && j != b.end(); ++i, ++j) {
            if constexpr (is_map()) {
                if (int r = nat::cmp(i->first, j->first)) return r;
                if (int r = nat::cmp(i->second, j->second)) return r;
            } else if (int r = nat::cmp(*i, *j)) return r;
        }
        return i == a.end() ? (j == b.end() ? 0 : -1) : 1;
    }
    static void perturb(G& g, T& v) {
        switch (v.empty() ? 0 : g.s.below(4)) {
        case 0: add(g, v); break;
        case 1: v.erase(std::prev(v.end())); break;
        case 2: v.erase(v.begin()); break;
        default: if constexpr (is_map()) { auto it = v.begin(); std::advance(it, g.s.below(v.size())); nat::perturb(g, it->second); } else add(g, v);
        }
    }
};
template <class T> struct N<std::set<T>> : AssocN<std::set<T>> {};
template <class K, class V> struct N<std::map<K, V>> : AssocN<std::map<K, V>> {};
template <class T> struct N<std::optional<T>> {
    using O = std::optional<T>;
    static void gen(G& g, O& v) { v.reset(); if (g.budget > 0 && g.depth < 8 && g.s.chance(2, 3)) { ++g.depth; nat::gen(g, v.emplace()); --g.depth; } }
    static void enc(Bytes& b, const O& v) { b += char(bool(v)); if (v) nat::enc(b, *v); }
    static int cmp(const O& a, const O& b) { return a && b ? nat::cmp(*a, *b) : int(bool(a)) - int(bool(b)); }
    static void perturb(G& g, O& v) { if (v && g.s.chance(3, 4)) nat::perturb(g, *v); else if (v) v.reset(); else { v.emplace(); if (g.s.flip()) nat::gen(g, *v); } }
    static std::string chk(const O& v, const J& j) { return v ? nat::chk(*v, j) : j.k == J::null ? "" : "expected null"; }
};
template <class... T> struct N<std::variant<T...>> {
    using V = std::variant<T...>;
    template <size_t I = 0> static void gen_i(G& g, V& v, size_t i) {
        if (i == I) { nat::gen(g, v.template emplace<I>()); return; }
        if constexpr (I + 1 < sizeof...(T)) gen_i<I + 1>(g, v, i);
    }
    static void gen(G& g, V& v) { ++g.depth; gen_i(g, v, g.budget <= 0 ? 0 : g.s.below(sizeof...(T))); --g.depth; }
    static void enc(Bytes& b, const V& v) { put_varuint(b, v.index()); std::visit([&](auto& x) { nat::enc(b, x); }, v); }
    template <size_t I = 0> static int cmp(const V& a, const V& b) {
        if (a.index() != b.index()) return a.index() < b.index() ? -1 : 1;
        if (a.index() == I) return nat::cmp(std::get<I>(a), std::get<I>(b));
        if constexpr (I + 1 < sizeof...(T)) return cmp<I + 1>(a, b);
        return 0;
    }
    static void perturb(G& g, V& v) { if (g.s.chance(1, 3)) gen(g, v); else std::visit([&](auto& x) { nat::perturb(g, x); }, v); }
    static std::string chk(const V& v, const J& j) {
        if (j.k != J::arr || j.a.size() != 2 || j.a[0].k != J::str) return "expected [type, value]";
        return std::visit([&](auto& x) -> std::string {
            using X = std::decay_t<decltype(x)>;
            if (j.a[0].s != tn<X>()) return "variant tag " + j.a[0].s;
            return nat::chk(x, j.a[1]);
        }, v);
    }
};
template <class T> struct TupN {
    static void gen(G& g, T& v) { std::apply([&](auto&... x) { (nat::gen(g, x), ...); }, v); }
    static void enc(Bytes& b, const T& v) { std::apply([&](auto&... x) { (nat::enc(b, x), ...); }, v); }
    template <size_t I = 0> static int cmp(const T& a, const T& b) {
        if constexpr (I < std::tuple_size_v<T>) { if (int r = nat::cmp(std::get<I>(a), std::get<I>(b))) return r; return cmp<I + 1>(a, b); }
        return 0;
    }
    template <size_t I = 0> static void pert_i(G& g, T& v, size_t i) {
        if constexpr (I < std::tuple_size_v<T>) { if (i == I) nat::perturb(g, std::get<I>(v)); else pert_i<I + 1>(g, v, i); }
    }
    static void perturb(G& g, T& v) { if (std::tuple_size_v<T>) pert_i(g, v, g.s.below(std::tuple_size_v<T>)); }
};
template <class... T> struct N<std::tuple<T...>> : TupN<std::tuple<T...>> {};
template <class A, class B> struct N<std::pair<A, B>> : TupN<std::pair<A, B>> {};
template <class T, size_t K> struct N<std::array<T, K>> : TupN<std::array<T, K>> {
    using A = std::array<T, K>;
    static void gen(G& g, A& v) { for (auto& x : v) nat::gen(g, x); }
};
template <class T, size_t K> struct N<T[K]> {
    using A = T[K];
    static void gen(G& g, A& v) { for (auto& x : v) nat::gen(g, x); }
    static void enc(Bytes& b, const A& v) { put_varuint(b, K); for (auto& x : v) nat::enc(b, x); }
    static int cmp(const A& a, const A& b) { for (size_t i = 0; i < K; ++i) if (int r = nat::cmp(a[i], b[i])) return r; return 0; }
    static void perturb(G& g, A& v) { nat::perturb(g, v[g.s.below(K)]); }
};
// described structs
template <class T> struct N<T, std::enable_if_t<Desc<T>::ok>> {
    using D = Desc<T>;
    static void gen(G& g, T& v) { ++g.depth; auto t = D::tie(v); std::apply([&](auto&... x) { (nat::gen(g, x), ...); }, t); --g.depth; }
    static void enc(Bytes& b, const T& v) { auto t = D::tie(v); std::apply([&](auto&... x) { (nat::enc(b, x), ...); }, t); }
    static int cmp(const T& a, const T& b) { auto x = D::tie(a), y = D::tie(b); return cmp_i<0>(x, y); }
    template <size_t I, class X> static int cmp_i(X& a, X& b) {
        if constexpr (I < std::tuple_size_v<X>) { if (int r = nat::cmp(std::get<I>(a), std::get<I>(b))) return r; return cmp_i<I + 1>(a, b); }
        return 0;
    }
    template <size_t I, class X> static void pert_i(G& g, X& t, size_t i) {
        if constexpr (I < std::tuple_size_v<X>) { if (i == I) nat::perturb(g, std::get<I>(t)); else pert_i<I + 1>(g, t, i); }
    }
    static constexpr size_t size() { return std::tuple_size_v<decltype(D::tie(std::declval<T&>()))>; }
    static void perturb(G& g, T& v) { auto t = D::tie(v); pert_i<0>(g, t, g.s.below(size())); }
    template <size_t I, class X> static std::string chk_i(const X& t, const J& j) {
        if constexpr (I < std::tuple_size_v<X>) {
            if (j.o[I].first != D::names()[I]) return "." + j.o[I].first + " (expected " + D::names()[I] + ")";
            auto r = nat::chk(std::get<I>(t), j.o[I].second);
            if (!r.empty()) return "." + j.o[I].first + ": " + r;
            return chk_i<I + 1>(t, j);
        } else return "";
    }
    static std::string chk(const T& v, const J& j) {
        if (j.k != J::obj) return "expected an object";
        if (j.o.size() != size()) return "object of " + std::to_string(j.o.size()) + " members";
        auto t = D::tie(v);
        return chk_i<0>(t, j);
    }
};
template <class T> bool same(const T& a, const T& b) { return wire(a) == wire(b); }
template <class T> std::string show(const T& v) { auto b = wire(v); return pbt::hexs(b); }
inline std::string str(const std::vector<char>& v) { return std::string(v.begin(), v.end()); }

// parse the whole text; returns false and the message when the library throws
template <class T> bool read_json(T& v, std::string text, std::string* err = nullptr) {
    std::vector<char> buf(text.begin(), text.end());
    buf.insert(buf.end(), 4, 0);  // as abi.cpp does: a cut multi-byte character may be looked at past the first NUL
    buf.shrink_to_fit();
    try {
        eosio::json_token_stream st(buf.data());
        using eosio::from_json;
        from_json(v, st);
        st.get_end();
        return true;
    } catch (std::exception& e) {
        if (err) *err = e.what();
        return false;
    }
}
}  // namespace nat

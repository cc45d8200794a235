// Built-in scalars: JSON text accepted exactly when inside the type's range, and stored exactly.
#include "capi.hpp"
#include <eosio/bytes.hpp>
#include <eosio/chain_conversions.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/float.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/varint.hpp>
using namespace ref;

static Ctx& ctx() {
    static Ctx* x = [] { auto p = new Ctx; p->set_abi(CONTRACT, "{\"version\":\"eosio::abi/1.0\",\"structs\":[{\"name\":\"none\",\"base\":\"\",\"fields\":[]}]}"); return p; }();
    return *x;
}
// native conversion of one JSON text through T
template <class T> static bool native(const std::string& json, Bytes& out) {
    std::string j = json;
    j.append(3, '\0');
    try {
        eosio::json_token_stream st(j.data());
        T v{};
        from_json(v, st);
        st.get_end();
        auto b = eosio::convert_to_bin(v);
        out.assign(b.begin(), b.end());
        return true;
    } catch (std::exception&) { return false; }
}
static bool native_any(Sc k, const std::string& j, Bytes& o) {
    switch (k) {
    case Sc::i8: return native<int8_t>(j, o);
    case Sc::u8: return native<uint8_t>(j, o);
    case Sc::i16: return native<int16_t>(j, o);
    case Sc::u16: return native<uint16_t>(j, o);
    case Sc::i32: return native<int32_t>(j, o);
    case Sc::u32: return native<uint32_t>(j, o);
    case Sc::i64: return native<int64_t>(j, o);
    case Sc::u64: return native<uint64_t>(j, o);
    case Sc::i128_: return native<__int128>(j, o);
    case Sc::u128_: return native<unsigned __int128>(j, o);
    case Sc::vi32: return native<eosio::varint32>(j, o);
    case Sc::vu32: return native<eosio::varuint32>(j, o);
    case Sc::f128: return native<eosio::float128>(j, o);
    case Sc::c160: return native<eosio::checksum160>(j, o);
    case Sc::c256: return native<eosio::checksum256>(j, o);
    case Sc::c512: return native<eosio::checksum512>(j, o);
    case Sc::bytes: return native<eosio::bytes>(j, o);
    case Sc::bool_: return native<bool>(j, o);
    default: return false;
    }
}
static void expect(pbt::Case& c, Sc k, const std::string& json, bool ok, const Bytes& wire) {
    c.key(sc_name(k));
    c.key(json);
    c.note("type", [&] { return std::string(sc_name(k)); });
    c.note("json", [&] { return json; });
    c.label(ok ? "accept" : "reject");
    for (int mode = 0; mode < 3; ++mode) {
        static const char* mn[] = {"ordered", "reorderable", "native"};
        Bytes out;
        bool got = mode < 2 ? ctx().j2b(CONTRACT, sc_name(k), json, mode, out) : native_any(k, json, out);
        if (got != ok) c.fail(std::string(mn[mode]) + (got ? "-accepted" : "-rejected"), std::string(sc_name(k)) + (got ? " accepted " : " rejected ") + json);
        if (ok && out != wire) c.fail(std::string(mn[mode]) + "-value", std::string(sc_name(k)) + " " + json + ": " + diff(out, wire));
    }
}
// exact decimal reading: does text denote an integer of kind k
static bool int_oracle(Sc k, const std::string& t, Bytes& wire) {
    auto in = int_info(k);
    size_t p = 0;
    bool neg = false;
    if (in.sgn && p < t.size() && t[p] == '-') { neg = true; ++p; }
    if (p == t.size()) return false;
    for (size_t i = p; i < t.size(); ++i) if (t[i] < '0' || t[i] > '9') return false;
    while (p < t.size() && t[p] == '0') ++p;
    std::string d = t.substr(p);
    u128 lim = in.sgn ? (((u128)1 << (in.bits - 1)) - (neg ? 0 : 1)) : (in.bits == 128 ? ~(u128)0 : (((u128)1 << in.bits) - 1));
    std::string ls = pbt::to_s(lim);
    if (d.empty()) d = "0";
    if (d.size() > ls.size() || (d.size() == ls.size() && d > ls)) return false;
    u128 v = 0;
    for (char ch : d) v = v * 10 + unsigned(ch - '0');
    wire = int_wire(k, neg ? -v : v);
    return true;
}
static std::string dec_add(std::string d, int delta) {  // non-negative decimal + small delta
    int i = int(d.size()) - 1;
    int carry = delta;
    while (i >= 0 && carry) {
        int v = d[i] - '0' + carry;
        carry = 0;
        while (v < 0) { v += 10; --carry; }
        while (v > 9) { v -= 10; ++carry; }
        d[i--] = char('0' + v);
    }
    if (carry > 0) d = std::to_string(carry) + d;
    if (carry < 0) return "0";
    size_t z = 0;
    while (z + 1 < d.size() && d[z] == '0') ++z;
    return d.substr(z);
}
static const Sc ints[] = {Sc::i8, Sc::u8, Sc::i16, Sc::u16, Sc::i32, Sc::u32, Sc::i64, Sc::u64, Sc::i128_, Sc::u128_, Sc::vi32, Sc::vu32};
PROP(ints, 8) {
    auto& s = c.s;
    Sc k = ints[s.below(12)];
    std::string t;
    auto lim = [&](int bits) { return bits == 128 ? std::string("340282366920938463463374607431768211456") : pbt::to_s((u128)1 << bits); };
    bool neg = false;
    switch (s.below(6)) {
    case 0: {  // around a power of two
        static const int bs[] = {7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 35, 33};
        auto in = int_info(k);
        int b = s.flip() ? in.bits - int(s.below(2)) : bs[s.below(12)];
        t = dec_add(lim(b), int(s.range(-12, 12)));
        neg = s.flip();
        break;
    }
    case 1: {  // the limit with its last digits or length changed
        auto in = int_info(k);
        t = dec_add(lim(in.sgn ? in.bits - 1 : in.bits), -int(s.below(2)));
        size_t i = s.below(t.size());
        if (s.flip()) t[i] = char('0' + s.below(10));
        else if (s.flip()) t += char('0' + s.below(10));
        else t.insert(0, 1, char('1' + s.below(9)));
        neg = s.flip();
        break;
    }
    case 2: {  // random digits, lengths up to 45
        for (size_t n = 1 + s.below(s.flip() ? 45 : 5); n--;) t += char('0' + s.below(10));
        neg = s.chance(1, 3);
        break;
    }
    case 3: t = int_text(k, gen_scalar(k, s)); break;
    case 4: {  // a value of another kind
        Sc o = ints[s.below(12)];
        t = int_text(o, gen_scalar(o, s));
        break;
    }
    default: {  // not an integer
        t = int_text(k, gen_scalar(k, s));
        static const char* bad[] = {"+", " ", ".", "e", "-", "x", "0x", ",", "_", "\t", "a", "/", ":", ".0", "e0", "E1"};
        size_t at = s.below(t.size() + 1);
        if (s.chance(1, 8)) t = s.flip() ? "" : "-";
        else t.insert(at, bad[s.below(16)]);
    }
    }
    if (neg) t = "-" + t;
    if (s.chance(1, 6)) t.insert(t[0] == '-' ? 1 : 0, std::string(1 + s.below(s.chance(1, 5) ? 60 : 3), '0'));
    Bytes w;
    bool ok = int_oracle(k, t, w);
    J p;
    std::string e;
    bool bare = s.flip() && parse_json(t, p, e) && p.k == J::num && p.s == t;
    std::string j = bare ? t : json_str(t);
    c.nontrivial();
    if (bare) c.label("bare");
    expect(c, k, j, ok, w);
}
PROP(not_numbers, 2) {  // other JSON kinds offered to an integer
    static const char* js[] = {"true", "false", "null", "{}", "[]", "[1]", "\"true\"", "\"null\"", "1.0", "1e2", "1.5", "\"0x10\"", "\"Infinity\"", "-0.0"};
    Sc k = ints[c.s.below(12)];
    c.nontrivial();
    expect(c, k, js[c.s.below(14)], false, "");
}
PROP(bools, 1) {
    static const char* js[] = {"true", "false", "null", "{}", "[]", "0", "1", "\"true\"", "\"false\"", "\"\"", "2", "\"1\"", "[true]", "{\"a\":true}"};
    size_t i = c.s.below(14);
    c.nontrivial();
    expect(c, Sc::bool_, js[i], i < 2, Bytes(1, char(i == 0)));
}
PROP(hex, 4) {
    auto& s = c.s;
    static const Sc ks[] = {Sc::f128, Sc::c160, Sc::c256, Sc::c512, Sc::bytes};
    static const int sz[] = {16, 20, 32, 64, -1};
    size_t i = s.below(5);
    Sc k = ks[i];
    Bytes raw;
    size_t n = sz[i] < 0 ? s.size(140) : size_t(sz[i]);
    int bm = int(s.below(3));
    if (bm == 1) n += size_t(s.range(-2, 2)) + 0;
    if (bm == 2 && s.flip()) n = s.size(140);
    if (int64_t(n) < 0) n = 0;
    for (size_t q = 0; q < n; ++q) raw += char(s.byte());
    std::string t = hex_any(s, raw);
    switch (s.below(5)) {
    case 0: if (!t.empty()) t.pop_back(); break;
    case 1: if (!t.empty()) t[s.below(t.size())] = "gG xX-.:/@`\x01~"[s.below(13)]; break;
    case 2: if (s.chance(1, 3)) t.insert(0, "0x"); break;
    }
    Bytes b, w;
    bool ok = unhex(t, b);
    if (sz[i] >= 0) { ok = ok && b.size() == size_t(sz[i]); w = b; }
    else { put_varuint(w, b.size()); w += b; }
    c.nontrivial();
    expect(c, k, json_str(t), ok, w);
}
PROP(other_kinds, 1) {  // non-string JSON for text-like scalars
    static const char* js[] = {"true", "false", "null", "{}", "[]", "[\"a\"]", "{\"data\":\"00\"}"};
    Sc k = Sc(int(Sc::f32) + int(c.s.below(int(Sc::COUNT) - int(Sc::f32))));
    const char* j = js[c.s.below(7)];
    c.key(sc_name(k));
    c.key(j);
    c.nontrivial();
    c.note("type", [&] { return std::string(sc_name(k)); });
    c.note("json", [&] { return std::string(j); });
    for (int r = 0; r < 2; ++r) {
        Bytes o;
        if (ctx().j2b(CONTRACT, sc_name(k), j, r, o)) c.fail("kind-accepted", std::string(sc_name(k)) + " accepted " + j);
    }
}

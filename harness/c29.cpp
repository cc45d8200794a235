// The build without compiler 128-bit integers against the ordinary one.
#include "capi.hpp"
#include "c29.hpp"
#include <eosio/from_json.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/from_bin.hpp>
using namespace ref;
extern "C" {
struct n_abieos_context_s;
typedef n_abieos_context_s NC;
NC* n_abieos_create();
void n_abieos_destroy(NC*);
const char* n_abieos_get_error(NC*);
int n_abieos_get_bin_size(NC*);
const char* n_abieos_get_bin_data(NC*);
abieos_bool n_abieos_set_abi(NC*, uint64_t, const char*);
abieos_bool n_abieos_json_to_bin(NC*, uint64_t, const char*, const char*);
abieos_bool n_abieos_json_to_bin_reorderable(NC*, uint64_t, const char*, const char*);
const char* n_abieos_bin_to_json(NC*, uint64_t, const char*, const char*, size_t);
const char* n_abieos_hex_to_json(NC*, uint64_t, const char*, const char*);
}

namespace {
struct NCtx {
    NC* c = n_abieos_create();
    ~NCtx() { n_abieos_destroy(c); }
    std::string error() { return n_abieos_get_error(c); }
    bool j2b(const std::string& type, const std::string& json, bool reorder, std::string& out) {
        bool ok = reorder ? n_abieos_json_to_bin_reorderable(c, CONTRACT, type.c_str(), json.c_str()) : n_abieos_json_to_bin(c, CONTRACT, type.c_str(), json.c_str());
        if (ok) { int n = n_abieos_get_bin_size(c); out = n ? std::string(n_abieos_get_bin_data(c), size_t(n)) : ""; }
        return ok;
    }
    bool b2j(const std::string& type, const std::string& b, std::string& out) {
        std::vector<char> x(b.begin(), b.end());
        x.shrink_to_fit();
        const char* r = n_abieos_bin_to_json(c, CONTRACT, type.c_str(), x.data(), x.size());
        if (r) out = r;
        return r;
    }
};
void same_j2b(pbt::Case& c, Ctx& a, NCtx& b, const std::string& type, const std::string& json) {
    for (int r = 0; r < 2; ++r) {
        std::string x, y;
        bool o1 = a.j2b(CONTRACT, type, json, r, x), o2 = b.j2b(type, json, r, y);
        std::string mode = r ? "reorderable" : "ordered";
        if (o1 != o2) c.fail("json-acceptance", mode + ": the build without 128-bit integers " + (o2 ? "accepts " : "rejects ") + json + " as " + type + (o2 ? "" : " (" + b.error() + ")"));
        if (o1 && x != y) c.fail("json-to-bin", mode + " " + json + " as " + type + ": " + diff(y, x));
    }
}
std::string same_b2j(pbt::Case& c, Ctx& a, NCtx& b, const std::string& type, const std::string& bin) {
    std::string x, y;
    bool o1 = a.b2j(CONTRACT, type, bin, x), o2 = b.b2j(type, bin, y);
    if (o1 != o2) c.fail("bin-acceptance", "the build without 128-bit integers " + std::string(o2 ? "accepts " : "rejects ") + pbt::hexs(bin) + " as " + type);
    if (o1 && x != y) c.fail("bin-to-json", type + " " + pbt::hexs(bin) + ": " + y + " instead of " + x);
    return x;
}
u128 gen_u128(pbt::Source& s) {
    switch (s.below(4)) {
    case 0: return s.uint_bits(128);
    case 1: return (u128(s.u64()) << 64) | s.u64();
    case 2: { u128 v = 1; for (size_t n = s.below(39); n; --n) v *= 10; return v + u128(s.below(3)) - 1; }
    default: { u128 v = u128(1) << s.below(128); return v + u128(s.below(3)) - 1; }
    }
}
std::string dec_text(u128 v) { std::string r; do { r.insert(r.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return r; }
// the spelling of an integer, in or out of range, or nearly one
std::string gen_number(pbt::Source& s) {
    std::string t = dec_text(gen_u128(s));
    if (s.chance(1, 3)) t.insert(0, "-");
    if (s.chance(1, 10)) t += char('0' + s.below(10));
    if (s.chance(1, 8)) t.insert(t[0] == '-' ? 1 : 0, s.below(4) + 1, '0');
    if (s.chance(1, 8)) {
        static const char* const odd[] = {"", "-", "-0", "00", "--1", "+1", " 1", "1 ", "1.0", "1e3", "0x10", "-00", "1-", "340282366920938463463374607431768211456", "340282366920938463463374607431768211455", "-170141183460469231731687303715884105728", "-170141183460469231731687303715884105729", "170141183460469231731687303715884105728", "\\u0031", "1\\u0000"};
        t = odd[s.below(20)];
    }
    if (s.chance(1, 12) && t.size()) t[s.below(t.size())] = "x9-. \x7f"[s.below(6)];
    return t;
}
std::string native_json(bool sgn, const std::string& json, bool& ok, std::string& wire) {
    std::vector<char> buf(json.begin(), json.end());
    buf.insert(buf.end(), 4, 0);
    buf.shrink_to_fit();
    std::string text;
    auto go = [&](auto v) {
        eosio::json_token_stream st(buf.data());
        eosio::from_json(v, st);
        st.get_end();
        auto w = eosio::convert_to_bin(v);
        wire.assign(w.begin(), w.end());
        text = eosio::convert_to_json(v);
    };
    ok = true;
    try { if (sgn) go((__int128)0); else go((unsigned __int128)0); } catch (std::exception&) { ok = false; }
    return text;
}
}  // namespace

PROP(numbers, 6) {
    auto& s = c.s;
    std::string abi = R"({"version":"eosio::abi/1.1","types":[{"new_type_name":"big","type":"uint128"}],"structs":[{"name":"st","base":"","fields":[{"name":"a","type":"int128"},{"name":"b","type":"big[]"},{"name":"c","type":"int128?"},{"name":"v","type":"var"},{"name":"e","type":"uint128$"}]}],"variants":[{"name":"var","types":["uint128","int128","big","int32"]}]})";
    Ctx a;
    NCtx b;
    if (!a.set_abi(CONTRACT, abi) || !n_abieos_set_abi(b.c, CONTRACT, abi.c_str())) c.fail("abi", a.error() + b.error());
    auto num = [&] {
        std::string t = gen_number(s);
        c.key(t);
        if (t.size() > 20) c.nontrivial();
        bool bare = s.chance(1, 5) && t.size() && t.size() < 200 && t.find_first_not_of("-0123456789") == std::string::npos;
        return bare ? t : "\"" + t + "\"";
    };
    std::string n = num();
    c.note("number", [&] { return n; });
    for (int sgn = 0; sgn < 2; ++sgn) {
        same_j2b(c, a, b, sgn ? "int128" : "uint128", n);
        bool ok;
        std::string w1, w2, t2, t1 = native_json(sgn, n, ok, w1);
        bool ok2 = no128::native(sgn, n, w2, t2);
        if (ok != ok2) c.fail("native-acceptance", "the build without 128-bit integers " + std::string(ok2 ? "accepts " : "rejects ") + n);
        if (ok && (w1 != w2 || t1 != t2)) c.fail("native", n + " becomes " + t2 + " " + pbt::hexs(w2) + " instead of " + t1);
    }
    std::string j;
    static const char* const alt[] = {"uint128", "int128", "big", "int32"};
    j = "{\"a\":" + num() + ",\"b\":[";
    for (size_t k = s.below(3), i = 0; i < k; ++i) j += (i ? "," : "") + num();
    j += "],\"c\":" + (s.flip() ? num() : "null") + ",\"v\":[\"" + alt[s.below(4)] + "\"," + num() + "]" + (s.flip() ? ",\"e\":" + num() : "") + "}";
    same_j2b(c, a, b, "st", j);
    Bytes w;
    for (int i = 0; i < 16; ++i) w += char(s.byte());
    if (s.chance(1, 10)) w.resize(s.below(16));
    if (s.flip()) { w.clear(); put_le(w, gen_u128(s), 16); }
    c.key(w);
    same_b2j(c, a, b, "uint128", w);
    same_b2j(c, a, b, "int128", w);
    same_b2j(c, a, b, "uint128?", Bytes(1, char(s.below(2))) + w);
    Bytes v = Bytes(1, char(s.below(5))) + w;
    same_b2j(c, a, b, "var", v);
    Bytes st = w + Bytes(1, char(s.below(3))) + w + w + Bytes(1, char(s.below(2))) + w + v + (s.flip() ? w : "");
    same_b2j(c, a, b, "st", st);
}
PROP(helpers, 3) {  // the arithmetic behind it
    auto& s = c.s;
    u128 v = gen_u128(s);
    no128::Bits b, z;
    for (int i = 0; i < 16; ++i) b[i] = uint8_t(v >> (8 * i));
    std::string t = dec_text(v);
    c.key(t);
    c.note("value", [&] { return t; });
    if (v >> 64) c.nontrivial();
    if (no128::dec(b) != t) c.fail("to-decimal", no128::dec(b) + " instead of " + t);
    z.fill(0x77);
    if (!no128::bin(std::string(s.below(3), '0') + t, z) || z != b) c.fail("from-decimal", t);
    if (no128::is_neg(b) != bool(v >> 127)) c.fail("sign", t);
    z = b;
    no128::neg(z);
    u128 m = 0 - v;
    for (int i = 0; i < 16; ++i) if (z[i] != uint8_t(m >> (8 * i))) c.fail("negate", t);
    // one digit too many
    std::string big = t + char('0' + s.below(10));
    u128 d = u128(big.back() - '0');
    bool fits = v <= (~u128(0) - d) / 10;
    if (no128::bin(big, z) != fits) c.fail("range", big);
}
PROP(everything, 5) {  // any ABI and value
    auto& s = c.s;
    AbiOpts o;
    o.wide_variants = false;
    auto bc = build_case(c, o);
    bool bare = false;
    for (size_t i = bc.m.first_user; i < bc.m.defs.size(); ++i) bare |= bc.m.defs[i].k == Def::struct_ && !bc.m.nonempty(TR{int(i)});
    Ctx a;
    NCtx b;
    load(c, a, bc);
    if (!n_abieos_set_abi(b.c, CONTRACT, bc.abi_json.c_str())) c.fail("abi", b.error());
    std::string j = same_b2j(c, a, b, bc.type, bc.wire);
    if (j.empty()) c.fail("rejected", "the wire form is rejected: " + a.error());
    same_j2b(c, a, b, bc.type, j);
    std::string in;
    JsonOpts jo;
    jo.reorder = s.flip();
    write_json(bc.m, bc.v, s, jo, in);
    same_j2b(c, a, b, bc.type, in);
    // damaged
    Bytes w = bc.wire;
    if (w.size()) {
        if (s.flip() || bare) w.resize(s.below(w.size()));  // a damaged count of elements without bytes is a recorded finding (C05)
        else w[s.below(w.size())] = char(s.byte());
    }
    same_b2j(c, a, b, bc.type, w);
    if (in.size()) {
        size_t p = s.below(in.size());
        if (s.flip()) in.erase(p, 1 + s.below(3));
        else in[p] = "0-9\"{}[],:aA\\ "[s.below(14)];
        same_j2b(c, a, b, bc.type, in);
    }
}

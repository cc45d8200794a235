// Asset, symbol and symbol-code text and validity.
#include "capi.hpp"
#include <eosio/asset.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/from_string.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
using namespace ref;

namespace {
constexpr int64_t MAXA = (int64_t(1) << 62) - 1;
uint64_t code_of(const std::string& t) {
    uint64_t v = 0;
    for (size_t i = 0; i < t.size(); ++i) v |= uint64_t(uint8_t(t[i])) << (8 * i);
    return v;
}
bool ref_code_valid(uint64_t raw) {  // one to seven upper-case letters, then zeros
    int n = 0;
    while (n < 8 && uint8_t(raw >> (8 * n)) >= 'A' && uint8_t(raw >> (8 * n)) <= 'Z') ++n;
    return n >= 1 && n <= 7 && !(raw >> (8 * n));
}
std::string ref_asset_text(int64_t amount, int prec, const std::string& code) {
    u128 a = amount < 0 ? u128(-i128(amount)) : u128(amount);
    std::string d = a ? "" : "0";
    while (a) { d.insert(d.begin(), char('0' + int(a % 10))); a /= 10; }
    if (int(d.size()) <= prec) d.insert(0, std::string(prec + 1 - d.size(), '0'));
    if (prec) d.insert(d.size() - prec, ".");
    return (amount < 0 ? "-" : "") + d + " " + code;
}
// prefix parsers; pos is advanced over what they take
bool p_code(const std::string& t, size_t& p, std::string& code) {
    while (p < t.size() && t[p] == ' ') ++p;
    code.clear();
    while (p < t.size() && t[p] >= 'A' && t[p] <= 'Z') code += t[p++];
    return !code.empty() && code.size() <= 7;
}
bool p_symbol(const std::string& t, size_t& p, int& prec, std::string& code) {
    std::string d;
    while (p < t.size() && isdigit((unsigned char)t[p])) d += t[p++];
    if (d.empty()) return false;
    size_t nz = d.find_first_not_of('0');
    d = nz == d.npos ? "0" : d.substr(nz);
    if (d.size() > 3 || std::stoi(d) > 255) return false;
    prec = std::stoi(d);
    if (p >= t.size() || t[p] != ',') return false;
    ++p;
    return p_code(t, p, code);
}
bool p_asset(const std::string& t, size_t& p, int64_t& amount, int& prec, std::string& code, bool& nodigits) {
    while (p < t.size() && t[p] == ' ') ++p;
    bool neg = false;
    if (p < t.size() && t[p] == '-') { neg = true; ++p; }
    std::string d;
    while (p < t.size() && isdigit((unsigned char)t[p])) d += t[p++];
    prec = 0;
    if (p < t.size() && t[p] == '.') {
        ++p;
        while (p < t.size() && isdigit((unsigned char)t[p])) { d += t[p++]; ++prec; }
    }
    nodigits = d.empty();
    if (prec > 255) return false;
    size_t nz = d.find_first_not_of('0');
    d = nz == d.npos ? "" : d.substr(nz);
    if (d.size() > 19) return false;
    u128 v = 0;
    for (char ch : d) v = v * 10 + (ch - '0');
    if (v > (u128(1) << 63) - !neg) return false;
    amount = neg ? int64_t(-i128(v)) : int64_t(v);
    return p_code(t, p, code);
}
std::string gen_letters(pbt::Source& s) {
    static const char* common[] = {"EOS", "A", "Z", "ABCDEFG", "ZZZZZZZ", "SYS", "AZ"};
    if (s.flip()) return common[s.below(7)];
    std::string r;
    for (size_t n = 1 + s.below(7); n--;) r += char('A' + s.below(26));
    return r;
}
int64_t gen_amount(pbt::Source& s) {
    switch (s.below(5)) {
    case 0: return int64_t(s.int_bits(64));
    case 1: { int64_t v = MAXA + s.range(-2, 2); return s.flip() ? v : -v; }
    case 2: { int64_t v = s.below(3); return s.flip() ? INT64_MAX - v : INT64_MIN + v; }
    case 3: { i128 p = 1; for (uint64_t k = s.below(19); k--;) p *= 10; p += s.range(-1, 1); return int64_t(s.flip() ? p : -p); }
    default: return s.range(-100000, 100000);
    }
}
int gen_prec(pbt::Source& s) {
    switch (s.below(4)) {
    case 0: return 4;
    case 1: return int(s.below(20));
    case 2: return s.flip() ? int(250 + s.below(6)) : 0;
    default: return s.byte();
    }
}
template <class T> bool read(T& out, const std::string& json) {
    std::string buf = json + std::string(4, '\0');
    try {
        eosio::json_token_stream js(buf.data());
        eosio::from_json(out, js);
        js.get_end();
    } catch (std::exception&) { return false; }
    return true;
}
Ctx& ctx() {
    static Ctx x;
    static bool once = x.set_abi(CONTRACT, R"({"version":"eosio::abi/1.1","types":[],"structs":[]})");
    if (!once) abort();
    return x;
}
std::string le(uint64_t v, int n = 8) { std::string b; put_le(b, v, n); return b; }
std::string vs(const std::vector<char>& v) { return std::string(v.begin(), v.end()); }
void abi_text(pbt::Case& c, const char* type, const std::string& bin, const std::string& j) {
    std::string o;
    if (!ctx().b2j(CONTRACT, type, bin, o)) c.fail("bin_to_json", std::string(type) + " " + pbt::hexs(bin) + ": " + ctx().error());
    if (o != j) c.fail("ABI text", std::string(type) + " " + o + " instead of " + j);
}
template <class T> void reads(pbt::Case& c, const char* type, const std::string& text, bool ok, const T& v, const std::string& bin) {
    std::string j = json_str_any(c.s, text), what = std::string(type) + " from " + pbt::quote(text);
    T t;
    bool got = read(t, j);
    if (got != ok) c.fail(got ? "bad text accepted" : "good text rejected", what + (got ? " gives " + pbt::hexs(eosio::convert_to_bin(t)) : " is rejected"));
    if (ok && vs(eosio::convert_to_bin(t)) != bin) c.fail("wrong value read", what + " gives " + pbt::hexs(eosio::convert_to_bin(t)) + " instead of " + pbt::hexs(bin));
    if (c.s.chance(1, 4) && text.find('\0') == text.npos) {
        std::string o;
        got = ctx().j2b(CONTRACT, type, j, c.s.flip(), o);
        if (got != ok) c.fail(got ? "ABI accepts bad text" : "ABI rejects good text", what);
        if (ok && o != bin) c.fail("ABI reads another value", what + " gives " + pbt::hexs(o));
    }
}
}  // namespace

PROP(print, 4) {
    auto& s = c.s;
    int64_t a = gen_amount(s);
    int prec = gen_prec(s);
    std::string code = gen_letters(s);
    uint64_t cr = code_of(code), sr = cr << 8 | uint64_t(prec);
    std::string at = ref_asset_text(a, prec, code), st = std::to_string(prec) + "," + code;
    c.note("asset", [&] { return at; });
    c.key(at);
    c.nontrivial();
    if (prec > 18) c.label("precision>18");
    if (a > MAXA || a < -MAXA) c.label("amount out of range");
    eosio::symbol_code sc(cr);
    eosio::symbol sy(sr);
    eosio::asset as;
    as.amount = a;
    as.symbol = sy;
    auto eq = [&](const char* tag, const std::string& got, const std::string& want) { if (got != want) c.fail(tag, std::string(tag) + ": " + got + " instead of " + want); };
    eq("symbol_code::to_string", sc.to_string(), code);
    eq("symbol_code_to_string", eosio::symbol_code_to_string(cr), code);
    eq("symbol::to_string", sy.to_string(), st);
    eq("symbol_to_string", eosio::symbol_to_string(sr), st);
    eq("asset::to_string", as.to_string(), at);
    eq("asset_to_string", eosio::asset_to_string(a, sr), at);
    eq("symbol_code JSON", eosio::convert_to_json(sc), "\"" + code + "\"");
    eq("symbol JSON", eosio::convert_to_json(sy), "\"" + st + "\"");
    eq("asset JSON", eosio::convert_to_json(as), "\"" + at + "\"");
    uint64_t contract = gen_name(s);
    eosio::extended_asset ea;
    ea.quantity = as;
    ea.contract = eosio::name(contract);
    eq("extended_asset::to_string", ea.to_string(), at + "@" + name_text(contract));
    std::string ej = "{\"quantity\":\"" + at + "\",\"contract\":\"" + name_text(contract) + "\"}";
    eq("extended_asset JSON", eosio::convert_to_json(ea), ej);
    // bytes
    eq("asset bytes", pbt::hexs(eosio::convert_to_bin(as)), pbt::hexs(le(uint64_t(a)) + le(sr)));
    if (s.chance(1, 4)) {
        abi_text(c, "asset", le(uint64_t(a)) + le(sr), "\"" + at + "\"");
        abi_text(c, "symbol", le(sr), "\"" + st + "\"");
        abi_text(c, "symbol_code", le(cr), "\"" + code + "\"");
        abi_text(c, "extended_asset", le(uint64_t(a)) + le(sr) + le(contract), ej);
        std::string o;
        if (!ctx().j2b(CONTRACT, "extended_asset", ej, s.flip(), o) || o != le(uint64_t(a)) + le(sr) + le(contract)) c.fail("extended_asset read", ej);
    }
    // and back
    reads<eosio::asset>(c, "asset", at, true, as, le(uint64_t(a)) + le(sr));
    reads<eosio::symbol>(c, "symbol", st, true, sy, le(sr));
    reads<eosio::symbol_code>(c, "symbol_code", code, true, sc, le(cr));
    eosio::extended_asset eb;
    if (!read(eb, ej) || eosio::convert_to_bin(eb) != eosio::convert_to_bin(ea)) c.fail("extended_asset native read", ej);
    // parts
    bool inr = a >= -MAXA && a <= MAXA;
    auto yes = [&](const char* tag, bool ok) { if (!ok) c.fail(tag, at); };
    yes("symbol parts", sy.precision() == prec && sy.code().raw() == cr && sy.raw() == sr && bool(sy) && sy.is_valid());
    yes("symbol from parts", eosio::symbol(sc, uint8_t(prec)) == sy && eosio::symbol(std::string_view(code), uint8_t(prec)) == sy);
    yes("symbol_code parts", sc.raw() == cr && bool(sc) && sc.is_valid() && sc.length() == code.size());
    yes("symbol_code from text", eosio::symbol_code(std::string_view(code)) == sc);
    yes("asset range", as.is_amount_within_range() == inr && as.is_valid() == inr);
    yes("extended symbol", ea.get_extended_symbol().get_symbol() == sy && ea.get_extended_symbol().get_contract().value == contract && eosio::extended_symbol(sy, eosio::name(contract)) == ea.get_extended_symbol());
    bool made = true;
    try { eosio::asset x(a, sy); yes("asset(amount,symbol)", x.amount == a && x.symbol == sy); } catch (std::exception&) { made = false; }
    yes("asset constructor range", made == inr);
    made = true;
    try { eosio::extended_asset x(a, ea.get_extended_symbol()); yes("extended_asset(amount,symbol)", x.quantity.amount == a && x.quantity.symbol == sy && x.contract.value == contract); } catch (std::exception&) { made = false; }
    yes("extended_asset constructor range", made == inr);
    made = true;
    eosio::asset x;
    try { x.set_amount(a); yes("set_amount", x.amount == a); } catch (std::exception&) { made = false; }
    yes("set_amount range", made == inr);
    if (inr) yes("extended_asset(asset,name)", eosio::extended_asset(as, eosio::name(contract)) == ea);
    yes("max_amount", eosio::asset::max_amount == MAXA);
}

PROP(read_text, 6) {
    auto& s = c.s;
    std::string t;
    bool sym = s.chance(1, 3);
    if (sym) {
        t = s.chance(1, 3) ? std::to_string(s.below(300)) : std::to_string(gen_prec(s));
        if (s.chance(1, 8)) t.insert(0, s.flip() ? std::string(s.below(4), '0') : std::to_string(s.u64()));
        t += "," + gen_letters(s);
    } else {
        t = ref_asset_text(gen_amount(s), s.flip() ? int(s.below(20)) : gen_prec(s), gen_letters(s));
        if (s.chance(1, 4)) {  // beyond 64 bits
            std::string d = std::to_string(s.flip() ? INT64_MAX : UINT64_MAX);
            for (size_t n = 1 + s.below(2); n--;) d[d.size() - 1 - s.below(3)] = char('0' + s.below(10));
            if (s.chance(1, 3)) d += char('0' + s.below(10));
            if (s.chance(1, 3)) d.insert(0, std::string(s.below(4), '0'));
            if (s.flip()) d.insert(s.below(d.size() + 1), ".");
            t = (s.flip() ? "-" : "") + d + " " + gen_letters(s);
        }
    }
    if (s.chance(1, 6)) { size_t p = t.find_first_of("., "); if (p != t.npos) t.insert(p + 1, std::string(1 + s.below(3), ' ')); }
    if (s.chance(1, 6)) t.insert(0, std::string(1 + s.below(2), ' '));
    if (s.chance(1, 6)) t += std::string(1 + s.below(5), char('A' + s.below(26)));
    for (size_t n = s.chance(1, 2) ? 1 + s.below(2) : 0; n--;) {
        size_t p = s.below(t.size() + 1);
        char ch = "0123456789.-, +AZaz@[\0\t`"[s.below(23)];
        switch (s.below(4)) {
        case 0: t.insert(p, 1, ch); break;
        case 1: if (p < t.size()) t[p] = ch; break;
        case 2: if (p < t.size()) t.erase(p, 1 + s.below(3)); break;
        default: t.resize(p);
        }
    }
    c.note("text", [&] { return pbt::quote(t); });
    c.key(t);
    if (t.size() > 3) c.nontrivial();
    std::vector<char> x(t.begin(), t.end());
    x.shrink_to_fit();
    const char *b = x.data(), *e = b + x.size(), *p;
    // as an asset
    size_t q = 0;
    int64_t amount = 0;
    int prec = 0;
    std::string code;
    bool nodigits = false, pre = p_asset(t, q, amount, prec, code, nodigits), ok = pre && q == t.size();
    uint64_t sr = code_of(pre ? code : "") << 8 | uint64_t(prec), gs = 0;
    if (!nodigits) {
        c.label(ok ? "valid asset" : "invalid asset");
        eosio::asset v;
        reads(c, "asset", t, ok, v, ok ? le(uint64_t(amount)) + le(sr) : "");
        int64_t ga = 0;
        bool g = eosio::string_to_asset(ga, gs, b, e);
        if (g != ok || (ok && (ga != amount || gs != sr))) c.fail("string_to_asset", pbt::quote(t) + (g ? " accepted" : " rejected"));
        p = b;
        g = eosio::string_to_asset(ga, gs, p, e, false);
        if (g != pre || (pre && (ga != amount || gs != sr || p != b + q))) c.fail("string_to_asset prefix", pbt::quote(t) + (g ? " accepted" : " rejected"));
        bool inr = amount >= -MAXA && amount <= MAXA;
        g = true;
        try {
            eosio::asset r = eosio::convert_from_string<eosio::asset>(std::string_view(x.data(), x.size()));
            if (ok && (r.amount != amount || r.symbol.value != sr)) c.fail("convert_from_string value", pbt::quote(t));
        } catch (std::exception&) { g = false; }
        if (g != (ok && inr)) c.fail("convert_from_string", pbt::quote(t) + (g ? " accepted" : " rejected"));
    }
    // as a symbol
    q = 0;
    pre = p_symbol(t, q, prec, code);
    ok = pre && q == t.size();
    if (ok) c.label("valid symbol");
    sr = code_of(pre ? code : "") << 8 | uint64_t(prec);
    reads(c, "symbol", t, ok, eosio::symbol(), ok ? le(sr) : "");
    bool g = eosio::string_to_symbol(gs, b, e);
    if (g != ok || (ok && gs != sr)) c.fail("string_to_symbol", pbt::quote(t));
    p = b;
    g = eosio::string_to_symbol(gs, p, e, false);
    if (g != pre || (pre && (gs != sr || p != b + q))) c.fail("string_to_symbol prefix", pbt::quote(t));
    // its tail as a symbol code
    size_t at = t.find_first_of(",. ");
    std::string tail = at == t.npos || s.flip() ? t : t.substr(at + 1);
    if (s.chance(1, 3)) { size_t a = tail.find_first_not_of("0123456789.- "); if (a != tail.npos) tail = tail.substr(a); }
    q = 0;
    pre = p_code(tail, q, code);
    ok = pre && q == tail.size();
    if (ok) c.label("valid code");
    reads(c, "symbol_code", tail, ok, eosio::symbol_code(), ok ? le(code_of(code)) : "");
    g = eosio::string_to_symbol_code(gs, tail.data(), tail.data() + tail.size());
    if (g != ok || (ok && gs != code_of(code))) c.fail("string_to_symbol_code", pbt::quote(tail));
    p = tail.data();
    g = eosio::string_to_symbol_code(gs, p, tail.data() + tail.size(), false);
    if (g != pre || (pre && (gs != code_of(code) || p != tail.data() + q))) c.fail("string_to_symbol_code prefix", pbt::quote(tail));
    // constructor: exactly the letters, at most 7 (none gives the empty code)
    bool letters = tail.size() <= 7;
    for (char ch : tail) letters = letters && ch >= 'A' && ch <= 'Z';
    g = true;
    try { if (eosio::symbol_code(std::string_view(tail)).value != code_of(tail.size() <= 8 ? tail : "") && letters) c.fail("symbol_code(text) value", pbt::quote(tail)); } catch (std::exception&) { g = false; }
    if (g != letters) c.fail("symbol_code(text)", pbt::quote(tail) + (g ? " accepted" : " rejected"));
    g = true;
    try { if (eosio::symbol(std::string_view(tail), 7).value != (code_of(letters ? tail : "") << 8 | 7) && letters) c.fail("symbol(text,precision) value", pbt::quote(tail)); } catch (std::exception&) { g = false; }
    if (g != letters) c.fail("symbol(text,precision)", pbt::quote(tail) + (g ? " accepted" : " rejected"));
}

PROP(raw_codes, 3) {
    auto& s = c.s;
    std::string b;
    size_t n = s.below(9);
    for (size_t i = 0; i < n; ++i) b += s.chance(1, 8) ? "@[`a\0 \x7f\xc1"[s.below(8)] : char('A' + s.below(26));
    if (s.chance(1, 3)) { b.resize(8, '\0'); b[s.below(8)] = s.flip() ? char('A' + s.below(26)) : char(s.byte()); }
    uint64_t raw = code_of(b);
    c.note("raw", [&] { return pbt::hexs(le(raw)); });
    c.key(le(raw));
    if (raw) c.nontrivial();
    bool valid = ref_code_valid(raw);
    c.label(valid ? "valid" : "invalid");
    eosio::symbol_code sc(raw);
    if (sc.is_valid() != valid) c.fail("symbol_code::is_valid", pbt::hexs(le(raw)) + (valid ? " not valid" : " valid"));
    uint32_t len = 0;
    while (len < 8 && uint8_t(raw >> (8 * len))) ++len;
    if (sc.length() != len) c.fail("symbol_code::length", pbt::hexs(le(raw)) + " " + std::to_string(sc.length()));
    if (bool(sc) != (raw != 0) || sc.raw() != raw) c.fail("symbol_code raw", pbt::hexs(le(raw)));
    if (sc.suffix().value != eosio::name(raw).suffix().value) c.fail("symbol_code::suffix", pbt::hexs(le(raw)));
    // a symbol holds seven code bytes and the precision
    eosio::symbol sy(raw);
    bool sv = ref_code_valid(raw >> 8);
    if (sy.is_valid() != sv || sy.precision() != uint8_t(raw) || sy.code().raw() != raw >> 8 || bool(sy) != (raw != 0)) c.fail("symbol::is_valid", pbt::hexs(le(raw)));
    int64_t a = gen_amount(s);
    bool inr = a >= -MAXA && a <= MAXA, made = true;
    try { eosio::asset x(a, sy); } catch (std::exception&) { made = false; }
    if (made != (sv && inr)) c.fail("asset constructor", std::to_string(a) + " " + pbt::hexs(le(raw)));
    eosio::asset y;
    y.amount = a;
    y.symbol = sy;
    if (y.is_valid() != (sv && inr)) c.fail("asset::is_valid", std::to_string(a) + " " + pbt::hexs(le(raw)));
    // order of raw values
    uint64_t r2 = s.flip() ? raw ^ (1ull << s.below(64)) : uint64_t(s.uint_bits(64));
    eosio::symbol_code sd(r2);
    eosio::symbol sz(r2);
    bool o = (sc == sd) == (raw == r2) && (sc != sd) == (raw != r2) && (sc < sd) == (raw < r2) && (sc > sd) == (raw > r2) && (sc <= sd) == (raw <= r2) && (sc >= sd) == (raw >= r2) &&
             (sy == sz) == (raw == r2) && (sy != sz) == (raw != r2) && (sy < sz) == (raw < r2) && (sy > sz) == (raw > r2) && (sy <= sz) == (raw <= r2) && (sy >= sz) == (raw >= r2);
    if (!o) c.fail("order", pbt::hexs(le(raw)) + " " + pbt::hexs(le(r2)));
}

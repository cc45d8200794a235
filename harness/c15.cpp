// Names: bijective text, strict validation, fallback parsing and hashing, parts, order.
#include "pbt.hpp"
#include "ref.hpp"
#include <eosio/abieos.h>
#include <eosio/name.hpp>
#include <eosio/from_json.hpp>
#include <eosio/to_json.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
#include <optional>
using namespace ref;
using namespace eosio::literals;

namespace {
struct C {
    abieos_context* c = abieos_create();
    ~C() { abieos_destroy(c); }
};
// MurmurHash64A variant the fallback uses, written from its definition: 8-byte blocks as the sum of
// sign-extended bytes shifted in from the right (the first byte of a block is shifted out).
uint64_t ref_hash(std::string_view t) {
    const uint64_t m = 0xc6a4a7935bd1e995ull;
    auto mix = [](uint64_t v) { return v ^ (v >> 47); };
    uint64_t h = 0xbadd00d00ull ^ (uint64_t(t.size()) * m);
    size_t i = 0;
    for (; i + 8 <= t.size(); i += 8) {
        uint64_t w = 0;
        for (size_t k = 0; k < 8; ++k) w = (w | uint64_t(int64_t(int8_t(t[i + k])))) << 8;
        h = (h ^ (mix(w * m) * m)) * m;
    }
    if (i < t.size()) {
        uint64_t w = 0;
        for (size_t k = i; k < t.size(); ++k) w |= uint64_t(uint8_t(t[k])) << (8 * (k - i));
        h = (h ^ w) * m;
    }
    h = mix(h) * m;
    return mix(h);
}
uint64_t expect_hash(std::string_view t) {
    uint64_t v;
    return name_value(t, v) ? v : ref_hash(t);
}
// text of interest: a valid name, or one with an edit near the boundaries
std::string gen_text(pbt::Source& s) {
    std::string t;
    switch (s.below(6)) {
    case 0: t = name_text(gen_name(s)); break;
    case 1: {  // valid alphabet, lengths around the limit, any 13th character
        size_t n = 10 + s.below(6);
        for (size_t i = 0; i < n; ++i) t += ".12345abcdefghijklmnopqrstuvwxyz"[s.below(32)];
        break;
    }
    case 2: {  // with trailing/embedded dots kept
        size_t n = s.below(14);
        for (size_t i = 0; i < n; ++i) t += s.flip() ? '.' : ".12345abcdefghij"[s.below(16)];
        break;
    }
    case 3: t = gen_utf8(s, 40); break;
    case 4: t = gen_bytes(s, 40); break;
    default: {
        size_t n = s.below(40);
        for (size_t i = 0; i < n; ++i) t += ".012345ABCabcxyzjk6789_- \0"[s.below(26)];
    }
    }
    for (size_t n = s.below(4); n--;) {
        static const char odd[] = "\0" "06789`{AZ/:@_ -\x7f\x80\xff.kjz15a";
        char ch = s.flip() ? odd[s.below(sizeof odd - 1)] : char(s.byte());
        size_t p = s.below(t.size() + 1);
        switch (s.below(4)) {
        case 0: t.insert(p, 1, ch); break;
        case 1: if (p < t.size()) t[p] = ch; break;
        case 2: if (p < t.size()) t.erase(p, 1); break;
        default: t += ch;
        }
    }
    return t;
}
template <class F> std::optional<uint64_t> attempt(F&& f) {
    try { return f(); } catch (std::exception&) { return {}; }
}
}  // namespace

PROP(value_text, 4) {
    uint64_t v = gen_name(c.s);
    std::string t = name_text(v);
    c.note("value", [&] { return std::to_string(v) + " \"" + t + "\""; });
    c.key(std::string((char*)&v, 8));
    if (t.size() == 13) c.label("13 characters");
    if (t.find('.') != t.npos) c.label("with dots");
    if (t.size() > 1) c.nontrivial();
    static C ctx;
    eosio::name n{v};
    auto bad = [&](const char* tag, const std::string& got) {
        c.fail(tag, "name " + std::to_string(v) + " (\"" + t + "\"): got " + pbt::quote(got));
    };
    if (eosio::name_to_string(v) != t) bad("name_to_string", eosio::name_to_string(v));
    if (n.to_string() != t) bad("name::to_string", n.to_string());
    if (std::string(n) != t) bad("name operator string", std::string(n));
    const char* p = abieos_name_to_string(ctx.c, v);
    if (!p || t != p) bad("abieos_name_to_string", p ? p : "(null)");
    auto num = [&](const char* tag, uint64_t g) { if (g != v) bad(tag, std::to_string(g)); };
    num("string_to_name view", eosio::string_to_name(std::string_view(t)));
    num("string_to_name string", eosio::string_to_name(t));
    num("string_to_name ptr", eosio::string_to_name(t.c_str()));
    std::vector<char> exact(t.begin(), t.end());
    exact.shrink_to_fit();
    num("string_to_name ptr,size", eosio::string_to_name(exact.data(), int(exact.size())));
    num("abieos_string_to_name", abieos_string_to_name(ctx.c, t.c_str()));
    num("abieos_string_to_name without context", abieos_string_to_name(nullptr, t.c_str()));
    num("hash_name", eosio::hash_name(std::string_view(exact.data(), exact.size())));
    num("_h", operator""_h(t.c_str(), t.size()).value);
    auto st = attempt([&] { return eosio::string_to_name_strict(std::string_view(exact.data(), exact.size())); });
    if (!st) bad("string_to_name_strict rejects", "(exception)");
    num("string_to_name_strict", *st);
    auto ct = attempt([&] { return eosio::name(t).value; });
    if (!ct) bad("name(text) rejects", "(exception)");
    num("name(text)", *ct);
    auto tr = eosio::try_string_to_name_strict(t);
    if (!tr) bad("try_string_to_name_strict rejects", "(error)");
    num("try_string_to_name_strict", tr.value());
    std::string j = eosio::convert_to_json(n);
    if (j != "\"" + t + "\"") bad("name JSON", j);
    std::string buf = j + std::string(4, '\0');
    eosio::json_token_stream js(buf.data());
    eosio::name back{~v};
    eosio::from_json(back, js);
    num("name from JSON", back.value);
    num("name default", eosio::name{}.value == 0 ? v : 1);
    num("raw", uint64_t(eosio::name::raw(n)));
    num("from raw", eosio::name(eosio::name::raw(v)).value);
    if (bool(n) != (v != 0)) bad("operator bool", bool(n) ? "true" : "false");
    std::vector<char> bin = eosio::convert_to_bin(n);
    std::string eb;
    put_le(eb, v, 8);
    if (std::string(bin.begin(), bin.end()) != eb) bad("name binary", pbt::hexs(bin));
    // parts
    if (n.length() != t.size()) bad("length", std::to_string(n.length()));
    size_t dot = t.rfind('.');
    uint64_t suf = v, pre = v;
    if (dot != t.npos) {
        name_value(std::string_view(t).substr(dot + 1), suf);
        name_value(std::string_view(t).substr(0, dot), pre);
    }
    if (n.suffix().value != suf) bad("suffix", name_text(n.suffix().value));
    if (n.prefix().value != pre) bad("prefix", name_text(n.prefix().value));
}

PROP(order, 2) {
    uint64_t a = gen_name(c.s), b = gen_name(c.s);
    if (c.s.flip()) b = a ^ (uint64_t(1) << c.s.below(64));
    std::string ta = name_text(a), tb = name_text(b);
    c.note("values", [&] { return "\"" + ta + "\" \"" + tb + "\""; });
    c.key(ta + "|" + tb);
    if (a != b) c.nontrivial();
    eosio::name x{a}, y{b};
    int e = ta < tb ? -1 : ta > tb;
    if (e != (a < b ? -1 : a > b)) c.fail("harness", "reference order");
    bool ok = (x == y) == (e == 0) && (x != y) == (e != 0) && (x < y) == (e < 0) && (x > y) == (e > 0) && (x <= y) == (e <= 0) && (x >= y) == (e >= 0);
    if (!ok) c.fail("order", "comparison of \"" + ta + "\" and \"" + tb + "\" disagrees with their text");
}

PROP(strict, 5) {
    std::string t = gen_text(c.s);
    uint64_t v = 0;
    bool valid = name_value(t, v);
    c.note("text", [&] { return pbt::quote(t) + (valid ? " valid" : " invalid"); });
    c.key(t);
    if (!t.empty()) c.nontrivial();
    c.label(valid ? "valid" : "invalid");
    if (t.size() == 13) c.label("13 characters");
    if (t.size() > 13) c.label("longer than 13");
    std::vector<char> exact(t.begin(), t.end());
    exact.shrink_to_fit();
    std::string_view sv(exact.data(), exact.size());
    auto verdict = [&](const char* tag, std::optional<uint64_t> g) {
        if (g.has_value() != valid) c.fail(tag, std::string(tag) + (valid ? " rejects valid name " : " accepts invalid name ") + pbt::quote(t));
        if (g && *g != v) c.fail(tag, std::string(tag) + " of " + pbt::quote(t) + " is " + std::to_string(*g) + " instead of " + std::to_string(v));
    };
    auto tr = eosio::try_string_to_name_strict(sv);
    verdict("try_string_to_name_strict", tr ? std::optional<uint64_t>(tr.value()) : std::nullopt);
    verdict("string_to_name_strict", attempt([&] { return eosio::string_to_name_strict(sv); }));
    verdict("name(text)", attempt([&] { return eosio::name(sv).value; }));
    if (valid) {
        verdict("string_to_name", eosio::string_to_name(sv));
        verdict("string_to_name ptr", eosio::string_to_name(t.c_str()));
        verdict("abieos_string_to_name", abieos_string_to_name(nullptr, t.c_str()));
    } else {  // no crash, no read outside
        (void)eosio::string_to_name(sv);
        (void)eosio::string_to_name(t);
        (void)abieos_string_to_name(nullptr, t.c_str());
    }
    uint64_t h = expect_hash(t);
    if (eosio::hash_name(sv) != h) c.fail("hash_name", "hash_name(" + pbt::quote(t) + ") is " + std::to_string(eosio::hash_name(sv)) + " instead of " + std::to_string(h));
    if (t.find('\0') == t.npos && operator""_h(t.c_str(), t.size()).value != h) c.fail("_h", "_h of " + pbt::quote(t));
    if (utf8_valid(t)) {
        std::string buf = json_str_any(c.s, t) + std::string(4, '\0');
        eosio::name back{1};
        try {
            eosio::json_token_stream js(buf.data());
            eosio::from_json(back, js);
        } catch (std::exception& e) { c.fail("from_json rejects", "name from JSON " + pbt::quote(t) + ": " + e.what()); }
        if (back.value != h) c.fail("from_json", "name from JSON " + pbt::quote(t) + " is " + std::to_string(back.value) + " instead of " + std::to_string(h));
    }
}

PROP(single_character, 1) {
    char ch = char(c.s.byte());
    c.note("character", [&] { return pbt::quote(std::string(1, ch)); });
    c.key(std::string(1, ch));
    c.nontrivial();
    uint64_t v;
    bool valid = name_value(std::string(1, ch), v);
    uint64_t digit = valid ? v >> 59 : 0;
    auto g = attempt([&] { return uint64_t(eosio::name::char_to_value(ch)); });
    if (g.has_value() != valid || (g && *g != digit)) c.fail("char_to_value", "char_to_value of " + pbt::quote(std::string(1, ch)));
    if (eosio::is_valid_char(ch) != valid) c.fail("is_valid_char", pbt::quote(std::string(1, ch)));
    uint64_t r = 77;
    if (eosio::char_to_name_digit_strict(ch, r) != valid || (valid && r != digit)) c.fail("char_to_name_digit_strict", pbt::quote(std::string(1, ch)));
    if (valid && eosio::char_to_name_digit(ch) != digit) c.fail("char_to_name_digit", pbt::quote(std::string(1, ch)));
}

namespace {
struct K { const char* text; eosio::name n; eosio::name h; bool valid; };
const K consts[] = {
#define N(x) {x, x##_n, x##_h, true},
    N("") N("a") N("z") N("1") N("5") N(".a") N("a.b") N("eosio") N("eosio.token") N("abcdefghijkl") N("mnopqrstuvwx") N("yz12345.abcd")
    N("zzzzzzzzzzzz") N("zzzzzzzzzzzzj") N("aaaaaaaaaaaaa") N("............1") N("555555555555j") N("a...........j") N("a..b..c..d..e") N("11111111111.5")
    N("eosio.reserv") N("............")
#undef N
#define H(x) {x, eosio::name{}, x##_h, false},
    H("Eosio") H("zzzzzzzzzzzzk") H("abcdefghijklmn") H("a b") H("0") H("6789") H("UPPER CASE TEXT OF SOME LENGTH") H("\xc3\xa9") H("1234567") H("12345678") H("123456789") H("0123456789abcdef")
};
}  // namespace
PROP(constants, 1) {
    size_t i = c.s.below(std::size(consts));
    const K& k = consts[i];
    c.note("constant", [&] { return pbt::quote(k.text); });
    c.key(k.text);
    c.nontrivial();
    uint64_t v = 0;
    if (name_value(k.text, v) != k.valid) c.fail("harness", k.text);
    if (k.valid && k.n.value != v) c.fail("_n", std::string("\"") + k.text + "\"_n is " + std::to_string(k.n.value));
    if (k.h.value != expect_hash(k.text)) c.fail("_h", std::string("\"") + k.text + "\"_h is " + std::to_string(k.h.value));
}

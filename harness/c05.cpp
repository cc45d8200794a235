// Hostile input: every entry point returns a result or an error; bounded memory and time; context stays usable.
#include "capi.hpp"
#include <eosio/abi.hpp>
#include <eosio/bytes.hpp>
#include <eosio/asset.hpp>
#include <eosio/crypto.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/symbol.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/varint.hpp>
using namespace ref;

static const uint64_t OTHER = 0x5530ea033482a600ull;  // eosio.token
static const char* PROBE = "{\"version\":\"eosio::abi/1.0\",\"structs\":[{\"name\":\"p\",\"base\":\"\",\"fields\":[{\"name\":\"a\",\"type\":\"uint32\"},{\"name\":\"b\",\"type\":\"string[]\"}]}]}";

struct Meter {
    pbt::Case& c;
    size_t allowed;
    const char* what;
    Meter(pbt::Case& c, const char* what, size_t a, size_t b) : c(c), allowed((size_t(32) << 20) + 200 * (a + 1) * (b + 1)), what(what) { pbt::mem_reset(); }
    void done() {
        size_t p = pbt::mem_peak();
        if (p > allowed) c.fail(std::string("memory-") + what, std::string(what) + " used " + std::to_string(p) + " bytes");
    }
};
template <class F> static auto metered(pbt::Case& c, const char* what, size_t a, size_t b, F&& f) {
    Meter m(c, what, a, b);
    auto r = f();
    m.done();
    return r;
}
// the context still answers for the well-behaved contract loaded before
static void usable(pbt::Case& c, Ctx& x) {
    std::string o;
    if (!x.j2b(OTHER, "p", "{\"a\":7,\"b\":[\"x\",\"\"]}", false, o) || o != std::string("\x07\0\0\0\x02\x01x\0", 8)) c.fail("context-unusable", "after a hostile call the context no longer converts: " + x.error());
    std::string j;
    if (!x.b2j(OTHER, "p", o, j) || j != "{\"a\":7,\"b\":[\"x\",\"\"]}") c.fail("context-unusable", "after a hostile call the context no longer converts back: " + j);
}
static void check_err(pbt::Case& c, Ctx& x, bool ok) {
    if (!ok && x.error().empty()) c.fail("no-error-text", "a failed call left no error text");
}
static std::string mutate(pbt::Source& s, std::string v, int rounds) {
    for (int r = 0; r < rounds; ++r) {
        size_t n = v.size();
        switch (s.below(9)) {
        case 0: if (n) v[s.below(n)] = char(s.byte()); break;
        case 1: if (n) v[s.below(n)] ^= char(1 << s.below(8)); break;
        case 2: v.insert(s.below(n + 1), 1, char(s.byte())); break;
        case 3: if (n) v.erase(s.below(n), 1 + s.below(4)); break;
        case 4: if (n) v.resize(s.below(n)); break;
        case 5: {  // huge lengths
            static const char* big[] = {"\xff\xff\xff\xff\x0f", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\x80\x80\x80\x80\x08", "\xff\xff\xff\x7f", "\xff\xff\x7f", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x02", "\xff\x7f", "\x80\x80\x80\x80\x80\x80\x80\x80\x20", "\x81\x80\x80\x80\x80\x80\x80\x80\x40"};
            size_t at = s.below(n + 1);
            if (s.flip() && at < n) v.erase(at, 1);
            v.insert(at, big[s.below(9)]);
            break;
        }
        case 6: if (n) { size_t a = s.below(n), l = 1 + s.below(std::min<size_t>(n - a, 40)); v.insert(s.below(n + 1), v.substr(a, l)); } break;
        case 7: if (n) { size_t a = s.below(n); v.replace(a, std::min<size_t>(n - a, 1 + s.below(8)), 1 + s.below(8), "\x00\xff\x80\x7f\x01"[s.below(5)]); } break;
        default: {
            static const char* toks[] = {"[]", "?", "$", "\"", "{}", "[", "{", ":", ",", "null", "\\u0000", "\\ud800", "\"types\":[]", "[[[[[[", "{\"\":", "e9999", "-", "99999999999999999999999999999999999999999", "\xff", "\xed\xa0\x80"};
            v.insert(s.below(n + 1), toks[s.below(20)]);
        }
        }
        if (v.size() > 6000) v.resize(6000);
    }
    return v;
}
static std::string raw(pbt::Source& s, size_t max) {
    std::string r;
    size_t n = s.size(max);
    if (s.chance(1, 8)) n = s.below(max + 1);
    for (size_t i = 0; i < n && !s.exhausted(); ++i) r += char(s.byte());
    return r;
}
static std::string hostile_type(pbt::Source& s, const AbiModel& m) {
    std::string t = m.text(gen_root(m, s));
    switch (s.below(6)) {
    case 0: return t;
    case 1: for (size_t n = s.below(40); n--;) t += s.flip() ? "?" : "[]"; return t;
    case 2: for (size_t n = s.below(4); n--;) { static const char* x[] = {"?", "[]", "$"}; t += x[s.below(3)]; } return t;
    case 3: return mutate(s, t, 1 + int(s.below(3)));
    case 4: return std::string(s.below(3000), "?$[]a"[s.below(5)]);
    default: return raw(s, 20);
    }
}
// a type of zero encoded bytes makes "n elements of nothing" legitimate: recorded finding, excluded here
static bool has_empty_struct(const std::vector<std::vector<size_t>>&) { return false; }
static bool safe_abi(const eosio::abi_def& d) {
    for (auto& s : d.structs) if (s.fields.empty()) return false;
    return true;
}
static std::vector<std::string> type_names(const eosio::abi_def& d) {
    std::vector<std::string> r;
    for (auto& t : d.types) r.push_back(t.new_type_name);
    for (auto& t : d.structs) r.push_back(t.name);
    for (auto& t : d.variants.value) r.push_back(t.name);
    if (r.size() > 6) r.resize(6);
    return r;
}
static void poke(pbt::Case& c, Ctx& x, const std::string& type, const std::string& bin, const std::string& json, size_t abi) {
    std::string o;
    check_err(c, x, metered(c, "bin_to_json", abi, bin.size(), [&] { return x.b2j(CONTRACT, type, bin, o); }));
    check_err(c, x, metered(c, "json_to_bin", abi, json.size(), [&] { return x.j2b(CONTRACT, type, json, false, o); }));
    check_err(c, x, metered(c, "json_to_bin_reorderable", abi, json.size(), [&] { return x.j2b(CONTRACT, type, json, true, o); }));
}
static AbiModel nonempty_model(pbt::Source& s) {  // every struct has at least one non-extension field
    AbiOpts o;
    AbiModel m = gen_abi(s, o);
    for (int i = m.first_user; i < int(m.defs.size()); ++i)
        if (m.defs[i].k == Def::struct_ && !m.nonempty(TR{i})) m.defs[i].fields.insert(m.defs[i].fields.begin(), Field{"pad_", TR{int(Sc::u8)}});
    return m;
}
static void cut_text(pbt::Source& s, std::string& t) {  // ends inside a string, inside a character or escape
    if (size_t q = t.rfind('"'); q != t.npos) t.resize(q + 1); else t += '"';
    static const char* lead[] = {"\xf0", "\xf4\x8f", "\xe0", "\xed", "\xc2", "\xf1\x80\x80", "\\", "\\u", "\\ud8", "\\ud800\\"};
    if (s.flip()) t.pop_back();
    t += lead[s.below(10)];
}
PROP(abi_json, 5) {
    auto& s = c.s;
    std::string t;
    switch (s.below(5)) {
    case 0: t = raw(s, 400); break;
    case 1: {  // deep or long text
        static const char* rep[] = {"[", "{\"a\":", "{\"structs\":[", "\"", "\\", "1", " ", "{\"types\":[{\"type\":\"", "[]", "{\"unknown\":[[{\"x\":"};
        std::string u = rep[s.below(10)];
        size_t n = s.chance(1, 4) ? 20000 : s.below(300);
        t = s.flip() ? "{\"version\":\"eosio::abi/1.0\",\"zz\":" : "";
        for (size_t i = 0; i < n; ++i) t += u;
        break;
    }
    default: {
        AbiModel m = gen_abi(s);
        if (s.chance(1, 6)) {  // definitions named like optionals, arrays and extensions
            static const char* x[] = {"?", "[]", "$", "??", "[]?", "?$"};
            for (size_t i = m.first_user; i < m.defs.size(); ++i) if (s.chance(1, 3)) m.defs[i].name += x[s.below(6)];
            t = doc_json(make_doc(m, s));
            if (s.flip()) t = mutate(s, t, 1);
            break;
        }
        t = mutate(s, doc_json(make_doc(m, s)), 1 + int(s.below(4)));
    }
    }
    if (s.chance(1, 10)) cut_text(s, t);
    c.key(t);
    c.note("abi", [&] { return pbt::quote(t); });
    Ctx x;
    x.set_abi(OTHER, PROBE);
    bool ok = metered(c, "set_abi", t.size(), t.size(), [&] { return x.set_abi(CONTRACT, t); });
    check_err(c, x, ok);
    if (ok) {
        c.label("abi-accepted");
        c.nontrivial();
        std::string copy = std::string(t.c_str());
        copy.append(3, '\0');
        eosio::abi_def d{};
        eosio::json_token_stream st(copy.data());
        from_json(d, st);
        if (safe_abi(d))
            for (auto& n : type_names(d)) poke(c, x, n, raw(s, 60), s.flip() ? "{}" : "[\"" + n + "\",{}]", t.size());
        else c.label("excluded-empty-struct");
        for (auto& a : d.actions) {
            auto p = abieos_get_type_for_action(x.c, CONTRACT, a.name.value);
            if (p) (void)strlen(p);
        }
    } else { c.label("abi-rejected"); if (t.size() > 20) c.nontrivial(); }
    usable(c, x);
}
PROP(abi_bin, 5) {
    auto& s = c.s;
    std::string t;
    if (s.chance(1, 4)) {
        t = raw(s, 400);
        if (s.flip()) t = std::string("\x0e" "eosio::abi/1.0", 15) + t;
    } else {
        AbiModel m = gen_abi(s);
        auto d = make_doc(m, s);
        t = mutate(s, doc_bin(d), 1 + int(s.below(4)));
    }
    bool hex = s.chance(1, 4);
    c.key(t);
    c.note("abi_bin", [&] { return pbt::hexs(t); });
    Ctx x;
    x.set_abi(OTHER, PROBE);
    bool ok;
    if (hex) {
        std::string h = hex_any(s, t);
        if (s.flip()) h = mutate(s, h, 1);
        ok = metered(c, "set_abi_hex", t.size(), t.size(), [&] { return abieos_set_abi_hex(x.c, CONTRACT, h.c_str()); });
        unhex(h, t);
    } else {
        std::vector<char> e(t.begin(), t.end());
        e.shrink_to_fit();
        ok = metered(c, "set_abi_bin", t.size(), t.size(), [&] { return abieos_set_abi_bin(x.c, CONTRACT, e.data(), e.size()); });
    }
    check_err(c, x, ok);
    if (t.size() > 16) c.nontrivial();
    c.label(ok ? "abi-accepted" : "abi-rejected");
    if (ok && !hex) {
        eosio::abi_def d{};
        eosio::input_stream st(t.data(), t.size());
        from_bin(d, st);
        if (safe_abi(d))
            for (auto& n : type_names(d)) poke(c, x, n, raw(s, 60), "{}", t.size());
        else c.label("excluded-empty-struct");
    }
    usable(c, x);
}
PROP(convert_bin, 6) {
    auto& s = c.s;
    Built b;
    b.m = nonempty_model(s);
    b.abi_json = doc_json(make_doc(b.m, s));
    b.root = gen_root(b.m, s);
    b.type = b.m.text(b.root);
    GenVal g{b.m, s};
    b.v = g.gen(b.root, 0, true);
    encode(b.m, b.v, b.wire);
    std::string w = s.chance(1, 6) ? raw(s, 300) : mutate(s, b.wire, 1 + int(s.below(4)));
    std::string type = s.chance(1, 5) ? hostile_type(s, b.m) : b.type;
    c.key(b.abi_json);
    c.key(type);
    c.key(w);
    c.nontrivial();
    c.note("type", [&] { return type; });
    c.note("bin", [&] { return pbt::hexs(w); });
    Ctx x;
    x.set_abi(OTHER, PROBE);
    load(c, x, b);
    std::string o;
    bool ok;
    if (s.chance(1, 4)) {
        std::string h = mutate(s, hex_any(s, w), int(s.below(3)));
        ok = metered(c, "hex_to_json", b.abi_json.size(), h.size(), [&] { return x.h2j(CONTRACT, type, h, o); });
    } else ok = metered(c, "bin_to_json", b.abi_json.size(), w.size(), [&] { return x.b2j(CONTRACT, type, w, o); });
    check_err(c, x, ok);
    c.label(ok ? "bin-accepted" : "bin-rejected");
    if (ok) {
        J j;
        std::string e;
        if (!parse_json(o, j, e)) c.fail("malformed-output", e + " in " + o);
        c.require(x.j2b(CONTRACT, type, o, false, w) || true, "", "");
    }
    usable(c, x);
}
PROP(convert_json, 5) {
    auto& s = c.s;
    Built b;
    b.m = nonempty_model(s);
    b.abi_json = doc_json(make_doc(b.m, s));
    b.root = gen_root(b.m, s);
    b.type = b.m.text(b.root);
    std::string j;
    if (s.chance(1, 5)) {
        static const char* rep[] = {"[", "{\"a\":", "[[[{\"\":", "\"\\", "-", "9", "{\"f0\":", "[\"st1\",", "\"\\u"};
        std::string u = rep[s.below(9)];
        size_t n = s.chance(1, 4) ? 20000 : s.below(300);
        for (size_t i = 0; i < n; ++i) j += u;
        if (s.flip()) j = "{\"zz\":" + j;
    } else if (s.chance(1, 8)) j = raw(s, 300);
    else {
        GenVal g{b.m, s};
        b.v = g.gen(b.root, 0, true);
        write_json(b.m, b.v, s, JsonOpts{true, true, true}, j);
        j = mutate(s, j, 1 + int(s.below(4)));
        if (s.chance(1, 10)) cut_text(s, j);
    }
    std::string type = s.chance(1, 5) ? hostile_type(s, b.m) : b.type;
    c.key(b.abi_json);
    c.key(type);
    c.key(j);
    c.nontrivial();
    c.note("type", [&] { return type; });
    c.note("json", [&] { return pbt::quote(j); });
    Ctx x;
    x.set_abi(OTHER, PROBE);
    load(c, x, b);
    std::string o;
    bool ok = metered(c, "json_to_bin", b.abi_json.size(), j.size(), [&] { return x.j2b(CONTRACT, type, j, false, o); });
    check_err(c, x, ok);
    c.label(ok ? "json-accepted" : "json-rejected");
    ok = metered(c, "json_to_bin_reorderable", b.abi_json.size(), j.size(), [&] { return x.j2b(CONTRACT, type, j, true, o); });
    check_err(c, x, ok);
    usable(c, x);
}
// every scalar with hostile text and hostile bytes
PROP(scalars, 5) {
    auto& s = c.s;
    AbiModel m;
    Sc k = Sc(s.below(int(Sc::COUNT)));
    std::string type = sc_name(k);
    Bytes w = gen_scalar(k, s);
    std::string t;
    if (s.chance(1, 4)) {
        static const char* rep[] = {"1", "9", "f", "z", " ", "-", ".", "0", "A", "EOS", "PUB_K1_", "SIG_WA_", "2000-01-01T00:00:00", ",", ":", "1e", "\\u0000", "\\u00e9"};
        for (size_t n = s.below(s.chance(1, 6) ? 1500 : 60); n--;) t += rep[s.below(18)];
        t = "\"" + t + "\"";
    } else t = mutate(s, scalar_json(k, w, s, true), 1 + int(s.below(3)));
    w = mutate(s, w, 1 + int(s.below(3)));
    c.key(type);
    c.key(t);
    c.key(w);
    c.nontrivial();
    c.note("type", [&] { return type; });
    c.note("json", [&] { return pbt::quote(t); });
    c.note("bin", [&] { return pbt::hexs(w); });
    Ctx x;
    x.set_abi(OTHER, PROBE);
    x.set_abi(CONTRACT, "{\"version\":\"eosio::abi/1.0\"}");
    poke(c, x, type, w, t, 64);
    poke(c, x, type + "[]", char(1 + s.below(3)) + w, "[" + t + "]", 64);
    usable(c, x);
    std::string nm = raw(s, 30);
    (void)abieos_string_to_name(x.c, nm.c_str());
    (void)abieos_name_to_string(x.c, s.u64());
}
PROP(deep_data, 2) {
    auto& s = c.s;
    AbiModel m;
    int st;
    chain_type(m, st);
    std::string abi = doc_json(make_doc(m, s));
    size_t n = s.chance(1, 3) ? s.below(200) : s.chance(1, 4) ? 5000 : s.below(1500);
    std::string w, j;
    for (size_t i = 0; i < n; ++i) { w += "\x05\x01"; j += "{\"v\":5,\"next\":"; }
    w += '\x06';
    w += '\0';
    j += "{\"v\":6,\"next\":null}" + std::string(n, '}');
    if (s.chance(1, 4)) w.resize(s.below(w.size()));
    if (s.chance(1, 4)) j.resize(s.below(j.size()));
    c.key(std::to_string(n));
    c.nontrivial();
    c.note("depth", [&] { return std::to_string(n); });
    Ctx x;
    x.set_abi(OTHER, PROBE);
    if (!x.set_abi(CONTRACT, abi)) c.fail("abi-rejected", x.error());
    std::string o;
    bool ok = metered(c, "bin_to_json", abi.size(), w.size(), [&] { return x.b2j(CONTRACT, "chain_link", w, o); });
    if (ok && n > 400) c.fail("no-depth-limit", "binary data nested " + std::to_string(n) + " deep was accepted");
    for (int r = 0; r < 2; ++r) {
        ok = metered(c, "json_to_bin", abi.size(), j.size(), [&] { return x.j2b(CONTRACT, "chain_link", j, r, o); });
        if (ok && n > 400) c.fail("no-depth-limit", "JSON nested " + std::to_string(n) + " deep was accepted");
    }
    usable(c, x);
}
// long chains of aliases, bases, optionals
PROP(deep_abi, 2) {
    auto& s = c.s;
    size_t n = s.chance(1, 2) ? s.below(80) : s.below(600);
    int kind = int(s.below(4));
    bool rev = s.flip(), cyc = s.chance(1, 3);
    std::string types, structs, variants;
    auto nm = [&](size_t i) { char b[32]; snprintf(b, sizeof b, "n%05zu", rev ? 99999 - i : i); return std::string(b); };
    for (size_t i = 0; i < n; ++i) {
        std::string nx = i + 1 < n ? nm(i + 1) : cyc ? nm(0) : kind == 2 ? "" : "uint8";
        if (kind == 0) types += (i ? "," : "") + ("{\"new_type_name\":\"" + nm(i) + "\",\"type\":\"" + nx + "\"}");
        if (kind == 1) structs += (i ? "," : "") + ("{\"name\":\"" + nm(i) + "\",\"base\":\"\",\"fields\":[{\"name\":\"f\",\"type\":\"" + nx + "\"}]}");
        if (kind == 2) structs += (i ? "," : "") + ("{\"name\":\"" + nm(i) + "\",\"base\":\"" + nx + "\",\"fields\":[{\"name\":\"f" + std::to_string(i) + "\",\"type\":\"uint8\"}]}");
        if (kind == 3) variants += (i ? "," : "") + ("{\"name\":\"" + nm(i) + "\",\"types\":[\"" + nx + "\"]}");
    }
    std::string abi = "{\"version\":\"eosio::abi/1.1\",\"types\":[" + types + "],\"structs\":[" + structs + "],\"variants\":[" + variants + "]}";
    c.key(abi);
    c.nontrivial();
    c.note("shape", [&] { return std::to_string(kind) + " length " + std::to_string(n) + (cyc ? " cyclic" : "") + (rev ? " reversed" : ""); });
    Ctx x;
    x.set_abi(OTHER, PROBE);
    bool ok = metered(c, "set_abi", abi.size(), abi.size() / 64, [&] { return x.set_abi(CONTRACT, abi); });
    check_err(c, x, ok);
    if (ok && cyc && n && (kind == 0 || kind == 2)) c.fail("cycle-accepted", "a cyclic definition was accepted");
    if (ok && n) poke(c, x, nm(s.below(n)), raw(s, 80), "{}", abi.size());
    usable(c, x);
}
// deeply nested JSON that no type asks for: unknown members, values of the wrong shape
PROP(deep_json, 1) {
    auto& s = c.s;
    size_t n = s.chance(1, 4) ? 20000 + s.below(280000) : s.chance(1, 2) ? s.below(3000) : s.below(300);
    int kind = int(s.below(3));  // arrays, objects, both
    std::string open, close;
    for (size_t i = 0; i < n; ++i) {
        bool arr = kind == 0 || (kind == 2 && i % 3);
        open += arr ? "[" : "{\"a\":";
        close += arr ? ']' : '}';
    }
    std::reverse(close.begin(), close.end());
    std::string v = open + (s.flip() ? "1" : "null") + close;
    int end = int(s.below(4));  // whole, cut somewhere, cut after the opening run, closed wrongly
    if (end == 1) v.resize(s.below(v.size() + 1));
    if (end == 2) v.resize(open.size());
    if (end == 3) v = open + "]" + close;
    c.key(v);
    c.nontrivial();
    c.note("shape", [&] { return std::to_string(n) + " levels, kind " + std::to_string(kind) + ", end " + std::to_string(end); });
    AbiModel m;
    int st;
    chain_type(m, st);
    std::string abi = doc_json(make_doc(m, s));
    static const char* keys[] = {"zzz", "types", "structs", "version", "actions", "abi_extensions", "variants", "error_messages"};
    const char* key = keys[s.below(8)];
    std::string bad = "{\"" + std::string(key) + "\":" + v + "," + abi.substr(1);
    Ctx x;
    x.set_abi(OTHER, PROBE);
    bool ok = metered(c, "set_abi", bad.size(), bad.size() / 64, [&] { return x.set_abi(CONTRACT, bad); });
    check_err(c, x, ok);
    if (!x.set_abi(CONTRACT, abi)) c.fail("abi-rejected", x.error());
    static const char* types[] = {"chain_link", "chain_link[]", "chain_link?", "uint8", "uint8[]", "bool", "string", "name", "asset", "bytes", "extended_asset", "public_key", "float64"};
    std::string type = types[s.below(13)], j = v, o;
    switch (s.below(4)) {
    case 0: j = "{\"v\":5,\"next\":null,\"zz\":" + v + "}"; break;
    case 1: j = "{\"zz\":" + v + ",\"v\":5,\"next\":null}"; break;
    case 2: j = "{\"v\":5,\"next\":" + v + "}"; break;
    default: break;
    }
    for (int r = 0; r < 2; ++r) check_err(c, x, metered(c, "json_to_bin", abi.size(), j.size(), [&] { return x.j2b(CONTRACT, type, j, r, o); }));
    usable(c, x);
}
// native decoding of arbitrary bytes
struct nrec {
    uint8_t a;
    std::vector<std::string> b;
    std::optional<std::vector<uint64_t>> c;
    std::variant<uint32_t, std::string, std::vector<uint8_t>> d;
    std::map<std::string, std::vector<uint16_t>> e;
    std::list<std::pair<uint32_t, std::string>> f;
    std::deque<std::optional<bool>> g;
    std::set<std::string> h;
    eosio::public_key k;
    eosio::signature l;
    eosio::asset m;
};
EOSIO_REFLECT(nrec, a, b, c, d, e, f, g, h, k, l, m)
template <class T> static void native_bin(pbt::Case& c, const char* name, const std::string& w) {
    std::vector<char> e(w.begin(), w.end());
    e.shrink_to_fit();
    pbt::mem_reset();
    try {
        T v{};
        eosio::input_stream st(e.data(), e.size());
        from_bin(v, st);
        if (st.pos > e.data() + e.size()) c.fail("overrun", "stream ended beyond its buffer");
    } catch (std::exception&) {}
    size_t p = pbt::mem_peak();
    if (p > (size_t(4) << 20) + 2000 * w.size()) c.fail("memory-from_bin", std::string(name) + " used " + std::to_string(p) + " bytes for " + std::to_string(w.size()) + " bytes of input");
}
PROP(native, 5) {
    auto& s = c.s;
    std::string w;
    if (s.chance(1, 3)) w = raw(s, 300);
    else {
        w += char(s.byte());
        put_varuint(w, 2); put_str(w, "ab"); put_str(w, "");
        w += '\x01'; put_varuint(w, 2); w.append(16, 'q');
        w += char(s.below(4));
        if (w.back() == 0) w.append(4, 'x'); else put_str(w, "zz");
        put_varuint(w, 1); put_str(w, "k"); put_varuint(w, 2); w.append(4, 'y');
        put_varuint(w, 1); w.append(4, 'i'); put_str(w, "v");
        put_varuint(w, 2); w += std::string("\x01\x00\x00", 3);
        put_varuint(w, 1); put_str(w, "s");
        w += gen_key(s, KeyKind::pub);
        w += gen_key(s, KeyKind::sig);
        w += gen_scalar(Sc::asset, s);
        w = mutate(s, w, int(s.below(4)));
    }
    c.key(w);
    c.nontrivial();
    c.note("bin", [&] { return pbt::hexs(w); });
    switch (s.below(9)) {
    case 0: native_bin<nrec>(c, "record", w); break;
    case 1: native_bin<eosio::abi_def>(c, "abi_def", w); break;
    case 2: native_bin<std::vector<std::string>>(c, "vector<string>", w); break;
    case 3: native_bin<std::vector<std::vector<uint64_t>>>(c, "vector<vector<uint64>>", w); break;
    case 4: native_bin<std::map<std::string, std::map<uint32_t, std::string>>>(c, "map", w); break;
    case 5: native_bin<std::vector<__int128>>(c, "vector<int128>", w); break;
    case 6: native_bin<std::tuple<std::string, std::vector<uint32_t>, eosio::varuint32, eosio::varint32>>(c, "tuple", w); break;
    case 7: native_bin<std::vector<eosio::public_key>>(c, "keys", w); break;
    default: native_bin<eosio::bytes>(c, "bytes", w); native_bin<std::string>(c, "string", w); native_bin<std::vector<uint16_t>>(c, "u16s", w); break;
    }
    // JSON of the same nature
    std::string j = s.flip() ? mutate(s, "{\"a\":1,\"b\":[\"x\"],\"zz\":{\"q\":[1,{}]},\"c\":null,\"d\":[\"uint32\",5]}", 1 + int(s.below(3))) : raw(s, 100);
    j.append(3, '\0');
    pbt::mem_reset();
    try {
        struct A {};
        eosio::json_token_stream st(j.data());
        eosio::from_json_skip_value(st);
    } catch (std::exception&) {}
    j.resize(strlen(j.c_str()));
    if (pbt::mem_peak() > (size_t(4) << 20)) c.fail("memory-skip", "skipping a JSON value used much memory");
}
PROP(nulls, 1) {
    Ctx x;
    x.set_abi(CONTRACT, PROBE);
    auto& s = c.s;
    c.nontrivial();
    int k = int(s.below(12));
    c.key(std::to_string(k));
    c.note("call", [&] { return std::to_string(k); });
    switch (k) {
    case 0: c.require(!abieos_set_abi(x.c, CONTRACT, nullptr), "null", "set_abi(null) succeeded"); break;
    case 1: c.require(!abieos_set_abi_bin(x.c, CONTRACT, nullptr, s.below(100)), "null", "set_abi_bin(null) succeeded"); break;
    case 2: c.require(!abieos_set_abi_hex(x.c, CONTRACT, nullptr), "null", "set_abi_hex(null) succeeded"); break;
    case 3: c.require(!abieos_json_to_bin(x.c, CONTRACT, nullptr, "{}"), "null", "json_to_bin(null type) succeeded"); break;
    case 4: c.require(!abieos_json_to_bin(x.c, CONTRACT, "p", nullptr), "null", "json_to_bin(null json) succeeded"); break;
    case 5: c.require(!abieos_json_to_bin_reorderable(x.c, CONTRACT, "p", nullptr), "null", "reorderable(null json) succeeded"); break;
    case 6: c.require(!abieos_json_to_bin_reorderable(x.c, CONTRACT, nullptr, "{}"), "null", "reorderable(null type) succeeded"); break;
    case 7: c.require(!abieos_bin_to_json(x.c, CONTRACT, "p", nullptr, 5), "null", "bin_to_json(null data) succeeded"); break;
    case 8: c.require(!abieos_bin_to_json(x.c, CONTRACT, nullptr, "abc", 3), "null", "bin_to_json(null type) succeeded"); break;
    case 9: c.require(!abieos_hex_to_json(x.c, CONTRACT, "p", nullptr), "null", "hex_to_json(null hex) succeeded"); break;
    case 10: c.require(!abieos_hex_to_json(x.c, CONTRACT, nullptr, "00"), "null", "hex_to_json(null type) succeeded"); break;
    default:  // null context
        c.require(!abieos_set_abi(nullptr, 0, "{}") && !abieos_set_abi_bin(nullptr, 0, "a", 1) && !abieos_set_abi_hex(nullptr, 0, "00") &&
                  !abieos_json_to_bin(nullptr, 0, "a", "{}") && !abieos_json_to_bin_reorderable(nullptr, 0, "a", "{}") &&
                  !abieos_bin_to_json(nullptr, 0, "a", "", 0) && !abieos_hex_to_json(nullptr, 0, "a", "") && !abieos_get_type_for_action(nullptr, 0, 0) &&
                  !abieos_get_type_for_table(nullptr, 0, 0) && !abieos_get_bin_data(nullptr) && !abieos_get_bin_size(nullptr) && !abieos_get_bin_hex(nullptr) &&
                  !abieos_name_to_string(nullptr, 0) && abieos_get_error(nullptr), "null", "a call with a null context did not fail");
        abieos_destroy(nullptr);
    }
    x.set_abi(OTHER, PROBE);
    usable(c, x);
}

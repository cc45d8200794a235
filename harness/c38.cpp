// What a rejected call says: one fault in an otherwise good input, and the message that names it.
#include <eosio/asset.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/name.hpp>
#include <eosio/to_bin.hpp>
#include "jnode.hpp"
using namespace ref;

namespace {
const char* const no_field = "Expected field";
const char* const more_field = "Unexpected field";
const char* const want_string = "Expected string";
const char* const want_variant = "Expected variant: [\"type\", value]";
void expect(pbt::Case& c, bool failed, const std::string& got, const std::string& want, const char* what) {
    if (!failed) c.fail(std::string("accepted-") + what, "accepted");
    if (got != want) c.fail(std::string("message-") + what, "says " + pbt::quote(got) + " instead of " + pbt::quote(want));
}
void before(pbt::Case& c, Ctx& x);
void j2b(pbt::Case& c, Ctx& x, const Built& b, const std::string& type, const std::string& j, const std::string& ordered, const std::string& reorderable, const char* what) {
    std::string out;
    if (!ordered.empty()) expect(c, !x.j2b(CONTRACT, type, j, false, out), x.error(), ordered, what);
    before(c, x);
    if (!reorderable.empty()) expect(c, !x.j2b(CONTRACT, type, j, true, out), x.error(), reorderable, what);
    (void)b;
}
void b2j(pbt::Case& c, Ctx& x, const std::string& type, const Bytes& w, const std::string& want, const char* what) {
    std::string out;
    expect(c, !x.b2j(CONTRACT, type, w, out), x.error(), want, what);
    before(c, x);
    expect(c, !x.h2j(CONTRACT, type, hex_any(c.s, w), out), x.error(), want, what);
}
// what happened on the context earlier must not show in a message
void before(pbt::Case& c, Ctx& x) {
    auto& s = c.s;
    uint64_t other = CONTRACT + 16;
    std::string out;
    for (size_t k = s.below(4); k; --k) switch (s.below(9)) {
        case 0: (void)x.j2b(other, "uint8", "1", s.flip(), out); break;
        case 1: (void)x.b2j(CONTRACT, "no_such_type_at_all", "x", out); break;
        case 2: (void)x.h2j(CONTRACT, "uint8", "0x", out); break;
        case 3: (void)x.j2b(CONTRACT, "uint8", "[", s.flip(), out); break;
        case 4: (void)abieos_set_abi(x.c, other, "{\"version\":\"\"}"); break;
        case 5: (void)abieos_set_abi_bin(x.c, other, nullptr, 0); break;
        case 6: (void)x.b2j(CONTRACT, "uint8", "ab", out); break;
        case 7: (void)x.b2j(CONTRACT, "uint8", "a", out); break;
        default: (void)abieos_get_type_for_action(x.c, other, 1);
        }
}
Built good(pbt::Case& c) {
    AbiOpts o;
    o.wide_variants = false;
    return build_case(c, o);
}
// a text which is no value of the scalar, and what is said about it
bool bad_text(pbt::Source& s, Sc k, std::string& t, std::string& says) {
    auto in = int_info(k);
    if (in.ok) {
        if (s.flip()) {
            bool neg = in.sgn && s.flip();
            u128 top = neg ? u128(1) << (in.bits - 1) : ~u128(0) >> (128 - in.bits + (in.sgn ? 1 : 0));
            // one or more beyond the limit, or far beyond it
            std::string n = top == ~u128(0) ? "340282366920938463463374607431768211456" : pbt::to_s(u128(top + 1));
            if (s.flip()) n += std::string(1 + s.below(30), char('0' + s.below(10)));
            t = (neg ? "-" : "") + n;
            if (in.bits <= 32 && s.flip()) return says = "number is out of range", true;
            t = "\"" + t + "\"";
            says = "number is out of range";
        } else {
            static const char* bad[] = {"", "1x", "x", "-", "+1", " 1", "1 ", "0x1", "1.0", "1e1", "--1"};
            t = json_str(bad[s.below(11)]);
            if (!in.sgn && s.chance(1, 5)) t = "\"-1\"";
            says = "Expected integer";
        }
        return true;
    }
    auto pick = [&](std::vector<const char*> v) { t = json_str(v[s.below(v.size())]); };
    switch (k) {
    case Sc::f32: case Sc::f64: pick({"", "zz", "1x", "1.5 ", "--1", "1,5"}); says = "Expected number or boolean"; return true;
    case Sc::tp: case Sc::tps: case Sc::bts: pick({"", "yesterday", "2020-01-01", "2020-13-01T00:00:00", "2020-01-32T00:00:00", "01-01-2020T00:00:00"}); says = "Expected time point"; return true;
    case Sc::bytes: pick({"1", "abc", "0g", "0x01", "zz", " 00 "}); says = "Expected string containing hex"; return true;
    case Sc::c160: case Sc::c256: case Sc::c512: {
        size_t n = k == Sc::c160 ? 20 : k == Sc::c256 ? 32 : 64;
        std::string h(n * 2, 'a');
        switch (s.below(3)) {
        case 0: h.resize((n - 1 - s.below(n)) * 2); says = "Hex string has incorrect length"; break;
        case 1: h += std::string(2 + 2 * s.below(3), '0'); says = "Hex string has incorrect length"; break;
        default: h[s.below(h.size())] = 'g'; says = "Expected string containing hex";
        }
        t = json_str(h);
        return true;
    }
    case Sc::pub: pick({"", "PUB", "PUB_XX_6MRyAjQq8ud7hVNYcfnVPJqcVpscN5So8BhtHuGYqET5GDW5CV", "KEY", "EO"}); says = "Expected public key"; return true;
    case Sc::pvt: pick({"PVT_", "PVT_XX_2bfGi9rYsXQSXXTvJbDAPhHLQUojjaNLomdm3cEJ1XTzMqUt3V", "PVT_WA_11"}); says = "Expected private key"; return true;
    case Sc::sig: pick({"", "SIG", "SIG_XX_111", "K1"}); says = "Expected signature"; return true;
    case Sc::symcode: pick({"sys", "SYSTEMXYZ", "S S", "A1"}); says = "Expected symbol code"; return true;
    case Sc::symbol: pick({"", "SYS", "4SYS", "4,sys", "256,SYS", ",SYS"}); says = "Expected symbol"; return true;
    default: return false;
    }
}
}  // namespace

// members missing, unknown, out of order; values of the wrong kind; text that is no value
PROP(json, 8) {
    auto& s = c.s;
    auto b = good(c);
    Node root = build(b.m, b.v, s, true);
    std::vector<Node*> all;
    collect(root, all);
    Node& n = *all[s.below(all.size())];
    const Val& v = *n.v;
    auto& d = b.m.defs[v.t.def];
    std::string ord, reo;
    const char* what = "";
    auto leaf = [&](const std::string& t) { Node x; x.text = t; n = x; };
    auto pick = [&](std::vector<const char*> q) { leaf(q[s.below(q.size())]); };
    if (v.t.suf == Suf::opt && n.k == Node::leaf) throw pbt::Discard{};
    bool opt = v.t.suf == Suf::opt;
    if (opt) throw pbt::Discard{};  // the value inside is a node of its own when present
    if (v.t.suf == Suf::arr) {
        what = "array";
        pick({"{}", "\"\"", "5", "true", "\"[]\"", "{\"a\":1}"});
        ord = reo = "Expected [";
    } else if (d.k == Def::scalar) {
        std::string t;
        if (s.flip() && bad_text(s, d.sc, t, ord)) { what = "text"; leaf(t); reo = ord; c.label(sc_name(d.sc)); }
        else if (d.sc == Sc::bool_) { what = "bool"; pick({"\"true\"", "1", "0", "{}", "[]", "\"\""}); ord = reo = "Expected true or false"; }
        else { what = "scalar"; pick({"{}", "[]", "true", "false", "[1]", "{\"value\":1}"}); ord = reo = want_string; }
    } else if (d.k == Def::variant) {
        what = "variant";
        Node t;
        switch (s.below(6)) {
        case 0: pick({"{}", "\"uint8\"", "7", "true"}); ord = "Expected ["; reo = want_variant; break;
        case 1: n.a.clear(); ord = reo = want_variant; break;
        case 2: n.a.pop_back(); ord = reo = want_variant; break;
        case 3: t.text = gen_junk(s); n.a.push_back(t); ord = reo = want_variant; break;
        case 4: {
            std::string tag = "nosuch" + std::to_string(s.below(50));
            for (auto& al : d.alts) while (tag == b.m.text(al)) tag += "q";
            n.a[0].text = json_str(tag);
            ord = reo = "Invalid type for variant";
            break;
        }
        default: n.a[0].text = s.pick({"null", "true", "[]", "{}"}); ord = want_string; reo = want_variant;
        }
    } else {
        auto fs = b.m.all_fields(v.t.def);
        size_t i = n.o.empty() ? 0 : s.below(n.o.size());
        int mode = int(s.below(4));
        if (n.o.empty()) mode = s.flip() ? 0 : 2;
        std::string unknown = "zz";
        for (auto& f : fs) if (f.name == unknown) throw pbt::Discard{};
        switch (mode) {
        case 0:
            what = "object";
            pick({"[]", "\"\"", "7", "false", "[{}]"});
            ord = reo = "Expected {";
            break;
        case 1:
            what = "missing";
            if (n.allow && fs[i].type.ext) {
                if (i + 1 == n.o.size()) throw pbt::Discard{};
                // what follows an omitted extension is one too many, unless the next name is already wrong
                reo = more_field;
                ord = no_field;
            } else ord = reo = no_field;
            n.o.erase(n.o.begin() + i);
            break;
        case 2: {
            what = "unknown";
            Node j;
            j.text = gen_junk(s);
            size_t at = s.below(n.o.size() + 1);
            ord = at == fs.size() ? more_field : no_field;
            n.o.insert(n.o.begin() + at, {unknown, j});
            break;
        }
        default:
            what = "order";
            if (n.o.size() < 2) throw pbt::Discard{};
            i = s.below(n.o.size() - 1);
            if (n.o[i].first == n.o[i + 1].first) throw pbt::Discard{};
            std::swap(n.o[i], n.o[i + 1]);
            ord = no_field;
        }
    }
    c.label(what);
    c.nontrivial();
    std::string j;
    render(root, s, j);
    c.key(j);
    c.note("json", [&] { return j; });
    Ctx x;
    load(c, x, b);
    before(c, x);
    j2b(c, x, b, b.type, j, ord, reo, what);
}
// text which is not JSON
PROP(text, 4) {
    auto& s = c.s;
    auto b = good(c);
    Node root = build(b.m, b.v, s, true);
    std::string j, ord;
    render(root, s, j);
    const char* what;
    switch (s.below(3)) {
    case 0: {
        what = "trailing";
        static const char* tr[] = {"1", " x", ",", "}", "]", "{}", "null", " \"\""};
        j += " " + std::string(tr[s.below(8)]);
        ord = "The document root must not follow by other values";
        break;
    }
    case 1: {
        what = "literal";
        // a value of its own kind of error wherever the first value stands
        j = s.pick({"nul", "tru", "falsch", "'a'", "undefined", "None", "?"});
        ord = "Invalid value";
        break;
    }
    default:
        what = "empty";
        j = "";
        ord = "The document is empty";
        break;
    }
    c.label(what);
    c.nontrivial();
    c.key(j);
    c.note("json", [&] { return j; });
    Ctx x;
    load(c, x, b);
    before(c, x);
    j2b(c, x, b, b.type, j, ord, "Unspecific syntax error", what);
}
// bytes
PROP(binary, 5) {
    auto& s = c.s;
    auto b = good(c);
    Ctx x;
    load(c, x, b);
    before(c, x);
    c.nontrivial();
    Bytes w = b.wire;
    if (s.flip()) {
        w += Bytes(1 + s.below(3), char(s.byte()));
        c.label("extra");
        // with extensions at the end, what follows may be read as one
        std::string out, plain;
        if (!x.b2j(CONTRACT, b.type, b.wire, plain)) c.fail("good", x.error());
        AbiOpts o;
        std::function<bool(TR, int)> ext = [&](TR t, int depth) -> bool {
            t = b.m.resolve(t);
            if (depth > 6) return true;
            auto& d = b.m.defs[t.def];
            if (d.k == Def::variant) { for (auto& a : d.alts) if (ext(a, depth + 1)) return true; return false; }
            if (d.k == Def::struct_) for (auto& f : b.m.all_fields(t.def)) if (f.type.ext || ext(f.type, depth + 1)) return true;
            return false;
        };
        if (ext(b.root, 0)) throw pbt::Discard{};
        b2j(c, x, b.type, w, "Extra data", "extra");
        return;
    }
    if (w.empty()) throw pbt::Discard{};
    w.resize(s.below(w.size()));
    std::string out;
    if (x.b2j(CONTRACT, b.type, w, out)) throw pbt::Discard{};  // extensions may be cut off; C06 and C07 decide which
    c.label("truncated");
    b2j(c, x, b.type, w, "Stream overrun", "truncated");
}
// names of contracts, types, actions and tables; variant indices; lengths; hex
PROP(lookups, 4) {
    auto& s = c.s;
    auto b = good(c);
    Ctx x;
    c.nontrivial();
    uint64_t other = gen_name(s), act = gen_name(s);
    std::string out, js;
    if (other == CONTRACT) ++other;
    load(c, x, b);
    before(c, x);
    std::string contract = "contract \"" + name_text(other) + "\"", here = "contract \"" + name_text(CONTRACT) + "\"";
    c.key(std::to_string(other) + " " + std::to_string(act));
    switch (s.below(9)) {
    case 8: {
        c.label("depth");
        AbiModel m;
        Def d;
        d.k = Def::struct_;
        d.name = "r";
        int self = int(m.defs.size());
        bool arr = s.flip();
        d.fields.push_back({"n", TR{self, arr ? Suf::arr : Suf::opt}});
        m.defs.push_back(d);
        if (!x.set_abi(CONTRACT, doc_json(make_doc(m, s)))) c.fail("abi", x.error());
        size_t depth = 140 + s.below(300);
        std::string open, close;
        for (size_t i = 0; i < depth; ++i) { open += arr ? "{\"n\":[" : "{\"n\":"; close += arr ? "]}" : "}"; }
        c.key(std::to_string(depth));
        j2b(c, x, b, "r", open + (arr ? "" : "null") + close, "Recursion limit reached", "", "depth");
        b2j(c, x, "r", Bytes(depth, '\1') + Bytes(1, '\0'), "Recursion limit reached", "depth");
        break;
    }
    case 0:
        c.label("contract");
        expect(c, !x.j2b(other, b.type, "0", false, out), x.error(), contract + " is not loaded", "contract");
        expect(c, !x.j2b(other, b.type, "0", true, out), x.error(), contract + " is not loaded", "contract");
        expect(c, !x.b2j(other, b.type, b.wire, out), x.error(), contract + " is not loaded", "contract");
        expect(c, !x.h2j(other, b.type, hex_any(s, b.wire), out), x.error(), contract + " is not loaded", "contract");
        expect(c, !abieos_get_type_for_action(x.c, other, act), x.error(), contract + " is not loaded", "contract");
        expect(c, !abieos_get_type_for_table(x.c, other, act), x.error(), contract + " is not loaded", "contract");
        break;
    case 1:
        c.label("action");
        for (auto& a : b.m.actions) if (a.name == act) throw pbt::Discard{};
        for (auto& a : b.m.tables) if (a.name == act) throw pbt::Discard{};
        expect(c, !abieos_get_type_for_action(x.c, CONTRACT, act), x.error(), here + " does not have action \"" + name_text(act) + "\"", "action");
        expect(c, !abieos_get_type_for_table(x.c, CONTRACT, act), x.error(), here + " does not have table \"" + name_text(act) + "\"", "table");
        break;
    case 2: {
        c.label("type");
        std::string t = "nosuch" + std::to_string(s.below(100)) + s.pick({"", "?", "[]", "$", "?$"});
        j2b(c, x, b, t, "0", "Unknown type", "Unknown type", "type");
        b2j(c, x, t, b.wire, "Unknown type", "type");
        break;
    }
    case 3: {
        c.label("nesting");
        std::string t = std::string(sc_name(Sc(s.below(int(Sc::COUNT))))) + s.pick({"??", "[][]", "?[]", "[]?", "$?", "$[]", "$$", "?$$"});
        j2b(c, x, b, t, "0", "Invalid nesting", "Invalid nesting", "nesting");
        b2j(c, x, t, b.wire, "Invalid nesting", "nesting");
        break;
    }
    case 4: {
        c.label("hex");
        std::string h = pbt::hexs(b.wire);
        if (h.empty()) h = "00";
        if (s.flip()) h.pop_back(); else h[s.below(h.size())] = "gG x:-"[s.below(6)];
        expect(c, !x.h2j(CONTRACT, b.type, h, out), x.error(), "expected hex string", "hex");
        expect(c, !abieos_set_abi_hex(x.c, CONTRACT, h.c_str()), x.error(), "expected hex string", "hex");
        break;
    }
    case 5: {
        c.label("index");
        AbiModel m;
        Def d;
        d.k = Def::variant;
        d.name = "v";
        for (size_t k = 1 + s.below(4), i = 0; i < k; ++i) d.alts.push_back(TR{int(i)});
        m.defs.push_back(d);
        if (!x.set_abi(CONTRACT, doc_json(make_doc(m, s)))) c.fail("abi", x.error());
        Bytes w;
        put_varuint(w, uint32_t(d.alts.size() + (s.flip() ? s.below(3) : uint32_t(s.uint_bits(31)))));
        b2j(c, x, "v", w + Bytes(s.below(20), '\1'), "Bad variant index", "index");
        break;
    }
    case 6: {
        c.label("varuint");
        std::string t = s.pick({"varuint32", "varint32", "string", "uint8[]", "symbol_code[]", "bytes"});
        // bytes has a 64-bit length in this library
        Bytes w(t == "bytes" ? 10 : 5, '\x80');
        b2j(c, x, t, w + Bytes(1 + s.below(5), char(s.byte() | (s.flip() ? 128 : 0))), "Invalid varuint encoding", "varuint");
        break;
    }
    default:
        c.label("none");
        expect(c, !abieos_set_abi_bin(x.c, CONTRACT, "x", 0), x.error(), "no data", "no-data");
        expect(c, !abieos_set_abi_bin(x.c, CONTRACT, nullptr, 5), x.error(), "no data", "no-data");
        expect(c, !abieos_set_abi_hex(x.c, CONTRACT, ""), x.error(), "no data", "no-data");
        if (std::string(abieos_get_error(nullptr)) != "context is null") c.fail("message-null", abieos_get_error(nullptr));
    }
}
// ABI definitions
PROP(definitions, 5) {
    auto& s = c.s;
    AbiOpts o;
    o.wide_variants = false;
    AbiModel m = gen_abi(s, o);
    AbiDoc d = make_doc(m, s);
    std::string want;
    const char* what;
    static const char* const suf[] = {"", "?", "[]", "$"};
    std::string unknown = "nosuch" + std::to_string(s.below(100)) + suf[s.below(4)];
    AbiDoc::S extra;
    extra.name = "extra_st";
    extra.fields.push_back({"a", "uint8"});
    std::string* at = nullptr;
    std::vector<std::string*> refs;
    for (auto& t : d.structs) for (auto& f : t.fields) refs.push_back(&f.second);
    for (auto& v : d.variants) for (auto& t : v.second) refs.push_back(&t);
    for (auto& t : d.types) refs.push_back(&t.second);
    if (!refs.empty()) at = refs[s.below(refs.size())];
    switch (s.below(8)) {
    case 0: d.version = s.pick({"", "eosio::abi/2.0", "eosio::abi/1", "abi", "eosio::abi/0.9"}); want = "unsupported abi version"; what = "version"; break;
    case 1:
        if (!at) throw pbt::Discard{};
        *at = unknown;
        want = "Unknown type";
        what = "unknown-type";
        break;
    case 2:
        if (!at) throw pbt::Discard{};
        *at = std::string(sc_name(Sc(s.below(int(Sc::COUNT))))) + s.pick({"??", "[][]", "?[]", "[]?", "$?", "$[]", "$$"});
        want = "Invalid nesting";
        what = "nesting";
        break;
    case 3: {
        what = "base";
        extra.base = s.pick({"uint8", "string", "name?", "uint8[]"});
        want = "Base not a struct";
        if (s.chance(1, 3)) { extra.base = "nosuch"; want = "Unknown type"; }
        d.structs.insert(d.structs.begin() + s.below(d.structs.size() + 1), extra);
        break;
    }
    case 4:
        what = "no-name";
        want = "Missing name";
        switch (s.below(3)) {
        case 0: extra.name = ""; d.structs.insert(d.structs.begin() + s.below(d.structs.size() + 1), extra); break;
        case 1: d.types.push_back({"", "uint8"}); break;
        default: d.variants.push_back({"", {"uint8"}});
        }
        break;
    case 5: {
        what = "redefined";
        want = "Redefined type";
        std::vector<std::string> names = {"uint8", "name", "extended_asset", "time_point"};
        for (auto& t : d.types) names.push_back(t.first);
        for (auto& t : d.structs) names.push_back(t.name);
        for (auto& t : d.variants) names.push_back(t.first);
        std::string n = names[s.below(names.size())];
        switch (s.below(3)) {
        case 0: extra.name = n; d.structs.insert(d.structs.begin() + s.below(d.structs.size() + 1), extra); break;
        case 1: d.types.insert(d.types.begin() + s.below(d.types.size() + 1), {n, "uint8"}); break;
        default: d.variants.push_back({n, {"uint8"}});
        }
        break;
    }
    case 6:
        what = "alias-of-extension";
        want = "Extension typedef";
        d.types.insert(d.types.begin() + s.below(d.types.size() + 1), {"extra_al", std::string(s.pick({"uint8", "string", "name?", "asset[]"})) + "$"});
        break;
    default: {
        what = "loop";
        want = "Recursion limit reached";
        switch (s.below(3)) {
        case 0: d.types.push_back({"loop_a", "loop_b"}); d.types.push_back({"loop_b", "loop_a"}); break;
        case 1: d.types.push_back({"loop_a", "loop_a"}); break;
        default: extra.base = extra.name; d.structs.push_back(extra);
        }
    }
    }
    c.label(what);
    c.nontrivial();
    std::string js = doc_json(d);
    Bytes bin = doc_bin(d);
    c.key(bin);
    c.note("abi", [&] { return js; });
    Ctx x;
    before(c, x);
    bool f = !x.set_abi(CONTRACT, js);
    expect(c, f, x.error(), want, what);
    before(c, x);
    f = !x.set_bin(CONTRACT, bin);
    expect(c, f, x.error(), want, what);
    f = !abieos_set_abi_hex(x.c, CONTRACT, hex_any(s, bin).c_str());
    expect(c, f, x.error(), want, what);
    if (want != "unsupported abi version" && s.chance(1, 4)) {
        // cut off within the version and the first counts
        Bytes cut = bin.substr(0, 1 + s.below(std::min<size_t>(bin.size(), d.version.size() + 2) - 1));
        f = !x.set_bin(CONTRACT, cut);
        expect(c, f, x.error(), "Stream overrun", "truncated-abi");
    }
}
// text which stops being JSON at one place
PROP(syntax, 6) {
    auto& s = c.s;
    auto b = good(c);
    Node root = build(b.m, b.v, s, true);
    std::string j;
    render(root, s, j);
    struct Tok { char kind; size_t at, len; char in; char next; };  // kind: { } [ ] , : s(tring) k(ey) n(umber) l(iteral)
    std::vector<Tok> ts;
    std::string in;
    for (size_t i = 0; i < j.size();) {
        char ch = j[i];
        if (ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r') { ++i; continue; }
        Tok t{ch, i, 1, in.empty() ? char(0) : in.back(), 0};
        if (ch == '"') {
            size_t e = i + 1;
            while (j[e] != '"') e += j[e] == '\\' ? 2 : 1;
            t.len = e + 1 - i;
            bool key = t.in == '{' && (ts.back().kind == '{' || ts.back().kind == ',');
            t.kind = key ? 'k' : 's';
        } else if (ch == '{' || ch == '[') in += ch;
        else if (ch == '}' || ch == ']') { in.pop_back(); t.in = in.empty() ? char(0) : in.back(); }
        else if (ch != ',' && ch != ':') {
            size_t e = i;
            while (e < j.size() && !strchr(" \n\t\r,]}", j[e])) ++e;
            t.len = e - i;
            t.kind = ch == '-' || (ch >= '0' && ch <= '9') ? 'n' : 'l';
        }
        ts.push_back(t);
        i = t.at + t.len;
    }
    static const char* const no_name = "Missing a name for object member";
    static const char* const no_colon = "Missing a colon after a name of object member";
    static const char* const no_curly = "Missing a comma or '}' after an object member";
    static const char* const no_square = "Missing a comma or ']' after an array element";
    auto some = [&](const char* kinds) -> Tok {
        std::vector<Tok> q;
        for (auto& t : ts) if (strchr(kinds, t.kind)) q.push_back(t);
        if (q.empty()) throw pbt::Discard{};
        return q[s.below(q.size())];
    };
    std::string want;
    const char* what;
    switch (s.below(7)) {
    case 0: {
        what = "colon";
        auto t = some(":");
        j.replace(t.at, 1, s.pick({" ", ",", "  ", "}", ";"}));
        want = no_colon;
        break;
    }
    case 1: {
        what = "comma";
        auto t = some(",");
        j.replace(t.at, 1, s.pick({" ", ":", " ;", " @ "}));
        want = t.in == '{' ? no_curly : no_square;
        break;
    }
    case 2: {
        what = "key";
        auto t = some("k");
        j.replace(t.at, t.len, s.pick({"1", "{}", "null", "name", "[\"a\"]", ",", "'a'"}));
        want = no_name;
        break;
    }
    case 3: {
        what = "escape";
        auto t = some("ks");
        const char* bad;
        switch (s.below(3)) {
        case 0: bad = s.pick({"\\x", "\\'", "\\a", "\\0", "\\ "}); want = "Invalid escape character in string"; break;
        case 1: bad = s.pick({"\\u12G4", "\\u_", "\\uD8 ", "\\u+123", "\\u00_0"}); want = "Incorrect hex digit after \\u escape in string"; break;
        default: bad = s.pick({"\\ud800x", "\\uDBFF\\u0041", "\\ud83d\\n", "\\uD83D\\uD83D"}); want = "The surrogate pair in string is invalid";
        }
        j.insert(t.at + 1, bad);
        break;
    }
    case 4: {
        what = "number";
        auto t = some("n");
        std::string n = j.substr(t.at, t.len);
        if (n.find_first_of(".eE") != n.npos) throw pbt::Discard{};
        switch (s.below(3)) {
        case 0: n += "."; want = "Miss fraction part in number"; break;
        case 1: n += s.pick({"e", "E", "e+", "E-", ".5e"}); want = "Miss exponent in number"; break;
        default: n = s.pick({"-", "+1", ".5", "-x"}); want = "Invalid value";
        }
        j.replace(t.at, t.len, n);
        break;
    }
    case 5: {
        what = "cut-string";
        auto t = some("ks");
        j.resize(t.at + 1);
        if (s.flip()) j += s.pick({"a", "abc de", "\\n", "\\\\", "\\\"", "\\u0041", "1,2]}"});
        want = "Missing a closing quotation mark in string";
        break;
    }
    default: {
        what = "cut";
        if (ts.size() < 2) throw pbt::Discard{};
        auto t = ts[s.below(ts.size() - 1)];
        j.resize(t.at + t.len);
        if (t.kind == '{' || (t.kind == ',' && t.in == '{')) want = no_name;
        else if (t.kind == '[' || t.kind == ':' || t.kind == ',') want = "Invalid value";
        else if (t.kind == 'k') want = no_colon;
        else want = t.in == '{' ? no_curly : no_square;
    }
    }
    c.label(what);
    c.nontrivial();
    c.key(j);
    c.note("json", [&] { return j; });
    Ctx x;
    load(c, x, b);
    before(c, x);
    j2b(c, x, b, b.type, j, want, "Unspecific syntax error", what);
}
// the C++ types: names, asset arithmetic, fixed arrays, sizes
namespace {
template <class F> void says(pbt::Case& c, F f, const std::string& want, const char* what) {
    bool failed = false;
    std::string got;
    try { f(); } catch (std::exception& e) { failed = true; got = e.what(); }
    expect(c, failed, got, want, what);
}
template <class F> void silent(pbt::Case& c, F f, const char* what) {
    try { f(); } catch (std::exception& e) { c.fail(std::string("refused-") + what, e.what()); }
}
}  // namespace
PROP(native, 3) {
    auto& s = c.s;
    using eosio::asset;
    c.nontrivial();
    switch (s.below(4)) {
    case 0: {
        c.label("name");
        std::string t = name_text(gen_name(s));
        std::string want;
        switch (s.below(3)) {
        case 0: {
            size_t at = t.empty() ? 0 : s.below(std::min<size_t>(t.size(), 13));
            char bad = "A6Z0_ 789-/\"$`{"[s.below(15)];
            if (at < t.size()) t[at] = bad; else t += bad;
            want = "character is not in allowed character set for names";
            break;
        }
        case 1:
            t.resize(12, 'a');
            t += "klmnopqrstuvwxyz"[s.below(16)];
            want = "thirteenth character in name cannot be a letter that comes after j";
            break;
        default:
            t.resize(13, '1');
            for (auto& ch : t) if (ch == '.') ch = 'b';
            t[12] = ".12345abcdefghij"[s.below(16)];
            t += std::string(1 + s.below(4), s.pick({"a", "1", "z", "."})[0]);
            want = "string is too long to be a valid name";
        }
        c.key(t);
        c.note("name", [&] { return t; });
        says(c, [&] { (void)eosio::name(std::string_view(t)).value; }, want, "name");
        says(c, [&] { (void)eosio::string_to_name_strict(t); }, want, "name");
        break;
    }
    case 1: {
        c.label("asset");
        const int64_t top = asset::max_amount;
        auto amount = [&]() -> int64_t {
            int64_t v = s.flip() ? top - int64_t(s.below(1000)) : int64_t(s.below(uint64_t(top)));
            return s.flip() ? -v : v;
        };
        int64_t a = amount(), d = amount();
        eosio::symbol sy(uint64_t('A' + s.below(26)) << 8 | s.below(19)), other(uint64_t('a' - 32 + s.below(26)) << 16 | uint64_t('Q') << 8 | s.below(19));
        asset x(a, sy), y(d, sy), z(d, other);
        bool wild = false;
        if (s.chance(1, 3)) {  // the members are public, and bytes carry any amount
            c.label("asset-any-amount");
            wild = true;
            x.amount = a = int64_t(s.flip() ? s.u64() : uint64_t(INT64_MAX) + s.below(3));
            y.amount = z.amount = d = int64_t(s.flip() ? s.u64() : uint64_t(INT64_MAX) + s.below(3));
        }
        c.key(std::to_string(a) + " " + std::to_string(d));
        c.note("amounts", [&] { return std::to_string(a) + " " + std::to_string(d); });
        auto judge = [&](__int128 exact, auto f, const std::string& op) {
            if (exact > top) says(c, f, op + " overflow", op.c_str());
            else if (exact < -top) says(c, f, op + " underflow", op.c_str());
            else if (!wild) silent(c, f, op.c_str());
        };
        auto keep = [&](const asset& v, int64_t n) { if (v.amount != n || v.symbol != sy) c.fail("changed", "a refused operation changed its operand"); };
        { asset t = x; judge(__int128(a) + d, [&] { t += y; }, "addition"); if (__int128(a) + d > top || __int128(a) + d < -top) keep(t, a); }
        { asset t = x; judge(__int128(a) - d, [&] { t -= y; }, "subtraction"); if (__int128(a) - d > top || __int128(a) - d < -top) keep(t, a); }
        judge(__int128(a) + d, [&] { (void)(x + y); }, "addition");
        judge(__int128(a) - d, [&] { (void)(x - y); }, "subtraction");
        int64_t k = s.flip() ? int64_t(s.below(5)) - 2 : int64_t(s.u64());
        { asset t = x; judge(__int128(a) * k, [&] { t *= k; }, "multiplication"); }
        judge(__int128(a) * k, [&] { (void)(x * k); }, "multiplication");
        judge(__int128(a) * k, [&] { (void)(k * x); }, "multiplication");
        says(c, [&] { asset t = x; t /= 0; }, "divide by zero", "division");
        says(c, [&] { (void)(x / asset(0, sy)); }, "divide by zero", "division");
        says(c, [&] { (void)(x + z); }, "attempt to add asset with different symbol", "symbols");
        says(c, [&] { (void)(x - z); }, "attempt to subtract asset with different symbol", "symbols");
        says(c, [&] { (void)(x == z); }, "comparison of assets with different symbols is not allowed", "symbols");
        says(c, [&] { (void)(x < z); }, "comparison of assets with different symbols is not allowed", "symbols");
        int64_t over = s.flip() ? top + 1 + int64_t(s.below(uint64_t(top))) : -top - 1 - int64_t(s.below(uint64_t(top)));
        says(c, [&] { asset t(over, sy); }, "magnitude of asset amount must be less than 2^62", "amount");
        says(c, [&] { asset t(1, eosio::symbol(uint64_t(s.below(65)) << 8)); }, "invalid symbol name", "symbol");
        break;
    }
    case 2: {
        c.label("array");
        uint32_t n = s.below(8);
        if (n == 4) n = 4 + 1 + s.below(100);
        Bytes w;
        put_varuint(w, n);
        w += Bytes(n * 8, '\0');
        c.key(w);
        auto from = [&](auto& v) { eosio::input_stream st(w.data(), w.size()); from_bin(v, st); };
        uint16_t a[4];
        std::string b[4];
        says(c, [&] { from(a); }, "T[] size and unpacked size don't match", "array");
        says(c, [&] { from(b); }, "T[] size and unpacked size don't match", "array");
        break;
    }
    default: {
        c.label("varuint");
        uint64_t v = (uint64_t(1) << 32) + (s.flip() ? s.below(10) : s.uint_bits(63));
        c.key(std::to_string(v));
        says(c, [&] { std::vector<char> o; eosio::vector_stream st(o); eosio::varuint32_to_bin(v, st); }, "Varuint too big", "varuint");
        says(c, [&] { eosio::size_stream st; eosio::varuint32_to_bin(v, st); }, "Varuint too big", "varuint");
    }
    }
}

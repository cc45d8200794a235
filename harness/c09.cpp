// JSON, binary and hex forms of an ABI definition are the same definition.
#include "capi.hpp"
#include "abieos.hpp"
using namespace ref;

static std::string obj(pbt::Source& s, std::vector<std::string> mem) {
    if (s.flip()) shuffle(s, mem);
    if (s.chance(1, 6)) mem.insert(mem.begin() + s.below(mem.size() + 1), "\"zz" + std::to_string(s.below(9)) + "\":" + gen_junk(s));
    std::string r = "{" + gen_ws(s);
    for (size_t i = 0; i < mem.size(); ++i) r += (i ? "," : "") + gen_ws(s) + mem[i];
    return r + gen_ws(s) + "}";
}
template <class T, class F> static std::string arr(pbt::Source& s, const std::vector<T>& v, F f) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + gen_ws(s) + f(v[i]);
    return r + "]";
}
// any equivalent JSON: members reordered, empty ones left out, unknown ones added
static std::string any_json(const AbiDoc& d, pbt::Source& s, bool& omitted) {
    using V = std::vector<std::string>;
    auto q = [&](const std::string& x) { return json_str_any(s, x); };
    auto str = [&](V& m, const char* k, const std::string& v) { if (v.empty() && s.flip()) { omitted = true; return; } m.push_back("\"" + std::string(k) + "\":" + q(v)); };
    auto list = [&](V& m, const char* k, bool empty, const std::string& v) { if (empty && s.flip()) { omitted = true; return; } m.push_back("\"" + std::string(k) + "\":" + v); };
    auto strs = [&](const V& v) { return arr(s, v, q); };
    auto nm = [&](V& m, uint64_t v) { if (!v && s.flip()) { omitted = true; return; } m.push_back("\"name\":" + q(name_text(v))); };
    V top;
    str(top, "version", d.version);
    list(top, "types", d.types.empty(), arr(s, d.types, [&](auto& t) { V m; str(m, "new_type_name", t.first); str(m, "type", t.second); return obj(s, m); }));
    list(top, "structs", d.structs.empty(), arr(s, d.structs, [&](auto& t) {
        V m;
        str(m, "name", t.name);
        str(m, "base", t.base);
        list(m, "fields", t.fields.empty(), arr(s, t.fields, [&](auto& f) { V n; str(n, "name", f.first); str(n, "type", f.second); return obj(s, n); }));
        return obj(s, m);
    }));
    list(top, "actions", d.actions.empty(), arr(s, d.actions, [&](auto& t) { V m; nm(m, t.name); str(m, "type", t.type); str(m, "ricardian_contract", t.ric); return obj(s, m); }));
    list(top, "tables", d.tables.empty(), arr(s, d.tables, [&](auto& t) {
        V m;
        nm(m, t.name);
        str(m, "index_type", t.index_type);
        list(m, "key_names", t.kn.empty(), strs(t.kn));
        list(m, "key_types", t.kt.empty(), strs(t.kt));
        str(m, "type", t.type);
        return obj(s, m);
    }));
    list(top, "ricardian_clauses", d.clauses.empty(), arr(s, d.clauses, [&](auto& t) { V m; str(m, "id", t.first); str(m, "body", t.second); return obj(s, m); }));
    list(top, "error_messages", d.errors.empty(), arr(s, d.errors, [&](auto& t) {
        V m;
        std::string n = std::to_string(t.first);
        m.push_back("\"error_code\":" + (s.flip() ? n : "\"" + n + "\""));
        str(m, "error_msg", t.second);
        return obj(s, m);
    }));
    list(top, "abi_extensions", true, "[]");
    list(top, "variants", d.variants.empty(), arr(s, d.variants, [&](auto& t) { V m; str(m, "name", t.first); list(m, "types", t.second.empty(), strs(t.second)); return obj(s, m); }));
    return obj(s, top);
}
struct Ab { AbiModel m; AbiDoc d; };
// one list, or one text, long enough for a length prefix of two or three bytes
static std::string long_text(pbt::Source& s) {
    static const size_t n[] = {126, 127, 128, 129, 300, 1000, 4096, 16383, 16384, 20000};
    return std::string(n[s.below(10)], char('a' + s.below(26)));
}
static void bulk(pbt::Source& s, AbiDoc& d) {
    static const size_t cnt[] = {126, 127, 128, 129, 200, 300};
    size_t n = cnt[s.below(6)];
    auto id = [](const char* p, size_t i) { return p + std::to_string(i); };
    switch (s.below(11)) {
    case 0: d.version = "eosio::abi/1." + long_text(s); break;
    case 1: for (size_t i = 0; i < n; ++i) d.types.push_back({id("zt", i), "uint8"}); break;
    case 2: for (size_t i = 0; i < n; ++i) d.structs.push_back({id("zs", i), "", {{"f", "uint8"}}}); break;
    case 3: { AbiDoc::S t{"zwide", "", {}}; for (size_t i = 0; i < n; ++i) t.fields.push_back({id("f", i), "uint8"}); d.structs.push_back(t); break; }
    case 4: for (size_t i = 0; i < n; ++i) d.actions.push_back({gen_name(s), id("zy", i), ""}); break;
    case 5: for (size_t i = 0; i < n; ++i) d.tables.push_back({gen_name(s), "i64", {}, {}, id("zy", i)}); break;
    case 6: for (size_t i = 0; i < n; ++i) d.clauses.push_back({id("c", i), ""}); break;
    case 7: for (size_t i = 0; i < n; ++i) d.errors.push_back({s.u64(), id("e", i)}); break;
    case 8: for (size_t i = 0; i < n; ++i) d.variants.push_back({id("zv", i), {"uint8"}}); break;
    case 9: { std::vector<std::string> v(n, "uint8"); d.variants.push_back({"zwidev", v}); break; }
    default: {
        auto t = long_text(s);
        d.types.push_back({"zl" + t, "uint8"});
        d.structs.push_back({"zm" + t, "zm", {{"f" + t, "zl" + t}}});
        d.structs.push_back({"zm", "", {}});
        d.actions.push_back({gen_name(s), "zm" + t, t});
        d.tables.push_back({gen_name(s), t, {t}, {t}, t});
        d.clauses.push_back({t, t});
        d.errors.push_back({s.u64(), t});
        d.variants.push_back({"zn" + t, {"zl" + t}});
    }
    }
}
static Ab gen(pbt::Source& s, bool exts) {
    Ab a;
    AbiOpts o;
    o.wide_variants = s.chance(1, 10);
    a.m = gen_abi(s, o);
    if (s.chance(1, 4)) a.m.version = "eosio::abi/1." + std::to_string(s.below(10));
    for (size_t k = s.below(4); k--;) a.m.actions.push_back({s.chance(1, 4) && !a.m.actions.empty() ? a.m.actions[0].name : gen_name(s), s.chance(1, 8) ? gen_utf8(s, 10) : a.m.text(gen_root(a.m, s))});
    for (size_t k = s.below(4); k--;) a.m.tables.push_back({s.chance(1, 4) && !a.m.tables.empty() ? a.m.tables[0].name : gen_name(s), s.chance(1, 8) ? gen_utf8(s, 10) : a.m.text(gen_root(a.m, s))});
    a.d = make_doc(a.m, s);
    for (auto& t : a.d.tables) {
        for (size_t k = s.below(3); k--;) t.kn.push_back(gen_utf8(s, 6));
        for (size_t k = s.below(3); k--;) t.kt.push_back(gen_utf8(s, 6));
    }
    if (exts) for (size_t k = s.below(3); k--;) a.d.exts.push_back({uint16_t(s.uint_bits(16)), gen_bytes(s, 40)});
    if (s.chance(1, 8)) a.d.clauses.push_back({gen_utf8(s, 300), gen_utf8(s, 300)});
    if (s.chance(1, 8)) a.d.version = "eosio::abi/1." + gen_utf8(s, 300);
    if (s.chance(1, 12)) bulk(s, a.d);
    return a;
}
// make some definitions ill-formed
static bool damage(pbt::Source& s, AbiDoc& d) {
    switch (s.below(5)) {
    case 0: d.version = s.flip() ? "eosio::abi/2.0" : ""; return true;
    case 1: d.types.push_back({s.flip() ? "uint8" : "", "uint16"}); return true;
    case 2: d.variants.push_back({"vdup", {"nosuchtype"}}); return true;
    case 3: d.structs.push_back({"sdup", "uint8", {}}); return true;
    default: d.types.push_back({"loopy", "loopy"}); return true;
    }
}
PROP(forms, 10) {
    auto& s = c.s;
    Ab a = gen(s, false);
    bool bad = s.chance(1, 6) && damage(s, a.d);
    bool omitted = false;
    std::string j = any_json(a.d, s, omitted);
    bool short_bin = a.d.variants.empty() && s.flip();
    auto wd = a.d;  // entries of abi_extensions exist only in binary, and change nothing
    if (s.chance(1, 4)) for (size_t k = s.chance(1, 20) ? 130 : 1 + s.below(3); k--;) wd.exts.push_back({uint16_t(s.uint_bits(16)), gen_bytes(s, 40)});
    Bytes bin = doc_bin(wd, short_bin);
    std::string hex = hex_any(s, bin);
    c.key(bin);
    c.key(j);
    if (a.d.structs.size() + a.d.variants.size() + a.d.types.size() > 1) c.nontrivial();
    if (omitted) c.label("members-left-out");
    if (bin.size() > 3000) c.label("long-definition");
    if (short_bin) c.label("variants-left-out");
    c.note("json", [&] { return j; });
    c.note("bin", [&] { return hex; });
    Ctx x[3];
    bool ok[3];
    {
        std::vector<char> w(bin.begin(), bin.end());
        w.shrink_to_fit();
        ok[0] = x[0].set_abi(CONTRACT, j);
        ok[1] = abieos_set_abi_bin(x[1].c, CONTRACT, w.data(), w.size());
        ok[2] = abieos_set_abi_hex(x[2].c, CONTRACT, hex.c_str());
    }
    static const char* form[] = {"json", "bin", "hex"};
    for (int i = 0; i < 3; ++i)
        if (ok[i] == bad) c.fail(std::string(form[i]) + (ok[i] ? "-accepted" : "-rejected"), std::string(form[i]) + " form " + (ok[i] ? "accepted an ill-formed definition" : "rejected: " + x[i].error()));
    if (bad) { c.label("ill-formed"); return; }
    auto same = [&](const char* what, uint64_t n, const char* const* want, const char* (*f)(abieos_context*, uint64_t, uint64_t)) {
        for (int i = 0; i < 3; ++i) {
            const char* g = f(x[i].c, CONTRACT, n);
            if (!*want != !g || (g && strcmp(g, *want))) c.fail(what, std::string(form[i]) + " form: " + what + " " + name_text(n) + " is " + (g ? g : "(none)") + " expected " + (*want ? *want : "(none)"));
            if (!g) c.require(!x[i].error().empty(), "no-error-text", "a failed lookup left no error");
        }
    };
    std::vector<uint64_t> names = {s.u64(), 0};
    for (auto& t : a.d.actions) names.push_back(t.name);
    for (auto& t : a.d.tables) names.push_back(t.name);
    for (auto n : names) {
        const char *wa = nullptr, *wt = nullptr;
        for (auto& t : a.d.actions) if (t.name == n) wa = t.type.c_str();
        for (auto& t : a.d.tables) if (t.name == n) wt = t.type.c_str();
        if (wa && strlen(wa) != std::string(wa).size()) continue;
        same("action", n, &wa, abieos_get_type_for_action);
        same("table", n, &wt, abieos_get_type_for_table);
    }
    for (int k = 0; k < 2; ++k) {
        TR root = gen_root(a.m, s);
        std::string type = a.m.text(root);
        GenVal g{a.m, s};
        g.budget = 25;
        Val v = g.gen(root, 0, true);
        Bytes w;
        encode(a.m, v, w);
        std::string in;
        JsonOpts jo;
        write_json(a.m, v, s, jo, in);
        for (int i = 0; i < 3; ++i) {
            std::string out, o2;
            if (!x[i].j2b(CONTRACT, type, in, false, out)) c.fail("conversion-rejected", std::string(form[i]) + " form: " + x[i].error() + " for " + type + " " + in);
            if (out != w) c.fail("conversion", std::string(form[i]) + " form: " + diff(out, w));
            if (!x[i].b2j(CONTRACT, type, w, o2)) c.fail("conversion-rejected", std::string(form[i]) + " form: " + x[i].error());
            if (i == 0) in = o2;
            else if (o2 != in) c.fail("conversion", std::string(form[i]) + " form gives " + o2 + " instead of " + in);
            if (i == 0) continue;
        }
    }
}
static std::string as_str(const std::vector<char>& v) { return std::string(v.begin(), v.end()); }
// reading a definition natively and writing it gives the documented encoding
PROP(native, 6) {
    auto& s = c.s;
    Ab a = gen(s, true);
    Bytes want = doc_bin(a.d);
    c.key(want);
    if (want.size() > 40) c.nontrivial();
    if (a.d.exts.size()) c.label("abi-extensions");
    c.note("bin", [&] { return pbt::hexs(want); });
    {
        Bytes in = doc_bin(a.d, s.flip());
        std::vector<char> w(in.begin(), in.end());
        w.shrink_to_fit();
        eosio::abi_def def;
        eosio::input_stream st(w.data(), w.size());
        try { from_bin(def, st); } catch (std::exception& e) { c.fail("bin-rejected", e.what()); }
        c.require(st.remaining() == 0, "bin-left-over", "reading a definition left bytes unread");
        auto out = as_str(eosio::convert_to_bin(def));
        if (out != want) c.fail("bin-to-bin", diff(out, want));
    }
    auto plain = a.d;
    plain.exts.clear();
    want = doc_bin(plain);
    bool om = false;
    std::string j = any_json(plain, s, om);
    c.note("json", [&] { return j; });
    std::string copy = j + std::string(3, '\0');
    eosio::abi_def def;
    try {
        eosio::json_token_stream st(copy.data());
        from_json(def, st);
    } catch (std::exception& e) { c.fail("json-rejected", std::string(e.what()) + ": " + j); }
    auto out = as_str(eosio::convert_to_bin(def));
    if (out != want) c.fail("json-to-bin", diff(out, want) + " for " + j);
}

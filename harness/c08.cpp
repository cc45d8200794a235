// Which ABI definitions are accepted, and that accepted ones are usable.
#include "capi.hpp"
#include <map>
using namespace ref;

// ---- independent validator over the plain definition
struct Check {
    const AbiDoc& d;
    std::map<std::string, std::pair<char, int>> names;  // b builtin, e extended_asset, a alias, s struct, v variant
    std::string why;
    bool bad(const std::string& w) { if (why.empty()) why = w; return false; }
    explicit Check(const AbiDoc& d) : d(d) {}
    // kind of a type reference: b e s v (plain), o optional, r array, x extension; 0 = invalid
    char kind(const std::string& t, int depth, std::string* target = nullptr) {
        if (depth > 64) { bad("alias cycle"); return 0; }
        auto it = names.find(t);
        if (it != names.end()) {
            if (it->second.first == 'a') {
                char k = kind(d.types[it->second.second].second, depth + 1, target);
                if (k == 'x') { bad("alias of an extension"); return 0; }
                return k;
            }
            if (target) *target = t;
            return it->second.first;
        }
        auto strip = [&](const char* suf, const char* illegal, char k) -> char {
            char in = kind(t.substr(0, t.size() - strlen(suf)), depth + 1, target);
            if (!in) return 0;
            if (strchr(illegal, in)) { bad("nesting " + t); return 0; }
            return k;
        };
        size_t n = t.size();
        if (n && t[n - 1] == '?') return strip("?", "orx", 'o');
        if (n >= 2 && t[n - 2] == '[' && t[n - 1] == ']') return strip("[]", "orx", 'r');
        if (n && t[n - 1] == '$') return strip("$", "x", 'x');
        bad("unknown type " + t);
        return 0;
    }
    bool define(const std::string& n, char k, int i) {
        if (n.empty()) return bad("empty name");
        if (!names.insert({n, {k, i}}).second) return bad("redefined " + n);
        return true;
    }
    bool run() {
        if (d.version.compare(0, 13, "eosio::abi/1.") != 0) return bad("version " + d.version);
        for (int i = 0; i < int(Sc::COUNT); ++i) names.insert({sc_name(Sc(i)), {'b', 0}});
        names.insert({"extended_asset", {'e', 0}});
        for (size_t i = 0; i < d.types.size(); ++i) if (!define(d.types[i].first, 'a', int(i))) return false;
        for (size_t i = 0; i < d.structs.size(); ++i) if (!define(d.structs[i].name, 's', int(i))) return false;
        for (size_t i = 0; i < d.variants.size(); ++i) if (!define(d.variants[i].first, 'v', int(i))) return false;
        for (auto& t : d.types) if (!kind(t.first, 0)) return false;
        for (auto& v : d.variants) for (auto& t : v.second) if (!kind(t, 0)) return false;
        for (auto& s : d.structs) {
            for (auto& f : s.fields) if (!kind(f.second, 0)) return false;
            const AbiDoc::S* p = &s;
            for (size_t steps = 0; !p->base.empty(); ++steps) {
                if (steps > d.structs.size()) return bad("base cycle");
                std::string t;
                char k = kind(p->base, 0, &t);
                if (!k) return false;
                if (k == 'e') throw pbt::Discard{};  // deriving from the built-in pair: not judged
                if (k != 's') return bad("base not a struct");
                p = &d.structs[names[t].second];
            }
        }
        return true;
    }
};
// model of a valid definition; false when it has types without finite values or with repeated members
static bool to_model(const AbiDoc& d, AbiModel& m) {
    std::map<std::string, int> ix;
    for (size_t i = 0; i < m.defs.size(); ++i) ix[m.defs[i].name] = int(i);
    auto add = [&](Def::K k, const std::string& n) { Def x; x.k = k; x.name = n; ix[n] = int(m.defs.size()); m.defs.push_back(x); };
    for (auto& t : d.types) add(Def::alias, t.first);
    for (auto& t : d.structs) add(Def::struct_, t.name);
    for (auto& t : d.variants) add(Def::variant, t.first);
    auto tr = [&](std::string t) {
        TR r;
        for (;;) {
            auto it = ix.find(t);
            if (it != ix.end()) { r.def = it->second; return r; }
            if (t.back() == '$') { r.ext = true; t.pop_back(); }
            else if (t.back() == '?') { r.suf = Suf::opt; t.pop_back(); }
            else { r.suf = Suf::arr; t.resize(t.size() - 2); }
        }
    };
    size_t k = m.first_user;
    for (auto& t : d.types) m.defs[k++].target = tr(t.second);
    for (auto& t : d.structs) {
        if (!t.base.empty()) m.defs[k].base = tr(t.base).def;
        for (auto& f : t.fields) m.defs[k].fields.push_back({f.first, tr(f.second)});
        ++k;
    }
    for (auto& t : d.variants) { for (auto& a : t.second) m.defs[k].alts.push_back(tr(a)); ++k; }
    // aliases of `x$` cannot occur; direct containment must be acyclic for values to be finite
    std::vector<int> state(m.defs.size());
    std::function<bool(int)> fin = [&](int i) -> bool {
        if (state[i]) return state[i] == 2;
        state[i] = 1;
        auto& x = m.defs[i];
        auto ok = [&](TR t) { TR r = m.resolve(t); return r.suf != Suf::none || fin(r.def); };
        if (x.k == Def::alias && !ok(x.target)) return false;
        if (x.k == Def::variant) for (auto& a : x.alts) if (a.ext || !ok(a)) return false;
        if (x.k == Def::variant && x.alts.empty()) return false;
        if (x.k == Def::struct_) {
            std::set<std::string> names;
            bool ext = false;
            for (auto& f : m.all_fields(i)) {
                if (!names.insert(f.name).second || !ok(f.type)) return false;
                if (ext && !f.type.ext) return false;  // kept simple: C07 covers these
                ext |= f.type.ext;
            }
        }
        state[i] = 2;
        return true;
    };
    for (size_t i = 0; i < m.defs.size(); ++i) if (!fin(int(i))) return false;
    for (auto& x : m.defs) for (auto& f : x.fields) if (f.type.ext && !m.nonempty(f.type)) return false;
    return true;
}
static std::string any_name(pbt::Source& s, const AbiDoc& d) {
    std::vector<std::string> v;
    for (auto& t : d.types) v.push_back(t.first);
    for (auto& t : d.structs) v.push_back(t.name);
    for (auto& t : d.variants) v.push_back(t.first);
    static const char* extra[] = {"", "nosuch", "Bool", "uint7", "uint", "bool ", " bool", "int8", "bytes", "extended_asset", "name", "string", "varint32", "block_timestamp", "float", "u64", "uint256", "time_point", "symbol"};
    if (v.empty() || s.chance(1, 3)) return extra[s.below(19)];
    return v[s.below(v.size())];
}
static std::string any_ref(pbt::Source& s, const AbiDoc& d, const std::string& old) {
    static const char* suf[] = {"", "?", "[]", "$", "?$", "[]$", "??", "[][]", "?[]", "[]?", "$$", "$?", "$[]", "[", "]", "[ ]", "[]]", "*", "[1]", "? ", "[]$?", "$ ", "?$$"};
    std::string base = s.chance(1, 2) ? old : any_name(s, d);
    if (base == "extended_asset" && s.flip()) base = "asset";
    return base + suf[s.below(23)];
}
static void edit(pbt::Source& s, AbiDoc& d, std::string& what) {
    auto nt = d.types.size(), ns = d.structs.size(), nv = d.variants.size();
    switch (s.below(12)) {
    case 0: {
        static const char* v[] = {"eosio::abi/1.0", "eosio::abi/1.", "eosio::abi/1.1", "eosio::abi/1.99", "eosio::abi/1", "eosio::abi/2.0", "", "eosio::abi/0.9", " eosio::abi/1.1", "Eosio::abi/1.1", "eosio::abi/11", "eosio::abi/1.x", "eosio:abi/1.1", "eosio::abi/1.1 ", "eosio::abi/10.1"};
        d.version = v[s.below(15)];
        what = "version";
        break;
    }
    case 1: case 2: {  // field type
        if (!ns) throw pbt::Discard{};
        auto& st = d.structs[s.below(ns)];
        if (st.fields.empty()) st.fields.push_back({"nf", "uint8"});
        auto& f = st.fields[s.below(st.fields.size())];
        f.second = any_ref(s, d, f.second);
        what = "field-type";
        break;
    }
    case 3: case 4: {  // base
        if (!ns) throw pbt::Discard{};
        auto& st = d.structs[s.below(ns)];
        if (s.chance(1, 4)) st.base = st.name;
        else st.base = s.flip() ? any_name(s, d) : any_ref(s, d, st.base);
        what = "base";
        break;
    }
    case 5: {  // variant alternative
        if (!nv) { d.variants.push_back({"newv", {}}); ++nv; }
        auto& v = d.variants[s.below(nv)];
        if (v.second.empty()) v.second.push_back("uint8");
        auto& f = v.second[s.below(v.second.size())];
        f = any_ref(s, d, f);
        what = "alternative";
        break;
    }
    case 6: case 7: {  // alias
        if (!nt) { d.types.push_back({"newa", "uint8"}); ++nt; }
        auto& t = d.types[s.below(nt)];
        t.second = s.chance(1, 5) ? t.first : any_ref(s, d, t.second);
        what = "alias";
        break;
    }
    case 8: {  // name
        std::string n = any_name(s, d);
        int k = int(s.below(3));
        if (k == 0 && nt) d.types[s.below(nt)].first = n;
        else if (k == 1 && nv) d.variants[s.below(nv)].first = n;
        else if (ns) d.structs[s.below(ns)].name = n;
        else throw pbt::Discard{};
        what = "name";
        break;
    }
    case 9: {  // extra definition
        std::string n = s.chance(1, 3) ? "fresh" : any_name(s, d);
        int k = int(s.below(3));
        if (k == 0) d.types.push_back({n, any_ref(s, d, "uint8")});
        else if (k == 1) d.variants.push_back({n, {any_ref(s, d, "uint8")}});
        else d.structs.push_back({n, "", {{"x", any_ref(s, d, "uint8")}}});
        what = "extra-definition";
        break;
    }
    case 10: {  // drop a definition
        if (!ns) throw pbt::Discard{};
        d.structs.erase(d.structs.begin() + s.below(ns));
        what = "dropped-definition";
        break;
    }
    default: {  // a cycle through several aliases or bases
        int n = 1 + int(s.below(5));
        bool alias = s.flip(), close = s.chance(2, 3);
        for (int i = 0; i < n; ++i) {
            std::string a = "cy" + std::to_string(i), b = "cy" + std::to_string((i + 1) % n);
            if (i + 1 == n && !close) b = alias ? "uint8" : "";
            if (alias && s.chance(1, 8)) b += "?";
            if (alias) d.types.push_back({a, b});
            else d.structs.push_back({a, b, {}});
        }
        shuffle(s, d.types);
        shuffle(s, d.structs);
        what = "cycle";
    }
    }
}
static void verdict(pbt::Case& c, const AbiDoc& d, const std::string& what) {
    auto& s = c.s;
    Check k(d);
    bool want = k.run();
    std::string json = doc_json(d);
    Bytes bin = doc_bin(d);
    c.key(bin);
    c.note("abi", [&] { return json; });
    c.note("edit", [&] { return what + (want ? " (well-formed)" : " (ill-formed: " + k.why + ")"); });
    c.label(want ? "well-formed" : "ill-formed");
    Ctx x;
    for (int b = 0; b < 2; ++b) {
        bool ok = b ? x.set_bin(CONTRACT + 16, bin) : x.set_abi(CONTRACT, json);
        if (ok != want) c.fail((ok ? "accepted-" : "rejected-") + what, std::string(b ? "binary " : "JSON ") + (ok ? "ABI accepted although " + k.why : "ABI rejected: " + x.error()));
        if (!ok && x.error().empty()) c.fail("no-error-text", "rejected ABI left no error");
    }
    std::string o;
    if (!want) {  // defines nothing
        std::vector<std::string> t = {"uint8", "name"};
        for (auto& y : d.structs) t.push_back(y.name);
        for (auto& y : t)
            if (x.b2j(CONTRACT, y, Bytes(40, 0), o) || x.b2j(CONTRACT, y, Bytes(1, 0), o)) c.fail("rejected-but-usable", "type " + y + " of a rejected ABI is usable");
        for (auto& a : d.actions) if (abieos_get_type_for_action(x.c, CONTRACT, a.name)) c.fail("rejected-but-usable", "an action of a rejected ABI is known");
        return;
    }
    AbiModel m;
    if (!to_model(d, m)) { c.label("no-finite-values"); return; }
    int n = 0;
    for (size_t i = m.first_user; i < m.defs.size() && n < 10; ++i, ++n)
        for (Suf suf : {Suf::none, Suf::opt, Suf::arr}) {
            TR t{int(i), suf};
            if (suf != Suf::none && (m.resolve(TR{int(i)}).suf != Suf::none || !s.chance(1, 4))) continue;
            GenVal g{m, s};
            g.budget = 12;
            g.max_depth = 4;
            Val v = g.gen(t, 0, true);
            Bytes w;
            encode(m, v, w);
            std::string j;
            if (!x.b2j(CONTRACT, m.text(t), w, j)) c.fail("type-unusable", "type " + m.text(t) + " of an accepted ABI cannot be used: " + x.error());
            J p;
            std::string e;
            if (!parse_json(j, p, e)) c.fail("malformed", e + " in " + j);
            e = check_json(m, v, p, m.text(t));
            if (!e.empty()) c.fail("type-value", e + " in " + j);
        }
}
static AbiDoc base_doc(pbt::Source& s) {
    AbiOpts o;
    o.wide_variants = false;
    AbiModel m = gen_abi(s, o);
    for (size_t k = s.below(3); k--;) m.actions.push_back({gen_name(s), m.text(gen_root(m, s))});
    for (size_t k = s.below(3); k--;) m.tables.push_back({gen_name(s), m.text(gen_root(m, s))});
    return make_doc(m, s);
}
PROP(valid, 3) {
    auto d = base_doc(c.s);
    c.nontrivial();
    verdict(c, d, "nothing");
}
PROP(edited, 10) {
    auto& s = c.s;
    auto d = base_doc(s);
    c.nontrivial();
    std::string what;
    edit(s, d, what);
    if (s.chance(1, 5)) { std::string w2; edit(s, d, w2); what = "two-edits"; }
    verdict(c, d, what);
}
// chains of references within the documented depth
PROP(chains, 2) {
    auto& s = c.s;
    AbiDoc d;
    d.version = "eosio::abi/1.1";
    int n = 1 + int(s.below(13));
    std::vector<std::string> nm;
    for (int i = 0; i < n; ++i) nm.push_back(std::string(1, char('a' + s.below(26))) + std::to_string(i));
    int mode = int(s.below(3));
    for (int i = 0; i < n; ++i) {
        std::string next = i + 1 < n ? nm[i + 1] : "";
        if (mode == 0) d.types.push_back({nm[i], next.empty() ? "uint16" : next});
        else if (mode == 1) d.structs.push_back({nm[i], next, {{"f" + std::to_string(i), "uint8"}}});
        else {
            std::string t = next.empty() ? "string" : next;
            if (s.flip()) t += s.flip() ? "?" : "[]";
            if (s.flip()) d.structs.push_back({nm[i], "", {{"f", t}}});
            else d.variants.push_back({nm[i], {t, "int8"}});
        }
    }
    shuffle(s, d.types);
    shuffle(s, d.structs);
    if (n > 2) c.nontrivial();
    verdict(c, d, "chain");
}

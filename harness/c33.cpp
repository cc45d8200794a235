// The C++ interface to an ABI: eosio::abi, abi_type and the per-step callback.
#include "capi.hpp"
#include <eosio/abi.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/to_bin.hpp>
#include <memory>
#include <set>
using namespace ref;
using eosio::abi_type;

namespace {
struct Stop { int at; };  // thrown by the callback: not a std::exception
struct StopStd : std::runtime_error { int at; StopStd(int a) : std::runtime_error("deadline"), at(a) {} };
std::unique_ptr<eosio::abi> make(pbt::Case& c, const AbiModel& m, const AbiDoc& d, bool binary) {
    auto a = std::make_unique<eosio::abi>();
    auto def = std::make_unique<eosio::abi_def>();
    try {
        if (binary) {
            Bytes b = doc_bin(d);
            std::vector<char> v(b.begin(), b.end());
            v.shrink_to_fit();
            eosio::input_stream st(v.data(), v.size());
            from_bin(*def, st);
        } else {
            std::string t = doc_json(d);
            std::vector<char> v(t.begin(), t.end());
            v.insert(v.end(), 3, 0);
            eosio::json_token_stream st(v.data());
            from_json(*def, st);
        }
        convert(*def, *a);
    } catch (std::exception& e) { c.fail("abi-rejected", e.what()); }
    def.reset();  // the result does not refer to the definition
    return a;
}
const abi_type* get(pbt::Case& c, eosio::abi& a, const std::string& n) {
    try { return a.get_type(n); } catch (std::exception& e) { c.fail("no-type", n + ": " + e.what()); }
}
// conversions with a callback that counts, and stops at call number `stop` (0: never)
struct Calls { int n = 0, stop = 0; bool std_ = false; std::function<void()> at; };
std::function<void()> cb(Calls& k) {
    return [&k] {
        if (++k.n == k.stop) { if (k.at) return k.at(); if (k.std_) throw StopStd(k.n); throw Stop{k.n}; }
    };
}
enum Dir { b2j, j2b, j2br };
const char* const dn[] = {"bin_to_json", "json_to_bin", "json_to_bin_reorderable"};
// 0 done, 1 stopped by the callback (at *at), 2 other error
int conv(Dir d, const abi_type* t, const std::string& in, Calls* k, std::string& out, int* at = nullptr) {
    std::vector<char> v(in.begin(), in.end());
    v.shrink_to_fit();
    try {
        if (d == b2j) {
            eosio::input_stream st(v.data(), v.size());
            out = k ? t->bin_to_json(st, cb(*k)) : t->bin_to_json(st);
            if (st.remaining()) { out = "bytes left"; return 2; }
        } else {
            std::string_view j(v.data(), v.size());
            auto r = d == j2b ? (k ? t->json_to_bin(j, cb(*k)) : t->json_to_bin(j)) : (k ? t->json_to_bin_reorderable(j, cb(*k)) : t->json_to_bin_reorderable(j));
            out.assign(r.begin(), r.end());
        }
        return 0;
    } catch (Stop& s) { if (at) *at = s.at; return 1; } catch (StopStd& s) { if (at) *at = s.at; return 1; } catch (std::exception& e) { out = e.what(); return 2; }
}
size_t steps(const Val& v, const AbiModel& m) {  // members and elements
    size_t n = 0;
    auto k = m.defs[v.t.def].k;
    bool counted = v.t.suf == Suf::arr || (v.t.suf == Suf::none && (k == Def::struct_ || k == Def::extasset));
    for (auto& x : v.kids) n += counted + steps(x, m);
    return n;
}
void same(pbt::Case& c, const AbiModel& m, const abi_type* t, TR r, std::set<std::pair<const abi_type*, std::string>>& seen, int depth = 0) {
    auto bad = [&](const char* what) { c.fail("structure", std::string(what) + ": " + t->name + " for " + m.text(r)); };
    bool via = false;  // an alias of a suffixed type: the name is the alias's target as written
    if (r.suf == Suf::none && !r.ext) {
        TR q = m.resolve(r);
        if (q.suf != Suf::none) { r = q; via = true; }
        r.def = q.suf == r.suf ? q.def : r.def;
    }
    if (!seen.insert({t, m.text(r)}).second || depth > 60) return;
    if (!via && t->name != m.text(r)) bad("name");
    int kinds = !!t->extension_of() + !!t->optional_of() + !!t->array_of() + !!t->as_struct() + !!t->as_variant();
    if (r.ext) {
        if (kinds != 1 || !t->extension_of()) bad("not an extension");
        TR q = r;
        q.ext = false;
        return same(c, m, t->extension_of(), q, seen, depth + 1);
    }
    if (r.suf == Suf::opt) {
        if (kinds != 1 || !t->optional_of()) bad("not an optional");
        return same(c, m, t->optional_of(), TR{r.def}, seen, depth + 1);
    }
    if (r.suf == Suf::arr) {
        if (kinds != 1 || !t->array_of()) bad("not an array");
        return same(c, m, t->array_of(), TR{r.def}, seen, depth + 1);
    }
    auto& d = m.defs[r.def];
    if (d.k == Def::scalar) { if (kinds) bad("not a built-in"); return; }
    if (d.k == Def::variant) {
        if (kinds != 1 || !t->as_variant()) bad("not a variant");
        auto& v = *t->as_variant();
        if (v.size() != d.alts.size()) bad("number of alternatives");
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i].name != m.text(d.alts[i])) bad("alternative");
            same(c, m, v[i].type, d.alts[i], seen, depth + 1);
        }
        return;
    }
    if (kinds != 1 || !t->as_struct()) bad("not a struct");
    auto fs = m.all_fields(r.def);
    auto& g = t->as_struct()->fields;
    if (g.size() != fs.size()) bad("number of members");
    for (size_t i = 0; i < g.size(); ++i) {
        if (g[i].name != fs[i].name) bad("member name");
        same(c, m, g[i].type, fs[i].type, seen, depth + 1);
    }
}
std::string plain_json(const AbiModel& m, const Val& v, pbt::Source& s) {
    std::string j;
    JsonOpts o;
    o.any = false;
    write_json(m, v, s, o, j);
    return j;
}
}  // namespace

// The callback is called at least once per member and element, what it throws comes out as it is, and nothing else changes.
PROP(callback, 4) {
    auto& s = c.s;
    AbiModel m = gen_abi(s);
    AbiDoc doc = make_doc(m, s);
    TR root = gen_root(m, s);
    GenVal g{m, s};
    Val v = g.gen(root, 0, true);
    Bytes wire;
    encode(m, v, wire);
    std::string type = m.text(root), json = plain_json(m, v, s);
    auto a = make(c, m, doc, s.flip());
    const abi_type* t = get(c, *a, type);
    c.note("abi", [&] { return doc_json(doc); });
    c.note("type", [&] { return type; });
    c.note("json", [&] { return json; });
    c.key(doc_json(doc) + type);
    c.key(wire);
    Dir d = Dir(s.below(3));
    c.label(dn[d]);
    std::string in = d == b2j ? wire : json, out, out2;
    if (conv(d, t, in, nullptr, out)) c.fail("rejected", std::string(dn[d]) + ": " + out);
    if (d != b2j && out != wire) c.fail("binary", diff(out, wire));
    if (d == b2j) {
        J p;
        std::string e;
        if (!parse_json(out, p, e) || !(e = check_json(m, v, p, "$")).empty()) c.fail("json", e + " in " + out);
    }
    Calls all;
    if (conv(d, t, in, &all, out2) || out2 != out) c.fail("counted", std::string(dn[d]) + " gives something else when its steps are counted: " + out2);
    size_t need = steps(v, m);
    if (size_t(all.n) < need) c.fail("too few calls", std::string(dn[d]) + ": " + std::to_string(all.n) + " calls for " + std::to_string(need) + " members and elements");
    if (all.n > 1) c.nontrivial();
    // the same input does the same steps
    Calls again;
    if (conv(d, t, in, &again, out2) || again.n != all.n) c.fail("steps differ", std::to_string(again.n) + " and " + std::to_string(all.n));
    for (int k = 0; k < 3 && all.n; ++k) {
        Calls st;
        st.stop = k == 0 ? 1 + int(s.below(all.n)) : k == 1 ? all.n : 1;
        st.std_ = s.flip();
        int at = 0, r = conv(d, t, in, &st, out2, &at);
        if (r != 1 || at != st.stop || st.n != st.stop) c.fail("not stopped", std::string(dn[d]) + " stopped at call " + std::to_string(st.stop) + " of " + std::to_string(all.n) + ": " + (r == 0 ? "finished" : r == 2 ? "other error: " + out2 : "call " + std::to_string(at)));
        if (conv(d, t, in, nullptr, out2) || out2 != out) c.fail("after a stop", std::string(dn[d]) + " gives something else afterwards: " + out2);
    }
    if (all.n && s.chance(1, 3)) {  // the callback may itself convert
        c.label("callback converts");
        Calls in2;
        in2.stop = 1 + int(s.below(all.n));
        Dir d2 = Dir(s.below(3));
        std::string o3;
        int r3 = -1;
        in2.at = [&] { r3 = conv(d2, t, d2 == b2j ? wire : json, nullptr, o3); };
        if (conv(d, t, in, &in2, out2) || out2 != out || r3) c.fail("nested", std::string(dn[d]) + " with " + dn[d2] + " in its callback: " + out2 + " / " + o3);
        if (d2 != b2j && o3 != wire) c.fail("nested", std::string(dn[d2]) + " in a callback of " + dn[d] + ": " + diff(o3, wire));
    }
    Calls past;
    past.stop = all.n + 1;
    if (conv(d, t, in, &past, out2) || out2 != out) c.fail("stopped", "a callback due to stop later than the last call");
}

// A callback cannot be starved: long arrays of anything call it for every element, damaged input or not.
PROP(long_arrays, 1) {
    auto& s = c.s;
    Built b = bulk_case(c);
    eosio::abi a;
    {
        eosio::abi_def def;
        std::vector<char> v(b.abi_json.begin(), b.abi_json.end());
        v.insert(v.end(), 3, 0);
        eosio::json_token_stream st(v.data());
        from_json(def, st);
        convert(def, a);
    }
    const abi_type* t = get(c, a, b.type);
    Dir d = Dir(s.below(3));
    std::string in = d == b2j ? b.wire : plain_json(b.m, b.v, s), out, out2;
    Calls all;
    if (conv(d, t, in, &all, out)) c.fail("rejected", std::string(dn[d]) + ": " + out);
    size_t need = steps(b.v, b.m);
    c.nontrivial();
    if (size_t(all.n) < need) c.fail("too few calls", std::string(dn[d]) + ": " + std::to_string(all.n) + " calls for " + std::to_string(need) + " members and elements");
    if (all.n) {
        Calls st;
        st.stop = 1 + int(s.below(all.n));
        int at = 0;
        if (conv(d, t, in, &st, out2, &at) != 1 || at != st.stop) c.fail("not stopped", std::string(dn[d]) + " at call " + std::to_string(st.stop));
    }
}

// The types found in an ABI describe the definition; looking up more of them, or failing to, changes nothing.
PROP(lookups, 4) {
    auto& s = c.s;
    AbiModel m = gen_abi(s);
    AbiDoc doc = make_doc(m, s);
    auto a = make(c, m, doc, s.flip());
    c.note("abi", [&] { return doc_json(doc); });
    c.key(doc_json(doc));
    std::map<uint64_t, std::string> acts, tabs;
    for (auto& x : doc.actions) acts[x.name] = x.type;
    for (auto& x : doc.tables) tabs[x.name] = x.type;
    std::map<uint64_t, std::string> ga, gt;
    for (auto& [n, t] : a->action_types) ga[n.value] = t;
    for (auto& [n, t] : a->table_types) gt[n.value] = t;
    if (ga != acts) c.fail("actions", "action types are not the definition's");
    if (gt != tabs) c.fail("tables", "table types are not the definition's");
    struct Known { std::string name; TR r; const abi_type* t; };
    std::vector<Known> known;
    std::vector<std::string> bad;
    size_t n = 4 + s.below(20), rec = 0;
    std::string log;
    for (size_t i = 0; i < n; ++i) {
        int op = int(s.below(5));
        if (op <= 2) {
            TR r = gen_root(m, s);
            if (r.suf == Suf::none && m.resolve(r).suf == Suf::none && s.chance(1, 3)) r.suf = s.flip() ? Suf::opt : Suf::arr;
            if (s.chance(1, 8)) r.ext = true;
            std::string nm = m.text(r);
            log += " " + nm;
            const abi_type* t = get(c, *a, nm);
            for (auto& k : known) if (k.name == nm && k.t != t) c.fail("identity", nm + " is another object the second time, after" + log);
            known.push_back({nm, r, t});
        } else if (op == 3 || known.empty()) {
            std::string nm;
            if (!bad.empty() && s.flip()) nm = s.pick(bad);
            else {
                TR r = gen_root(m, s);
                TR q = m.resolve(r);
                std::string base = m.text(r);
                switch (s.below(6)) {
                case 0: nm = "no_such" + std::string(s.flip() ? "[]" : s.flip() ? "?" : "$"); break;
                case 1: nm = base + (q.suf == Suf::none ? (s.flip() ? "[][]" : s.flip() ? "??" : s.flip() ? "?[]" : "[]?") : s.flip() ? "[]" : "?"); break;
                case 2: nm = base + "$$"; break;
                case 3: nm = base + "$" + (s.flip() ? "?" : "[]"); break;
                case 4: nm = "no such type"; break;
                default: nm = s.flip() ? "" : s.flip() ? "[]" : s.flip() ? "?" : "$"; break;
                }
                bool clash = false;
                for (auto& d : m.defs) clash |= d.name == nm || d.name + "[]" == nm || d.name + "?" == nm || d.name + "$" == nm;
                if (clash) continue;
            }
            log += " !" + nm;
            bool threw = false;
            try { a->get_type(nm); } catch (std::runtime_error&) { threw = true; }
            if (!threw) c.fail("bad name", pbt::quote(nm) + " is found, after" + log);
            bad.push_back(nm);
        } else {  // use one found earlier
            auto& k = known[s.below(known.size())];
            GenVal g{m, s};
            g.budget = 20;
            TR r = k.r;
            r.ext = false;
            Val v = g.gen(r, 0, true);
            Bytes wire;
            encode(m, v, wire);
            std::string out, js = plain_json(m, v, s);
            if (wire.empty() && k.r.ext) continue;
            if (conv(s.flip() ? j2b : j2br, k.t, js, nullptr, out) || out != wire) c.fail("use", k.name + " " + js + ": " + pbt::hexs(out) + " instead of " + pbt::hexs(wire) + ", after" + log);
            J p;
            std::string e;
            if (conv(b2j, k.t, wire, nullptr, out) || !parse_json(out, p, e) || !(e = check_json(m, v, p, "$")).empty()) c.fail("use", k.name + " " + pbt::hexs(wire) + ": " + out + " " + e + ", after" + log);
        }
    }
    std::set<std::pair<const abi_type*, std::string>> seen;
    for (auto& k : known) {
        if (get(c, *a, k.name) != k.t) c.fail("identity", k.name + " is another object at the end");
        same(c, m, k.t, k.r, seen);
        if (k.t->as_struct()) ++rec;
    }
    if (rec) c.nontrivial();
    c.note("lookups", [&] { return log; });
}

// Values that follow one another in a stream are read one by one, each to its last byte.
PROP(sequence, 2) {
    auto& s = c.s;
    AbiOpts o;
    o.extensions = false;
    AbiModel m = gen_abi(s, o);
    AbiDoc doc = make_doc(m, s);
    auto a = make(c, m, doc, s.flip());
    size_t n = 1 + s.below(6);
    std::vector<Val> vs;
    std::vector<const abi_type*> ts;
    std::vector<size_t> ends;
    Bytes all;
    std::string names;
    for (size_t i = 0; i < n; ++i) {
        TR r = gen_root(m, s);
        GenVal g{m, s};
        g.budget = 30;
        vs.push_back(g.gen(r, 0, true));
        encode(m, vs.back(), all);
        ends.push_back(all.size());
        ts.push_back(get(c, *a, m.text(r)));
        names += " " + m.text(r);
    }
    all += gen_bytes(s, 6);
    c.note("abi", [&] { return doc_json(doc); });
    c.note("types", [&] { return names; });
    c.note("bytes", [&] { return pbt::hexs(all); });
    c.key(doc_json(doc) + names);
    c.key(all);
    if (n > 1 && ends.back() > 1) c.nontrivial();
    std::vector<char> v(all.begin(), all.end());
    v.shrink_to_fit();
    eosio::input_stream st(v.data(), v.size());
    for (size_t i = 0; i < n; ++i) {
        std::string out, e;
        try { out = ts[i]->bin_to_json(st); } catch (std::exception& x) { c.fail("rejected", std::string(x.what()) + " at value " + std::to_string(i)); }
        if (size_t(st.pos - v.data()) != ends[i]) c.fail("position", "value " + std::to_string(i) + " ends at byte " + std::to_string(st.pos - v.data()) + " instead of " + std::to_string(ends[i]));
        J p;
        if (!parse_json(out, p, e) || !(e = check_json(m, vs[i], p, "$")).empty()) c.fail("value", e + " in " + out);
    }
}

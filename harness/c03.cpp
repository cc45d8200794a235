// Strictness of JSON -> binary: ordered vs reorderable mode, wrong shapes, malformed text.
#include "jnode.hpp"
using namespace ref;

static void both(pbt::Case& c, Ctx& x, const Built& b, const std::string& j, bool ord_ok, bool reo_ok, const char* what) {
    for (int r = 0; r < 2; ++r) {
        std::string out;
        bool ok = x.j2b(CONTRACT, b.type, j, r, out);
        bool want = r ? reo_ok : ord_ok;
        std::string mode = r ? "reorderable" : "ordered";
        if (ok != want) c.fail(mode + (want ? "-rejected-" : "-accepted-") + what, what + std::string(ok ? " accepted" : " rejected (" + x.error() + ")") + ": " + j);
        if (ok && out != b.wire) c.fail(mode + "-wire-" + what, diff(out, b.wire) + " for " + j);
        if (!ok) {
            if (x.error().empty()) c.fail("no-error-text", "a failed conversion left no error: " + j);
            if (!x.bin().empty()) c.fail("result-after-failure", "a failed conversion left a result: " + j);
        }
    }
}
static Built rich_case(pbt::Case& c) {
    AbiOpts o;
    o.wide_variants = false;
    auto b = build_case(c, o);
    return b;
}
PROP(members, 6) {
    auto& s = c.s;
    auto b = rich_case(c);
    Node root = build(b.m, b.v, s, true);
    std::vector<Node*> all, objs;
    collect(root, all);
    int mode = int(s.below(6));
    for (auto n : all)
        if (n->k == Node::obj && (n->o.size() >= (mode == 1 ? 2u : mode == 2 ? 0u : 1u))) objs.push_back(n);
    if (objs.empty()) throw pbt::Discard{};
    Node& n = *objs[s.below(objs.size())];
    auto fs = b.m.all_fields(n.v->t.def);
    std::set<std::string> names;
    for (auto& f : fs) names.insert(f.name);
    const char* what = "";
    bool ord = false, reo = false;
    size_t i = n.o.empty() ? 0 : s.below(n.o.size());
    auto omissible = [&](size_t k) { return n.allow && fs[k].type.ext; };
    std::string unk = "zz" + std::to_string(s.below(100));
    if (s.chance(1, 4)) unk = n.o.empty() ? "" : n.o[i].first + "x";
    if (s.chance(1, 6)) unk = "";
    if (s.chance(1, 6) && !n.o.empty()) unk = n.o[i].first.substr(0, n.o[i].first.size() - 1);
    unk = utf8_sanitize(unk);
    if (s.chance(1, 6) && !n.o.empty()) {  // the name, and something a sloppy comparison overlooks
        std::string k = n.o[i].first;
        static const char* more[] = {" ", ".", "0", "_", "$", "?", "[]"};
        switch (s.below(5)) {
        case 0: unk = k + std::string(1, '\0'); break;
        case 1: unk = k + std::string(1, '\0') + "x"; break;
        case 2: unk = k + more[s.below(7)]; break;
        case 3: unk = (s.flip() ? " " : std::string(1, '\0')) + k; break;
        default: unk = k; for (auto& ch : unk) if (isalpha((unsigned char)ch)) { ch ^= 32; break; }
        }
        unk = utf8_sanitize(unk);
    }
    while (names.count(unk)) unk += "_";
    switch (mode) {
    case 0:  // missing member
        what = "missing-member";
        if (omissible(i) && i + 1 == n.o.size()) throw pbt::Discard{};
        n.o.erase(n.o.begin() + i);
        break;
    case 1: {  // order
        what = "member-order";
        auto before = n.o;
        if (s.flip()) { size_t k = s.below(n.o.size() - 1); std::swap(n.o[k], n.o[k + 1]); }
        else {
            auto z = n.o[i];
            n.o.erase(n.o.begin() + i);
            n.o.insert(n.o.begin() + (i == 0 ? n.o.size() : 0), z);
        }
        ord = true;
        for (size_t k = 0; k < before.size(); ++k) ord &= before[k].first == n.o[k].first;
        reo = true;
        break;
    }
    case 2: {  // unknown member
        what = "unknown-member";
        Node j;
        j.text = gen_junk(s);
        n.o.insert(n.o.begin() + s.below(n.o.size() + 1), {unk, j});
        reo = true;
        break;
    }
    case 3: {  // duplicate member, the last one right
        what = "duplicate-member";
        Node j;
        j.text = gen_junk(s);
        if (s.flip()) j = n.o[i].second;
        n.o.insert(n.o.begin() + s.below(i + 1), {n.o[i].first, j});
        reo = true;
        break;
    }
    case 4: {  // duplicate member, the last one unusable
        what = "duplicate-bad-last";
        Node j;
        j.text = n.o[i].second.k == Node::obj ? "[]" : "{}";
        const Val& w = *n.o[i].second.v;
        if (w.t.suf == Suf::opt && n.o[i].second.k == Node::leaf) {  // absent optional: unusable for the inner type
            auto k = b.m.defs[b.m.resolve(TR{w.t.def}).def].k;
            if (k == Def::struct_ || k == Def::extasset) j.text = "[]";
        }
        if (n.o[i].second.k == Node::arr && s.flip()) j.text = "true";
        n.o.insert(n.o.begin() + i + 1 + s.below(n.o.size() - i), {n.o[i].first, j});
        break;
    }
    default:  // renamed member
        what = "renamed-member";
        if (omissible(i)) throw pbt::Discard{};
        n.o[i].first = unk;
    }
    c.label(what);
    c.nontrivial();
    std::string j;
    render(root, s, j);
    c.key(j);
    c.note("json", [&] { return j; });
    Ctx x;
    load(c, x, b);
    both(c, x, b, j, ord, reo, what);
}
PROP(shapes, 5) {
    auto& s = c.s;
    auto b = rich_case(c);
    Node root = build(b.m, b.v, s, true);
    std::vector<Node*> all;
    collect(root, all);
    Node& n = *all[all.size() - 1 - s.below(all.size())];
    auto leaf = [&](const std::string& t) { Node x; x.text = t; x.k = Node::leaf; n = x; };
    const char* what = "wrong-kind";
    const Val& v = *n.v;
    bool uo = n.under_opt;
    auto pick = [&](std::vector<const char*> c) { if (!uo) c.push_back("null"); leaf(c[s.below(c.size())]); };
    auto& d = b.m.defs[v.t.def];
    if (v.t.suf == Suf::opt) pick({"{}", "[]", "[null]"});  // absent optional given a bad value...
    if (v.t.suf == Suf::opt) {
        // ... only where the inner type cannot take it
        TR in = b.m.resolve(TR{v.t.def});
        auto& id = b.m.defs[in.def];
        if (id.k == Def::scalar) leaf(s.flip() ? "{}" : "[]");
        else if (id.k == Def::variant) leaf(s.flip() ? "{}" : "[]");
        else leaf("[]");
    } else if (v.t.suf == Suf::arr) {
        pick({"{}", "\"\"", "5", "true", "\"[]\""});
    } else if (d.k == Def::scalar) {
        if (d.sc == Sc::bool_) pick({"\"true\"", "1", "0", "{}", "[]", "[true]", "\"\""});
        else pick({"{}", "[]", "true", "false", "[1]", "[\"1\"]", "{\"value\":1}"});
    } else if (d.k == Def::variant) {
        std::string good = n.a[0].text;
        Node val = n.a[1];
        Node t;
        switch (s.below(8)) {
        case 0: leaf("{}"); break;
        case 1: leaf(good); break;
        case 2: n.a.clear(); what = "variant-size"; break;
        case 3: n.a.pop_back(); what = "variant-size"; break;
        case 4: t.text = gen_junk(s); n.a.push_back(t); what = "variant-size"; break;
        case 5: {
            std::string tag = "nosuch" + std::to_string(s.below(50));
            TR r = b.m.resolve(d.alts[v.alt]);
            if (s.flip()) tag = b.m.text(r);
            if (s.chance(1, 4)) tag = "";
            if (s.chance(1, 4)) tag = b.m.text(d.alts[v.alt]) + " ";
            for (auto& al : d.alts) while (tag == b.m.text(al)) tag += "q";
            n.a[0].text = json_str(tag);
            what = "variant-tag";
            break;
        }
        case 6: { std::vector<const char*> bad = {"null", "true", "[]", "{}"}; n.a[0].text = bad[s.below(4)]; what = "variant-tag"; break; }
        default: std::swap(n.a[0], n.a[1]); what = "variant-swapped";
            if (n.a[0].k == Node::leaf && n.a[0].text[0] == '"') throw pbt::Discard{};
            if (n.a[0].k == Node::leaf) { n.a[0].text = "null"; }
        }
    } else {
        // an object without any member is a fine value for an empty struct, so never use {}
        pick({"[]", "\"\"", "7", "false", "\"{}\"", "[{}]"});
    }
    c.label(what);
    c.nontrivial();
    std::string j;
    render(root, s, j);
    c.key(j);
    c.note("json", [&] { return j; });
    Ctx x;
    load(c, x, b);
    both(c, x, b, j, false, false, what);
}
// malformed text and trailing text
PROP(text, 4) {
    auto& s = c.s;
    auto b = rich_case(c);
    Node root = build(b.m, b.v, s, true);
    std::string j;
    render(root, s, j);
    const char* what;
    switch (s.below(6)) {
    case 0: {
        static const char* tr[] = {"1", " x", ",", "}", "]", "{}", "null", " \"\"", ":", "//", "[]", "\x01"};
        j += (s.flip() || isalnum((unsigned char)j.back()) ? " " : "") + std::string(tr[s.below(12)]);
        what = "trailing-text";
        break;
    }
    case 1: j.resize(s.below(j.size())); what = "truncated-text"; break;
    case 2: j.erase(s.below(j.size()), 1); what = "deleted-byte"; break;
    case 3: j.insert(s.below(j.size() + 1), 1, "{}[],:\"\\ \nx0-."[s.below(14)]); what = "inserted-byte"; break;
    case 4: j[s.below(j.size())] = "{}[],:\"\\ \nx0-.\x80\xff"[s.below(16)]; what = "changed-byte"; break;
    default: {
        size_t i = s.below(j.size()), n = 1 + s.below(4);
        j.insert(i, j.substr(i, n));
        what = "repeated-bytes";
    }
    }
    J p;
    std::string e;
    if (parse_json(j, p, e)) throw pbt::Discard{};
    c.label(what);
    c.nontrivial();
    c.key(j);
    c.note("json", [&] { return j; });
    Ctx x;
    load(c, x, b);
    both(c, x, b, j, false, false, what);
}

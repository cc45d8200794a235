// A value as a JSON tree whose nodes know the value they spell, to be damaged and printed.
#pragma once
#include "capi.hpp"

namespace ref {
struct Node {
    enum K { leaf, obj, arr } k = leaf;
    std::string text;                          // leaf
    std::vector<std::pair<std::string, Node>> o;
    std::vector<Node> a;
    const Val* v = nullptr;
    bool allow = false;       // extensions may be omitted at this point
    bool under_opt = false;   // null would be accepted here
};
inline Node build(const AbiModel& m, const Val& v, pbt::Source& s, bool allow, bool under_opt = false) {
    Node n;
    n.v = &v;
    n.allow = allow;
    n.under_opt = under_opt;
    if (v.t.suf == Suf::opt) {
        if (v.present) { n = build(m, v.kids[0], s, allow, true); return n; }
        n.text = "null";
        n.under_opt = true;
        return n;
    }
    if (v.t.suf == Suf::arr) {
        n.k = Node::arr;
        for (auto& k : v.kids) n.a.push_back(build(m, k, s, false));
        return n;
    }
    auto& d = m.defs[v.t.def];
    if (d.k == Def::scalar) { n.text = scalar_json(d.sc, v.wire, s, true); return n; }
    if (d.k == Def::variant) {
        n.k = Node::arr;
        Node t;
        t.text = json_str(m.text(d.alts[v.alt]));
        n.a.push_back(t);
        n.a.push_back(build(m, v.kids[0], s, allow));
        return n;
    }
    n.k = Node::obj;
    auto fs = m.all_fields(v.t.def);
    for (size_t i = 0; i < v.kids.size(); ++i) n.o.push_back({fs[i].name, build(m, v.kids[i], s, allow && i + 1 == fs.size())});
    return n;
}
inline void render(const Node& n, pbt::Source& s, std::string& r) {
    if (n.k == Node::leaf) { r += n.text; return; }
    if (n.k == Node::arr) {
        r += '[';
        for (size_t i = 0; i < n.a.size(); ++i) { if (i) r += ','; r += gen_ws(s); render(n.a[i], s, r); }
        r += ']';
        return;
    }
    r += '{';
    for (size_t i = 0; i < n.o.size(); ++i) { if (i) r += ','; r += json_str(n.o[i].first); r += gen_ws(s); r += ':'; render(n.o[i].second, s, r); }
    r += '}';
}
inline void collect(Node& n, std::vector<Node*>& out) {
    if (n.v) out.push_back(&n);
    for (auto& x : n.a) collect(x, out);
    for (auto& x : n.o) collect(x.second, out);
}
}  // namespace ref

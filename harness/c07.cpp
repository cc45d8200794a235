// Binary extensions: omission is a trailing affair.
#include "capi.hpp"
using namespace ref;

// what one JSON document omits, and the verdict of the rules on it
struct Tree {  // JSON tree with, per object, the members kept
    const Val* v;
    std::vector<Field> fields;       // struct
    std::vector<int> kept;           // struct: indices of the members present
    std::vector<Tree> kids;          // struct: one per field; array, optional, variant: as in Val
};
static const Sc easy[] = {Sc::u8, Sc::u16, Sc::bool_, Sc::u32, Sc::vu32, Sc::i64, Sc::string, Sc::bytes, Sc::name, Sc::f64, Sc::c160};

struct Gen {
    AbiModel m;
    TR root;
    // levels of structs, each ending in a field which may lead to the next level
    void make(pbt::Source& s) {
        int levels = 1 + int(s.below(4));
        int next = -1;
        for (int l = levels - 1; l >= 0; --l) {
            auto add = [&](Def d) { m.defs.push_back(d); return int(m.defs.size()) - 1; };
            std::vector<Field> fs;
            int n = 1 + int(s.below(5));
            int style = int(s.below(4));  // 0: trailing run of extensions, 1: any, 2: none, 3: all
            int from = int(s.below(n + 1));
            for (int i = 0; i < n; ++i) {
                Field f;
                f.name = "L" + std::to_string(l) + "f" + std::to_string(i);
                f.type.def = int(easy[s.below(11)]);
                if (s.chance(1, 10)) {
                    Def d;
                    d.k = Def::struct_;
                    d.name = "E" + std::to_string(l) + "_" + std::to_string(i);
                    f.type.def = add(d);
                }
                if (s.chance(1, 4)) f.type.suf = s.flip() ? Suf::opt : Suf::arr;
                if (next >= 0 && (i + 1 == n ? !s.chance(1, 6) : s.chance(1, 8))) {
                    f.type.def = next;
                    f.type.suf = Suf::none;
                    switch (s.below(7)) {
                    case 1: f.type.suf = Suf::opt; break;
                    case 2: f.type.suf = Suf::arr; break;
                    case 3: {
                        Def d;
                        d.k = Def::variant;
                        d.name = "V" + std::to_string(l) + "_" + std::to_string(i);
                        d.alts = {TR{int(Sc::u8)}, TR{next}, TR{next, Suf::opt}};
                        if (s.flip()) std::swap(d.alts[0], d.alts[1]);
                        f.type.def = add(d);
                        break;
                    }
                    case 4: {
                        Def d;
                        d.k = Def::alias;
                        d.name = "A" + std::to_string(l) + "_" + std::to_string(i);
                        d.target = TR{next, s.flip() ? Suf::opt : Suf::none};
                        f.type.def = add(d);
                        break;
                    }
                    default: break;
                    }
                }
                f.type.ext = style == 0 ? i >= from : style == 1 ? s.flip() : style == 3;
                fs.push_back(f);
            }
            // some of the fields may sit in a base
            Def d;
            d.k = Def::struct_;
            d.name = "S" + std::to_string(l);
            size_t cut = s.chance(1, 3) ? s.below(fs.size() + 1) : 0;
            if (cut) {
                Def b = d;
                b.name += "base";
                b.fields.assign(fs.begin(), fs.begin() + cut);
                d.base = add(b);
            }
            d.fields.assign(fs.begin() + cut, fs.end());
            next = add(d);
        }
        root = TR{next};
        switch (s.below(8)) {
        case 0: root.suf = Suf::arr; break;
        case 1: root.suf = Suf::opt; break;
        case 2: { Def d; d.k = Def::variant; d.name = "VR"; d.alts = {TR{next}, TR{int(Sc::string)}}; m.defs.push_back(d); root = TR{int(m.defs.size()) - 1}; break; }
        case 3: root.ext = true; break;
        default: break;
        }
        for (size_t i = m.first_user; i < m.defs.size(); ++i)  // all encodings take at least a byte
            if (m.defs[i].k == Def::struct_ && m.defs[i].base < 0 && !m.nonempty(TR{int(i)})) pad(s, int(i));
    }
    void pad(pbt::Source& s, int i) {
        bool is_base = false;
        for (auto& d : m.defs) is_base |= d.base == i;
        // a struct with only extensions is interesting as the root or a tail, but not as an array element
        if (is_base || s.flip()) return;
        Field f;
        f.name = m.defs[i].name + "pad";
        f.type.def = int(Sc::u8);
        m.defs[i].fields.insert(m.defs[i].fields.begin(), f);
    }
};
static Tree tree(const AbiModel& m, const Val& v, pbt::Source& s, int& drops) {
    Tree t;
    t.v = &v;
    for (auto& k : v.kids) t.kids.push_back(tree(m, k, s, drops));
    if (v.t.suf != Suf::none) return t;
    auto& d = m.defs[v.t.def];
    if (d.k != Def::struct_) return t;
    t.fields = m.all_fields(v.t.def);
    int n = int(t.fields.size());
    int mode = int(s.below(8));
    int keep_to = n;
    if (mode >= 3) { keep_to = n - int(s.below(n + 1)); if (s.chance(2, 3)) while (keep_to < n && keep_to > 0 && !t.fields[keep_to].type.ext) ++keep_to; }
    int hole = -1;
    if (mode == 2) hole = int(s.below(n));
    for (int i = 0; i < n; ++i) if (i < keep_to && i != hole) t.kept.push_back(i); else ++drops;
    return t;
}
// rules: `end` = nothing may follow this position in the data
static bool legal(const Tree& t, const AbiModel& m, bool end) {
    auto& v = *t.v;
    if (v.t.suf == Suf::arr) { for (auto& k : t.kids) if (!legal(k, m, false)) return false; return true; }
    if (v.t.suf == Suf::opt || m.defs[v.t.def].k == Def::variant) { for (auto& k : t.kids) if (!legal(k, m, end)) return false; return true; }
    if (m.defs[v.t.def].k != Def::struct_) return true;
    size_t n = t.fields.size();
    for (size_t i = 0; i < n; ++i) {
        bool kept = i < t.kept.size() && t.kept[i] == int(i);
        if (!kept) {
            if (t.kept.size() > i) return false;  // something present after something omitted
            if (!end || !t.fields[i].type.ext) return false;
        } else if (!legal(t.kids[i], m, end && i + 1 == n)) return false;
    }
    return true;
}
static void enc(const Tree& t, const AbiModel& m, Bytes& b) {
    auto& v = *t.v;
    if (v.t.suf == Suf::opt) { b += char(v.present); if (v.present) enc(t.kids[0], m, b); return; }
    if (v.t.suf == Suf::arr) { put_varuint(b, t.kids.size()); for (auto& k : t.kids) enc(k, m, b); return; }
    auto& d = m.defs[v.t.def];
    if (d.k == Def::scalar) { b += v.wire; return; }
    if (d.k == Def::variant) { put_varuint(b, v.alt); enc(t.kids[0], m, b); return; }
    for (int i : t.kept) enc(t.kids[i], m, b);
}
static void js(const Tree& t, const AbiModel& m, pbt::Source& s, bool shuf, std::string& r) {
    auto& v = *t.v;
    if (v.t.suf == Suf::opt) { if (v.present) js(t.kids[0], m, s, shuf, r); else r += "null"; return; }
    if (v.t.suf == Suf::arr) { r += '['; for (size_t i = 0; i < t.kids.size(); ++i) { if (i) r += ','; js(t.kids[i], m, s, shuf, r); } r += ']'; return; }
    auto& d = m.defs[v.t.def];
    if (d.k == Def::scalar) { r += scalar_json(d.sc, v.wire, s, true); return; }
    if (d.k == Def::variant) { r += "[" + json_str(m.text(d.alts[v.alt])) + ","; js(t.kids[0], m, s, shuf, r); r += ']'; return; }
    std::vector<std::string> mem;
    for (int i : t.kept) { std::string x = json_str(t.fields[i].name) + ":"; js(t.kids[i], m, s, shuf, x); mem.push_back(x); }
    if (shuf) shuffle(s, mem);
    r += '{';
    for (size_t i = 0; i < mem.size(); ++i) r += (i ? "," : "") + mem[i];
    r += '}';
}
PROP(omission, 10) {
    auto& s = c.s;
    Gen g;
    g.make(s);
    std::string abi = doc_json(make_doc(g.m, s)), type = g.m.text(g.root);
    GenVal gv{g.m, s};
    gv.omit_ext = false;
    gv.budget = 60;
    gv.max_depth = 14;
    Val v = gv.gen(g.root, 0, true);
    int drops = 0;
    Tree t = tree(g.m, v, s, drops);
    bool ok = legal(t, g.m, true);
    Bytes w;
    enc(t, g.m, w);
    std::string j, jr;
    js(t, g.m, s, false, j);
    js(t, g.m, s, true, jr);
    c.key(abi);
    c.key(type);
    c.key(j);
    if (drops) c.nontrivial();
    c.label(!drops ? "nothing-omitted" : ok ? "legal-omission" : "illegal-omission");
    c.note("abi", [&] { return abi; });
    c.note("type", [&] { return type; });
    c.note("json", [&] { return j; });
    c.note("wire", [&] { return pbt::hexs(w); });
    Ctx x;
    if (!x.set_abi(CONTRACT, abi)) c.fail("abi-rejected", "a valid ABI was rejected: " + x.error() + " " + abi);
    for (int r = 0; r < 2; ++r) {
        std::string out, mode = r ? "reorderable" : "ordered";
        bool got = x.j2b(CONTRACT, type, r ? jr : j, r, out);
        if (got != ok) c.fail(mode + (got ? "-accepted-illegal" : "-rejected-legal"), mode + (got ? " accepted " : " rejected (" + x.error() + ") ") + (r ? jr : j));
        if (got && out != w) c.fail(mode + "-wire", diff(out, w) + " for " + j);
        if (!got) c.require(!x.error().empty(), "no-error-text", "failed conversion left no error");
    }
    // binary: what a reader can make of the bytes alone
    Val dv;
    bool bok = ref_accepts(g.m, g.root, w, dv);
    if (ok && !bok) {
        // a legal omission whose bytes cannot be told apart (an omitted struct that takes no bytes); nothing to check
        c.label("ambiguous-bytes");
        return;
    }
    std::string o;
    bool got = x.b2j(CONTRACT, type, w, o);
    if (got != bok) c.fail(got ? "bin-accepted-illegal" : "bin-rejected-legal", (got ? "accepted as " + o : "rejected (" + x.error() + ")") + ": " + pbt::hexs(w));
    if (!got) { c.require(!x.error().empty(), "no-error-text", "failed conversion left no error"); return; }
    J p;
    std::string e;
    if (!parse_json(o, p, e)) c.fail("malformed", "output is not JSON (" + e + "): " + o);
    // values a reader reconstructs; only the shape matters here, so skip kinds whose text is checked elsewhere
    if (ok) {
        e = check_json(g.m, dv, p, "$");
        if (!e.empty()) c.fail("bin-value", e + " in " + o);
        std::string out;
        if (!x.j2b(CONTRACT, type, o, false, out) || out != w) c.fail("bin-json-bin", "the JSON of " + pbt::hexs(w) + " does not convert back: " + o);
    }
}

// Whatever is accepted, by whichever route, means one thing, and converting it to and fro changes nothing more.
#include "capi.hpp"
#include "gt_types.hpp"
using namespace ref;

namespace {
// ---- damage
std::string edit_bytes(pbt::Source& s, std::string v) {
    if (s.chance(1, 12)) { std::string r; for (size_t n = s.below(40); n; --n) r += char(s.chance(1, 3) ? s.byte() : s.below(4)); return r; }
    for (size_t k = s.below(4); k; --k) {
        size_t n = v.size(), at = n ? (s.chance(1, 3) ? s.below(std::min<size_t>(n, 4)) : s.below(n)) : 0;
        switch (s.below(8)) {
        case 0: if (n) v[at] = char(s.byte()); break;
        case 1: if (n) v[at] = char(v[at] + (s.flip() ? 1 : -1)); break;
        case 2: v.insert(at, 1, char(s.chance(1, 2) ? s.below(3) : s.byte())); break;
        case 3: if (n) v.erase(at, 1 + s.below(3)); break;
        case 4: if (n) v.resize(at); break;
        case 5: if (n) { v[at] = char(v[at] | 0x80); v.insert(at + 1, s.chance(1, 3) ? std::string(1 + s.below(8), '\x80') + '\0' : std::string(1, '\0')); } break;  // a longer spelling of a count
        case 6: v += char(s.below(4)); break;
        default: if (n) { size_t l = 1 + s.below(std::min<size_t>(n - at, 12)); v.insert(s.below(n + 1), v.substr(at, l)); }
        }
    }
    return v;
}
void leaf_edit(pbt::Source& s, J& j) {
    if (j.k == J::null) { j.k = s.flip() ? J::obj : J::str; return; }
    if (j.k == J::boolean) { if (s.flip()) { j.b = !j.b; return; } j.k = J::str; j.s = j.b ? "true" : "1"; return; }
    std::string& t = j.s;
    switch (s.below(9)) {
    case 0: j.k = j.k == J::num ? J::str : J::num; if (j.k == J::num && (t.empty() || t.find_first_not_of("0123456789-.e") != std::string::npos)) j.k = J::str; break;  // quotes
    case 1: t.insert(s.below(t.size() + 1), 1, "0123456789.-+eE,: \taAzZ_gT"[s.below(26)]); break;
    case 2: if (t.size()) t.erase(s.below(t.size()), 1); break;
    case 3: if (t.size()) t[s.below(t.size())] = "0123456789.-abcdefABCDEF"[s.below(24)]; break;
    case 4: t = "0" + t; break;
    case 5: t += "0"; break;
    case 6: { size_t d = t.find('.'); if (d == std::string::npos) t += ".0"; else t.resize(d); break; }
    case 7: { static const char* const x[] = {"", "0", "-0", "1", "-1", "255", "256", "65536", "4294967296", "18446744073709551616", "NaN", "Infinity", "1e5", "true", "null", "2024-02-30T00:00:00", "1970-01-01T00:00:00.000", "0.0001 EOS", "4,EOS", "EOS"}; t = x[s.below(20)]; break; }
    default: t += t.substr(0, 1 + s.below(4)); break;
    }
}
void all(J& j, std::vector<J*>& r) { r.push_back(&j); for (auto& x : j.a) all(x, r); for (auto& x : j.o) all(x.second, r); }
void edit_tree(pbt::Source& s, J& root, std::string& what) {
    std::vector<J*> n;
    all(root, n);
    J& j = *n[s.below(n.size())];
    if (j.k == J::obj) {
        if (j.o.empty()) { j.o.push_back({"zz", J{}}); what += "+member "; return; }
        size_t at = s.below(j.o.size());
        switch (s.below(6)) {
        case 0: j.o.erase(j.o.begin() + at); what += "-member "; break;
        case 1: { auto x = j.o[at]; J& v = x.second; if (s.flip()) leaf_edit(s, v); j.o.insert(j.o.begin() + s.below(j.o.size() + 1), std::move(x)); what += "dup "; break; }
        case 2: { size_t k = s.below(j.o.size()); if (k != at) std::swap(j.o[at], j.o[k]); } what += "swap "; break;
        case 3: { J x = s.flip() ? J{} : j.o[at].second; j.o.insert(j.o.begin() + at, {"zz", std::move(x)}); } what += "unknown "; break;
        case 4: { J x = *n[s.below(n.size())]; j.o[at].second = std::move(x); } what += "graft "; break;
        default: { size_t k = s.below(j.o.size()); if (k != at) std::swap(j.o[at].second, j.o[k].second); } what += "exchange "; break;
        }
    } else if (j.k == J::arr) {
        if (j.a.empty()) { j.a.push_back(J{}); what += "+element "; return; }
        size_t at = s.below(j.a.size());
        switch (s.below(4)) {
        case 0: j.a.erase(j.a.begin() + at); what += "-element "; break;
        case 1: { J x = j.a[at]; j.a.insert(j.a.begin() + at, x); what += "again "; break; }
        case 2: { size_t k = s.below(j.a.size()); if (k != at) std::swap(j.a[at], j.a[k]); } what += "swap "; break;
        default: { J x = *n[s.below(n.size())]; j.a[at] = x; what += "graft "; break; }
        }
    } else { leaf_edit(s, j); what += "leaf "; }
}
void print(pbt::Source& s, const J& j, std::string& r) {
    auto ws = [&] { if (s.chance(1, 8)) r += gen_ws(s); };
    switch (j.k) {
    case J::null: r += "null"; break;
    case J::boolean: r += j.b ? "true" : "false"; break;
    case J::num: r += j.s; break;
    case J::str: r += utf8_valid(j.s) ? json_str_any(s, j.s) : json_str(j.s); break;
    case J::arr: r += '['; for (size_t i = 0; i < j.a.size(); ++i) { if (i) r += ','; ws(); print(s, j.a[i], r); } ws(); r += ']'; break;
    default: r += '{'; for (size_t i = 0; i < j.o.size(); ++i) { if (i) r += ','; ws(); r += json_str(j.o[i].first); ws(); r += ':'; ws(); print(s, j.o[i].second, r); } ws(); r += '}';
    }
}
std::string edit_text(pbt::Source& s, const std::string& t, std::string& what) {
    if (s.chance(1, 5)) {
        std::string r = t;
        for (size_t k = 1 + s.below(2); k; --k) {
            size_t at = s.below(r.size() + 1);
            if (at < r.size() && s.flip()) r.erase(at, 1 + s.below(2)); else r.insert(at, 1, "\"\\,:[]{}0-e. u\nx"[s.below(16)]);
        }
        what = "characters ";
        return r;
    }
    J j;
    std::string e, r;
    if (!parse_json(t, j, e)) return t;
    for (size_t k = s.below(4); k; --k) edit_tree(s, j, what);
    print(s, j, r);
    return r;
}
// ---- what a type can hold
struct Holds { bool fine_time = false, loose = false; };  // times finer than their text; values without a text
void reach(const AbiModel& m, int def, std::set<int>& seen, Holds& h) {
    if (!seen.insert(def).second) return;
    auto& d = m.defs[def];
    switch (d.k) {
    case Def::scalar:
        if (d.sc == Sc::tp) h.fine_time = h.loose = true;
        if (d.sc == Sc::symbol || d.sc == Sc::symcode || d.sc == Sc::asset) h.loose = true;
        break;
    case Def::extasset: h.loose = true; break;
    case Def::alias: reach(m, d.target.def, seen, h); break;
    case Def::variant: for (auto& a : d.alts) reach(m, a.def, seen, h); break;
    default: for (auto& f : m.all_fields(def)) reach(m, f.type.def, seen, h);
    }
}
Built padded(pbt::Case& c) {
    auto& s = c.s;
    Built b;
    b.m = gen_abi(s);
    for (size_t i = b.m.first_user; i < b.m.defs.size(); ++i)
        if (b.m.defs[i].k == Def::struct_ && !b.m.nonempty(TR{int(i)})) b.m.defs[i].fields.insert(b.m.defs[i].fields.begin(), Field{"pad_", TR{int(Sc::u8)}});
    b.abi_json = doc_json(make_doc(b.m, s));
    b.root = gen_root(b.m, s);
    if (s.chance(1, 4)) { b.root = TR{int(s.below(b.m.first_user))}; if (s.chance(1, 4)) b.root.suf = s.flip() ? Suf::opt : Suf::arr; }
    b.type = b.m.text(b.root);
    GenVal g{b.m, s};
    g.budget = 25;
    b.v = g.gen(b.root, 0, true);
    encode(b.m, b.v, b.wire);
    c.key(b.abi_json);
    c.key(b.type);
    c.note("abi", [&] { return b.abi_json; });
    c.note("type", [&] { return b.type; });
    return b;
}
// every object of `t` has the members the printed form has, in that order
bool in_order(const J& t, const J& p) {
    if (t.a.size() != p.a.size() || t.o.size() != p.o.size()) return false;
    for (size_t i = 0; i < t.a.size(); ++i) if (!in_order(t.a[i], p.a[i])) return false;
    for (size_t i = 0; i < t.o.size(); ++i) if (t.o[i].first != p.o[i].first || !in_order(t.o[i].second, p.o[i].second)) return false;
    return true;
}
bool in_order(const std::string& t, const std::string& p) {
    J a, b;
    std::string e;
    return parse_json(t, a, e) && parse_json(p, b, e) && in_order(a, b);
}
// text printed from accepted input: accepted by both modes, alike, and printing the same again
void settle(pbt::Case& c, Ctx& x, const std::string& type, const std::string& j, bool may_reject, const Bytes* bytes, const char* from) {
    Bytes o, r;
    bool ok = x.j2b(CONTRACT, type, j, false, o);
    std::string e = ok ? "" : x.error();
    bool rk = x.j2b(CONTRACT, type, j, true, r);
    if (ok != rk || (ok && o != r)) c.fail("modes-on-output", type + " " + j + ": ordered " + (ok ? pbt::hexs(o) : "refused: " + e) + ", reorderable " + (rk ? pbt::hexs(r) : "refused: " + x.error()));
    if (!ok) {
        if (may_reject) { c.label("text not accepted back"); return; }
        c.fail("refused-back", std::string("from ") + from + ", " + type + " printed as " + j + " is refused: " + e);
    }
    if (bytes && o != *bytes) c.fail("other-bytes", std::string("from ") + from + ", " + type + " " + j + ": " + diff(o, *bytes));
    std::string j2;
    if (!x.b2j(CONTRACT, type, o, j2)) c.fail("refused-bytes", type + " " + j + " gives bytes that are refused: " + pbt::hexs(o) + " " + x.error());
    if (j2 != j) c.fail("unsettled", type + " " + j + " becomes " + j2);
    c.label("settled");
}
}  // namespace

PROP(bytes, 5) {
    auto& s = c.s;
    auto b = padded(c);
    Bytes w = edit_bytes(s, b.wire);
    c.key(w);
    if (w != b.wire && w.size()) c.nontrivial();
    c.note("bytes", [&] { return pbt::hexs(w); });
    Ctx x;
    load(c, x, b);
    std::string j, h;
    bool ok = x.b2j(CONTRACT, b.type, w, j);
    std::string e = ok ? j : x.error();
    bool hk = x.h2j(CONTRACT, b.type, hex_any(s, w), h);
    std::string he = hk ? h : x.error();
    if (ok != hk || e != he) c.fail("hex", b.type + " " + pbt::hexs(w) + ": binary gives " + e + ", hex gives " + he);
    c.label(ok ? "bytes accepted" : "bytes refused");
    if (!ok) return;
    Holds hold;
    std::set<int> seen;
    reach(b.m, b.root.def, seen, hold);
    settle(c, x, b.type, j, hold.loose, nullptr, "bytes");
}
PROP(texts, 6) {
    auto& s = c.s;
    auto b = padded(c);
    std::string t, what;
    write_json(b.m, b.v, s, JsonOpts{false, s.chance(1, 4), false, false}, t);
    t = edit_text(s, t, what);
    c.key(t);
    if (what.size()) c.nontrivial();
    c.note("edits", [&] { return what; });
    c.note("json", [&] { return pbt::quote(t); });
    Ctx x;
    load(c, x, b);
    Bytes o, r;
    bool ok = x.j2b(CONTRACT, b.type, t, false, o);
    std::string e = ok ? "" : x.error();
    bool rk = x.j2b(CONTRACT, b.type, t, true, r);
    if (ok && !rk) c.fail("reorderable-refuses", b.type + " " + t + ": accepted in order, refused by the reorderable mode: " + x.error());
    if (ok && o != r) c.fail("modes", b.type + " " + t + ": " + diff(r, o));
    c.label(ok ? "text accepted" : rk ? "text accepted when reorderable" : "text refused");
    if (!rk) return;
    std::string j;
    if (!x.b2j(CONTRACT, b.type, r, j)) c.fail("refused-bytes", b.type + " " + t + " gives bytes that are refused: " + pbt::hexs(r) + " " + x.error());
    if (!ok && in_order(t, j)) c.fail("ordered-refuses", b.type + " " + t + ": complete and in order, accepted by the reorderable mode as " + j + ", refused in order: " + e);
    Holds hold;
    std::set<int> seen;
    reach(b.m, b.root.def, seen, hold);
    settle(c, x, b.type, j, false, hold.fine_time ? nullptr : &r, "text");
}

namespace {
using namespace nat;
using eosio::abi;
using gt_var = std::variant<gt_leaf, std::vector<gt_derived>, std::optional<gt_leaf>, uint32_t, gt_tree>;
abi& natives() {
    static abi* a = [] {
        auto* r = new abi;
        eosio::abi_def d;
        d.version = "eosio::abi/1.0";
        convert(d, *r);
        return r;
    }();
    return *a;
}
template <class T> const eosio::abi_type* type_of(pbt::Case& c) {
    try { return natives().add_type<T>(); } catch (std::exception& e) { c.fail("add-type", e.what()); }
}
template <class T> bool read_native(const Bytes& w, T& v, std::string& e) {
    std::vector<char> b(w.begin(), w.end());
    b.shrink_to_fit();
    try {
        eosio::input_stream st(b.data(), b.size());
        from_bin(v, st);
        if (st.remaining()) { e = "bytes left"; return false; }
        return true;
    } catch (std::exception& x) { e = x.what(); return false; }
}
bool read_abi(const eosio::abi_type* t, const Bytes& w, std::string& r) {
    std::vector<char> b(w.begin(), w.end());
    b.shrink_to_fit();
    try {
        eosio::input_stream st(b.data(), b.size());
        r = t->bin_to_json(st);
        if (st.remaining()) { r = "bytes left"; return false; }
        return true;
    } catch (std::exception& x) { r = x.what(); return false; }
}
template <class T> void bytes_case(pbt::Case& c) {
    auto& s = c.s;
    G g{s};
    T v{};
    gen(g, v);
    Bytes w = edit_bytes(s, wire(v));
    c.key(tn<T>() + w);
    if (w.size() > 1) c.nontrivial();
    c.note("type", [&] { return tn<T>(); });
    c.note("bytes", [&] { return pbt::hexs(w); });
    auto* t = type_of<T>(c);
    T x{};
    std::string e, j;
    bool n = read_native(w, x, e), a = read_abi(t, w, j);
    // the library counts the elements of bitwise vectors in 64 bits, so it may take more than five bytes there
    if (n && !a && j == "Invalid varuint encoding") { c.label("count of more than five bytes"); return; }
    if (n != a) c.fail("native-bytes", tn<T>() + " " + pbt::hexs(w) + ": natively " + (n ? "accepted" : "refused: " + e) + ", through the ABI " + (a ? j : "refused: " + j));
    c.label(n ? "bytes accepted" : "bytes refused");
    if (!n) return;
    std::string nj = eosio::convert_to_json(x);
    if (nj != j) c.fail("native-text", tn<T>() + " " + pbt::hexs(w) + ": natively " + nj + ", through the ABI " + j);
    Bytes w2 = nat::str(eosio::convert_to_bin(x));
    T y{};
    if (!read_native(w2, y, e)) c.fail("native-again", tn<T>() + " written as " + pbt::hexs(w2) + " is refused: " + e);
    if (nat::str(eosio::convert_to_bin(y)) != w2) c.fail("native-again", tn<T>() + " " + pbt::hexs(w2) + " is written as other bytes");
}
// a member given more than once: natively each one is read, in the reorderable mode only the last
bool repeats(const J& j) {
    std::set<std::string> k;
    for (auto& x : j.o) if (!k.insert(x.first).second || repeats(x.second)) return true;
    for (auto& x : j.a) if (repeats(x)) return true;
    return false;
}
bool repeats(const std::string& t) {
    J j;
    std::string e;
    return parse_json(t, j, e) && repeats(j);
}
template <class T> void text_case(pbt::Case& c) {
    auto& s = c.s;
    G g{s};
    g.json = true;
    T v{};
    gen(g, v);
    std::string what, t = edit_text(s, eosio::convert_to_json(v), what);
    c.key(tn<T>() + t);
    if (what.size()) c.nontrivial();
    c.note("type", [&] { return tn<T>(); });
    c.note("edits", [&] { return what; });
    c.note("json", [&] { return pbt::quote(t); });
    auto* ty = type_of<T>(c);
    std::string e, ae;
    auto conv = [&](bool reorder, Bytes& r) {
        try { r = nat::str(reorder ? ty->json_to_bin_reorderable(t) : ty->json_to_bin(t)); return true; } catch (std::exception& x) { ae = x.what(); return false; }
    };
    Bytes o, r;
    bool ok = conv(false, o), rk = conv(true, r);
    if (ok && (!rk || o != r)) c.fail("modes", tn<T>() + " " + t + ": ordered " + pbt::hexs(o) + ", reorderable " + (rk ? pbt::hexs(r) : "refused: " + ae));
    T x{};
    bool n = read_json(x, t, &e);
    c.label(ok ? "text accepted" : rk ? "text accepted when reorderable" : n ? "text accepted natively" : "text refused");
    if (rk && !n && !repeats(t)) c.fail("native-refuses", tn<T>() + " " + t + ": accepted through the ABI, refused natively: " + e);
    if (!n) return;
    Bytes w = nat::str(eosio::convert_to_bin(x));
    if (rk && w != r) c.fail("native-bytes", tn<T>() + " " + t + ": natively " + pbt::hexs(w) + ", through the ABI " + pbt::hexs(r));
    if (!rk && in_order(t, eosio::convert_to_json(x))) c.fail("abi-refuses", tn<T>() + " " + t + ": accepted natively as " + eosio::convert_to_json(x) + ", refused through the ABI: " + ae);
    if (!rk) return;  // a member left out may have a default without a text
    std::string j = eosio::convert_to_json(x);
    T y{};
    if (!read_json(y, j, &e)) c.fail("native-again", tn<T>() + " printed as " + j + " is refused: " + e);
    std::string j2 = eosio::convert_to_json(y);
    if (j2 != j) c.fail("native-again", tn<T>() + " " + j + " becomes " + j2);
}
struct Entry { void (*bytes)(pbt::Case&); void (*texts)(pbt::Case&); };
#define E(...) {bytes_case<__VA_ARGS__>, text_case<__VA_ARGS__>},
const Entry entries[] = {E(gt_ints) E(gt_chain) E(gt_leaf) E(gt_vecs) E(gt_base) E(gt_derived) E(gt_mixed) E(gt_tree) E(gt_node) E(gt_outer) E(gt_var) E(std::vector<gt_node>) E(std::optional<gt_derived>) E(std::vector<std::string>)};
}  // namespace

PROP(native_bytes, 4) { entries[c.s.below(std::size(entries))].bytes(c); }
PROP(native_texts, 5) { entries[c.s.below(std::size(entries))].texts(c); }

// Truncated, extended and damaged binary: accepted exactly when it is one complete encoding.
#include "capi.hpp"
using namespace ref;

static Built padded_case(pbt::Case& c) {  // as build_case, but every type takes at least one byte
    auto& s = c.s;
    Built b;
    AbiOpts o;
    b.m = gen_abi(s, o);
    for (size_t i = b.m.first_user; i < b.m.defs.size(); ++i)
        if (b.m.defs[i].k == Def::struct_ && !b.m.nonempty(TR{int(i)})) b.m.defs[i].fields.insert(b.m.defs[i].fields.begin(), Field{"pad_", TR{int(Sc::u8)}});
    b.abi_json = doc_json(make_doc(b.m, s));
    b.root = gen_root(b.m, s);
    b.type = b.m.text(b.root);
    GenVal g{b.m, s};
    b.v = g.gen(b.root, 0, true);
    encode(b.m, b.v, b.wire);
    label_val(c, g);
    c.key(b.abi_json);
    c.key(b.type);
    c.key(b.wire);
    c.note("abi", [&] { return b.abi_json; });
    c.note("type", [&] { return b.type; });
    c.note("wire", [&] { return pbt::hexs(b.wire); });
    return b;
}
static void offer(pbt::Case& c, Ctx& x, const Built& b, const Bytes& w, const char* what, bool value) {
    Val v;
    bool want = ref_accepts(b.m, b.root, w, v);
    std::string j;
    bool ok = x.b2j(CONTRACT, b.type, w, j);
    if (ok != want) c.fail(std::string(want ? "rejected-" : "accepted-") + what, std::string(what) + (ok ? " accepted as " + j : " rejected (" + x.error() + ")") + ": " + pbt::hexs(w));
    if (!ok) { c.require(!x.error().empty(), "no-error-text", "failed conversion left no error"); return; }
    c.label("still-complete");
    J p;
    std::string e;
    if (!parse_json(j, p, e)) c.fail("malformed", "output is not JSON (" + e + "): " + j);
    if (value) {
        e = check_json(b.m, v, p, "$");
        if (!e.empty()) c.fail("value", e + " in " + j);
    }
}
static std::vector<size_t> cuts(pbt::Source& s, size_t n) {  // prefix lengths to try: all of a short input
    std::vector<size_t> r;
    for (size_t i = 0; i < n; ++i)
        if (n <= 40 || i < 6 || n - i <= 6) r.push_back(i);
    if (n > 40) for (int k = 0; k < (n > 5000 ? 6 : 16); ++k) r.push_back(s.below(n));
    return r;
}
PROP(prefixes, 8) {
    auto& s = c.s;
    auto b = padded_case(c);
    Ctx x;
    load(c, x, b);
    size_t n = b.wire.size();
    if (n) c.nontrivial();
    for (size_t i : cuts(s, n)) offer(c, x, b, b.wire.substr(0, i), "prefix", true);
    for (int k = 0; k < 3; ++k) {
        Bytes w = b.wire;
        size_t e = k == 0 ? 1 : 1 + s.below(12);
        for (size_t i = 0; i < e; ++i) w += char(k == 0 ? 0 : s.byte());
        bool exts = w.size() && b.v.omitted;
        offer(c, x, b, w, "extra-bytes", !exts && false);
    }
    // hex input: an odd number of digits or a foreign character is rejected
    std::string h = hex_any(s, b.wire), j;
    if (h.empty()) return;
    std::string o = h;
    o.erase(s.below(o.size()), 1);
    if (x.h2j(CONTRACT, b.type, o, j)) c.fail("odd-hex", "hex with an odd number of digits accepted: " + o);
    c.require(!x.error().empty(), "no-error-text", "failed conversion left no error");
    o = h;
    static const char bad[] = "gGzZ :/@`-+.x";
    o[s.below(o.size())] = bad[s.below(sizeof bad - 1)];
    if (x.h2j(CONTRACT, b.type, o, j)) c.fail("bad-hex", "hex with a foreign character accepted: " + o);
}
PROP(damaged, 5) {
    auto& s = c.s;
    auto b = padded_case(c);
    if (b.wire.empty()) throw pbt::Discard{};
    c.nontrivial();
    Ctx x;
    load(c, x, b);
    for (int k = 0; k < 8; ++k) {
        Bytes w = b.wire;
        size_t i = s.flip() ? s.below(std::min<size_t>(w.size(), 4)) : s.below(w.size());
        switch (s.below(5)) {
        case 0: w[i] = char(w[i] + 1); break;
        case 1: w[i] = char(w[i] - 1); break;
        case 2: w[i] = char(s.byte()); break;
        case 3: w.erase(i, 1 + s.below(3)); break;
        default: w.insert(i, 1, char(s.byte())); break;
        }
        offer(c, x, b, w, "damaged", false);
    }
}
// binary ABI definitions: truncation
PROP(abi_bin, 3) {
    auto& s = c.s;
    AbiOpts o;
    o.wide_variants = false;
    o.max_defs = 4;
    AbiModel m = gen_abi(s, o);
    auto d = make_doc(m, s);
    Bytes full = doc_bin(d), cut = doc_bin(d, true);
    size_t optional_at = full.size();
    if (d.variants.empty()) optional_at = cut.size();
    c.key(full);
    c.nontrivial();
    c.note("abi", [&] { return pbt::hexs(full); });
    Ctx x;
    if (!x.set_bin(CONTRACT, full)) c.fail("abi-rejected", "a valid binary ABI was rejected: " + x.error());
    size_t variants_at = 0;
    if (!d.variants.empty()) { auto e = d; e.variants.clear(); variants_at = doc_bin(e, true).size(); }
    for (size_t i : cuts(s, full.size())) {
        if (variants_at && i == variants_at) continue;  // complete, but its references may be missing: C08/C09
        std::vector<char> w(full.begin(), full.begin() + i);
        w.shrink_to_fit();
        bool ok = abieos_set_abi_bin(x.c, CONTRACT, w.data(), w.size());
        if (ok != (i == optional_at)) c.fail(ok ? "abi-prefix-accepted" : "abi-prefix-rejected", "prefix of " + std::to_string(i) + " bytes of " + std::to_string(full.size()) + (ok ? " accepted" : " rejected: " + x.error()));
        if (!ok) c.require(!x.error().empty(), "no-error-text", "failed call left no error");
    }
}

// Thin RAII over the public C API.
#pragma once
#include "refabi.hpp"
#include <eosio/abieos.h>

struct Ctx {
    abieos_context* c;
    Ctx() : c(abieos_create()) {}
    ~Ctx() { abieos_destroy(c); }
    Ctx(const Ctx&) = delete;
    bool set_abi(uint64_t contract, const std::string& json) { return abieos_set_abi(c, contract, json.c_str()); }
    bool set_bin(uint64_t contract, const std::string& b) { return abieos_set_abi_bin(c, contract, b.data(), b.size()); }
    std::string error() { return abieos_get_error(c); }
    std::string bin() {
        int n = abieos_get_bin_size(c);
        const char* d = abieos_get_bin_data(c);
        return n > 0 ? std::string(d, n) : std::string();
    }
    bool j2b(uint64_t contract, const std::string& type, const std::string& json, bool reorder, std::string& out) {
        bool ok = reorder ? abieos_json_to_bin_reorderable(c, contract, type.c_str(), json.c_str())
                          : abieos_json_to_bin(c, contract, type.c_str(), json.c_str());
        if (ok) out = bin();
        return ok;
    }
    bool b2j(uint64_t contract, const std::string& type, const std::string& b, std::string& out) {
        // exact-size heap copy so that any over-read is visible to the sanitizer
        std::vector<char> x(b.begin(), b.end());
        x.shrink_to_fit();
        const char* r = abieos_bin_to_json(c, contract, type.c_str(), x.data(), x.size());
        if (!r) return false;
        out = r;
        return true;
    }
    bool h2j(uint64_t contract, const std::string& type, const std::string& h, std::string& out) {
        const char* r = abieos_hex_to_json(c, contract, type.c_str(), h.c_str());
        if (!r) return false;
        out = r;
        return true;
    }
};
constexpr uint64_t CONTRACT = 0x5530ea0000000000ull;  // "eosio"

struct Built {  // an ABI, a root type and a value of it
    ref::AbiModel m;
    std::string abi_json, type;
    ref::TR root;
    ref::Val v;
    ref::Bytes wire;
};
inline void label_val(pbt::Case& c, const ref::GenVal& g) {
    if (g.n_var) c.label("has-variant");
    if (g.n_opt) c.label("has-optional");
    if (g.n_arr) c.label("has-array");
    if (g.max_arr > 127) c.label("array>127");
    if (g.n_struct > 1) c.label("nested-struct");
    if (g.n_base) c.label("derived-struct");
    if (g.n_ext_omitted) c.label("extension-omitted");
    if (g.n_ext_present) c.label("extension-present");
    if (g.depth_seen >= 5) c.label("depth>=5");
}
inline bool val_interesting(const ref::GenVal& g) { return g.nodes >= 2 && (g.n_struct || g.n_var || g.n_arr || g.n_opt); }

inline ref::TR chain_type(ref::AbiModel& m, int& st) {  // struct chain { uint8 v; chain? next; }  for deep data
    ref::Def d;
    d.k = ref::Def::struct_;
    d.name = "chain_link";
    m.defs.push_back(d);
    st = int(m.defs.size()) - 1;
    m.defs[st].fields = {{"v", {int(ref::Sc::u8)}}, {"next", {st, ref::Suf::opt}}};
    return ref::TR{st};
}
inline Built build_case(pbt::Case& c, const ref::AbiOpts& o = {}, bool note = true) {
    auto& s = c.s;
    Built b;
    b.m = ref::gen_abi(s, o);
    b.abi_json = ref::doc_json(ref::make_doc(b.m, s));
    b.root = ref::gen_root(b.m, s);
    b.type = b.m.text(b.root);
    ref::GenVal g{b.m, s};
    if (s.chance(1, 20)) { g.max_depth = 24; g.budget = 150; }
    b.v = g.gen(b.root, 0, true);
    ref::encode(b.m, b.v, b.wire);
    label_val(c, g);
    if (val_interesting(g)) c.nontrivial();
    c.key(b.abi_json);
    c.key(b.type);
    c.key(b.wire);
    if (note) {
        c.note("abi", [&] { return b.abi_json; });
        c.note("type", [&] { return b.type; });
        c.note("wire", [&] { return pbt::hexs(b.wire); });
    }
    return b;
}
// Large values: element counts, lengths and alternative indices around the points where the size prefix grows.
inline Built bulk_case(pbt::Case& c) {
    using namespace ref;
    auto& s = c.s;
    Built b;
    b.m = AbiModel();
    auto add = [&](Def::K k, const char* name) { Def d; d.k = k; d.name = name; b.m.defs.push_back(d); return int(b.m.defs.size()) - 1; };
    auto scalar = [&](Sc k) { Val v; v.t = TR{int(k)}; v.wire = gen_scalar(k, s); return v; };
    int kind = int(s.below(6));
    size_t n = s.chance(1, 8) ? (s.chance(1, 8) ? s.pick({32767, 32768, 65535, 65536, 65537, 70001}) : s.pick({16383, 16384, 16385})) : s.pick({126, 127, 128, 129, 255, 256, 257, 300, 1000});
    Val v;
    if (kind <= 1) {  // array of a small scalar or of an aliased one
        static const Sc ks[] = {Sc::u8, Sc::i16, Sc::bool_, Sc::vu32, Sc::u64};
        Sc k = ks[s.below(5)];
        int d = int(k);
        if (s.flip()) { d = add(Def::alias, "al"); b.m.defs[d].target = TR{int(k)}; }
        b.root = TR{d, Suf::arr};
        v.t = TR{int(k), Suf::arr};
        Val e = scalar(k);
        for (size_t i = 0; i < n; ++i) { if (n < 400) e = scalar(k); v.kids.push_back(e); }
    } else if (kind == 2) {  // array of structs that hold arrays
        if (n > 1000) n = 1000;
        int d = add(Def::struct_, "row");
        b.m.defs[d].fields = {{"a", {int(Sc::u8), Suf::arr}}, {"b", {int(Sc::i16), Suf::opt}}};
        b.root = TR{d, Suf::arr};
        v.t = b.root;
        for (size_t i = 0; i < n; ++i) {
            Val r, a, o;
            a.t = TR{int(Sc::u8), Suf::arr};
            for (size_t k = s.below(4); k; --k) a.kids.push_back(scalar(Sc::u8));
            o.t = TR{int(Sc::i16), Suf::opt};
            o.present = s.flip();
            if (o.present) o.kids.push_back(scalar(Sc::i16));
            r.t = TR{d};
            r.kids = {a, o};
            v.kids.push_back(r);
        }
    } else if (kind == 3) {  // variant with many alternatives
        if (n > 1000) n = 300;
        int d = add(Def::variant, "vr"), first = int(b.m.defs.size());
        for (size_t i = 0; i < n; ++i) {
            int x = add(Def::alias, ("t" + std::to_string(i)).c_str());
            b.m.defs[x].target = TR{int(i % 2 ? Sc::u8 : Sc::i32)};
            b.m.defs[d].alts.push_back(TR{x});
        }
        b.root = TR{d};
        v.t = b.root;
        v.alt = int(s.pick({size_t(0), n - 1, n / 2, std::min<size_t>(n - 1, 127), std::min<size_t>(n - 1, 128)}));
        v.kids.push_back(scalar(v.alt % 2 ? Sc::u8 : Sc::i32));
        (void)first;
    } else if (kind == 4) {  // struct with many fields
        if (n > 1000) n = 1000;
        int d = add(Def::struct_, "wide");
        b.root = TR{d};
        v.t = b.root;
        for (size_t i = 0; i < n; ++i) {
            Sc k = i % 3 ? Sc::u8 : Sc::vi32;
            b.m.defs[d].fields.push_back({"f" + std::to_string(i), {int(k)}});
            v.kids.push_back(scalar(k));
        }
    } else {
        Sc k = s.flip() ? Sc::string : Sc::bytes;
        if (s.chance(1, 60)) n = (1 << 21) - 1 + s.below(3);
        b.root = TR{int(k)};
        v.t = b.root;
        std::string t(n, 'x');
        t[s.below(n)] = 'q';
        put_varuint(v.wire, n);
        v.wire += t;
    }
    b.v = v;
    encode(b.m, b.v, b.wire);
    b.abi_json = doc_json(make_doc(b.m, s));
    b.type = b.m.text(b.root);
    c.nontrivial();
    c.key(b.type + std::to_string(kind));
    c.key(b.wire);
    c.label(n >= 16384 ? "size>=16384" : n >= 128 ? "size>=128" : "size<128");
    c.note("shape", [&] { return "kind " + std::to_string(kind) + " n " + std::to_string(n); });
    return b;
}
inline void load(pbt::Case& c, Ctx& x, const Built& b) {
    if (!x.set_abi(CONTRACT, b.abi_json)) c.fail("abi-rejected", "a valid ABI was rejected: " + x.error());
}
inline std::string diff(const std::string& a, const std::string& b) {
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    return "first difference at byte " + std::to_string(i) + ": got " + pbt::hexs(a.substr(0, 400)) + " expected " + pbt::hexs(b.substr(0, 400));
}

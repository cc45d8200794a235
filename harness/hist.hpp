// Histories of C API calls over generated ABIs and values, and what each call gives.
#pragma once
#include "capi.hpp"
#include "histcall.hpp"
#include <sched.h>

namespace hist {
using namespace ref;
struct Abi { AbiModel m; AbiDoc d; std::string json; Bytes bin; };
struct Sample { int abi; std::string type, json; Bytes wire; };
struct Pool { std::vector<Abi> abis; std::vector<Sample> samples; };
inline Op set_op(pbt::Source& s, const Abi& a, uint64_t n, int spin = 0) {
    Op o;
    o.kind = int(s.below(3));
    o.n = n;
    o.arg = o.kind == set_json ? a.json : o.kind == set_bin ? std::string(a.bin) : hex_any(s, a.bin);
    o.spin = spin;
    if (s.chance(1, 12)) o.arg.resize(o.arg.size() / 2);
    return o;
}
inline Pool gen_pool(pbt::Case& c, bool pad = false) {  // pad: every struct has bytes, so that a damaged count cannot stand for very many nothings
    auto& s = c.s;
    Pool p;
    auto& abis = p.abis;
    auto& pool = p.samples;
    abis.resize(1 + s.below(2));
    for (auto& a : abis) {
        AbiOpts o;
        o.wide_variants = false;
        o.max_defs = 5;
        a.m = gen_abi(s, o);
        if (pad)
            for (size_t i = a.m.first_user; i < a.m.defs.size(); ++i)
                if (a.m.defs[i].k == Def::struct_ && !a.m.nonempty(TR{int(i)})) a.m.defs[i].fields.insert(a.m.defs[i].fields.begin(), Field{"pad_", TR{int(Sc::u8)}});
        for (size_t k = s.below(3); k; --k) { a.m.actions.push_back({gen_name(s), a.m.text(gen_root(a.m, s))}); a.m.tables.push_back({gen_name(s), a.m.text(gen_root(a.m, s))}); }
        a.d = make_doc(a.m, s);
        a.json = doc_json(a.d);
        a.bin = doc_bin(a.d);
        c.key(a.bin);
    }
    static const char* const scalars[] = {"public_key", "private_key", "signature", "float64", "float32", "asset", "time_point", "block_timestamp_type", "checksum256", "uint128", "int128", "extended_asset", "symbol", "name", "string", "bytes"};
    for (size_t n = 2 + s.below(5); n; --n) {
        Sample x;
        x.abi = int(s.below(abis.size()));
        auto& m = abis[x.abi].m;
        TR root = gen_root(m, s);
        if (s.chance(1, 3)) {
            const char* want = scalars[s.below(16)];
            for (size_t i = 0; i < m.first_user; ++i) if (m.defs[i].name == want) root = TR{int(i)};
        }
        GenVal g{m, s};
        g.budget = 15;
        Val v = g.gen(root, 0, true);
        encode(m, v, x.wire);
        x.type = m.text(root);
        JsonOpts jo;
        write_json(m, v, s, jo, x.json);
        if (s.chance(1, 8) && x.json.size()) x.json[s.below(x.json.size())] = char(33 + s.below(90));
        if (s.chance(1, 8)) x.wire.resize(s.below(x.wire.size() + 1));
        c.key(x.type + x.json);
        pool.push_back(x);
    }
    return p;
}
inline History gen_history(pbt::Source& s, const Pool& p) {
    History h;
    for (size_t i = 0; i < p.abis.size(); ++i) h.push_back(set_op(s, p.abis[i], CONTRACT + i * 16, int(s.below(3))));
    for (size_t n = 2 + s.below(12); n; --n) {
        Op o;
        o.spin = s.chance(1, 3) ? int(s.below(4)) : 0;
        auto& x = p.samples[s.below(p.samples.size())];
        o.n = CONTRACT + uint64_t(x.abi) * 16;
        o.type = x.type;
        switch (s.below(12)) {
        case 0: case 1: case 2: o.kind = to_bin; o.arg = x.json; break;
        case 3: o.kind = to_bin_reorder; o.arg = x.json; break;
        case 4: case 5: case 6: o.kind = to_json; o.arg = x.wire; break;
        case 7: o.kind = hex_to_json; o.arg = hex_any(s, x.wire); break;
        case 8: if (s.flip()) { o.kind = to_name; o.arg = name_text(gen_name(s)); } else { o.kind = from_name; o.n = gen_name(s); } break;
        case 9: {
            auto& l = s.flip() ? (o.kind = action, p.abis[x.abi].m.actions) : (o.kind = table, p.abis[x.abi].m.tables);
            o.arg = std::to_string(l.empty() || s.chance(1, 4) ? gen_name(s) : l[s.below(l.size())].name);
            break;
        }
        case 10: o = set_op(s, p.abis[s.below(p.abis.size())], CONTRACT + s.below(2) * 16, o.spin); break;
        default: o.kind = s.chance(1, 3) ? recreate : to_bin; o.arg = x.json; break;
        }
        h.push_back(o);
    }
    return h;
}
inline std::string text(const History& h) {
    std::string r;
    for (auto& o : h) r += std::string(" ") + kind_name[o.kind] + "(" + o.type + (o.arg.size() < 60 ? " " + pbt::quote(o.arg) : "") + ")";
    return r;
}
}  // namespace hist

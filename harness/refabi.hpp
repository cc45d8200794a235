// Reference model of the ABI-driven codec: types, values, wire encoding, JSON reading and writing.
#pragma once
#include "ref.hpp"
#include <memory>
#include <set>

namespace ref {

enum class Sc { bool_, i8, u8, i16, u16, i32, u32, i64, u64, i128_, u128_, vi32, vu32, f32, f64, f128, tp, tps, bts, name, bytes, string, c160, c256, c512, pub, pvt, sig, symbol, symcode, asset, COUNT };
inline const char* sc_name(Sc k) {
    static const char* n[] = {"bool", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "int128", "uint128", "varint32", "varuint32", "float32", "float64", "float128", "time_point", "time_point_sec", "block_timestamp_type", "name", "bytes", "string", "checksum160", "checksum256", "checksum512", "public_key", "private_key", "signature", "symbol", "symbol_code", "asset"};
    return n[int(k)];
}
struct IntInfo { bool ok; bool sgn; int bits; bool quoted; };
inline IntInfo int_info(Sc k) {
    switch (k) {
    case Sc::i8: return {true, true, 8, false};
    case Sc::u8: return {true, false, 8, false};
    case Sc::i16: return {true, true, 16, false};
    case Sc::u16: return {true, false, 16, false};
    case Sc::i32: case Sc::vi32: return {true, true, 32, false};
    case Sc::u32: case Sc::vu32: return {true, false, 32, false};
    case Sc::i64: return {true, true, 64, true};
    case Sc::u64: return {true, false, 64, true};
    case Sc::i128_: return {true, true, 128, true};
    case Sc::u128_: return {true, false, 128, true};
    default: return {false, false, 0, false};
    }
}
inline Bytes int_wire(Sc k, u128 v) {  // v: two's complement in 128 bits
    Bytes w;
    if (k == Sc::vu32) put_varuint(w, uint32_t(v));
    else if (k == Sc::vi32) put_varuint(w, zigzag(int32_t(v)));
    else put_le(w, v, int_info(k).bits / 8);
    return w;
}
inline uint64_t get_varuint(std::string_view b, size_t& p) {
    uint64_t v = 0;
    for (int sh = 0;; sh += 7) {
        uint8_t c = b[p++];
        v |= uint64_t(c & 127) << sh;
        if (!(c & 128)) return v;
    }
}
inline i128 int_value(Sc k, const Bytes& w) {  // signed kinds only meaningful as signed
    auto in = int_info(k);
    u128 v;
    size_t p = 0;
    if (k == Sc::vu32) return i128(get_varuint(w, p));
    if (k == Sc::vi32) { uint64_t z = get_varuint(w, p); return (z & 1) ? -i128(z / 2) - 1 : i128(z / 2); }
    v = get_le(w, 0, in.bits / 8);
    if (in.sgn && in.bits < 128 && (v >> (in.bits - 1)) & 1) v |= ~(((u128)1 << in.bits) - 1);
    return i128(v);
}
inline std::string int_text(Sc k, const Bytes& w) {
    i128 v = int_value(k, w);
    return k == Sc::u128_ ? pbt::to_s((u128)v) : pbt::to_s(v);
}
inline double f64_of(const Bytes& w) { uint64_t u = uint64_t(get_le(w, 0, 8)); double d; memcpy(&d, &u, 8); return d; }
inline float f32_of(const Bytes& w) { uint32_t u = uint32_t(get_le(w, 0, 4)); float d; memcpy(&d, &u, 4); return d; }
inline Bytes wire_of(double d) { uint64_t u; memcpy(&u, &d, 8); Bytes w; put_le(w, u, 8); return w; }
inline Bytes wire_of(float d) { uint32_t u; memcpy(&u, &d, 4); Bytes w; put_le(w, u, 4); return w; }

inline double gen_double(pbt::Source& s) {
    double d;
    uint64_t u;
    switch (s.below(8)) {
    case 0: d = double(s.range(-100, 100)); break;
    case 1: d = double(s.range(-100000, 100000)) / 100; break;
    case 2: { static const double t[] = {0.0, -0.0, 1.0, -1.0, 0.1, 1e21, 1e22, 1e23, 1e-7, 5e-324, 2.2250738585072014e-308, 2.2250738585072009e-308, 1.7976931348623157e308, 9007199254740993.0, 4.9e-322, 123456789012345680.0, 0.3, 1e15, 1e16, 1e17}; d = t[s.below(20)]; break; }
    case 3: { u = s.u64(); memcpy(&d, &u, 8); break; }
    case 4: { u = s.u64() & 0x800fffffffffffffull; u |= uint64_t(s.below(8) + 1019) << 52; memcpy(&d, &u, 8); break; }
    case 5: { u = s.u64(); u = (u & 0x800fffffffffffffull) | uint64_t(s.below(200) + 923) << 52; memcpy(&d, &u, 8); break; }
    case 6: d = std::ldexp(1.0, int(s.range(-1074, 1023))) * (s.flip() ? 1 : -1); break;
    default: { u = uint64_t(s.uint_bits(53)) + (s.flip() ? 0x8000000000000000ull : 0); memcpy(&d, &u, 8); }
    }
    if (std::isnan(d)) d = 0.5;
    return d;
}
inline float gen_float(pbt::Source& s) {
    if (s.flip()) {
        double d = gen_double(s);
        float f = float(d);
        return std::isnan(f) ? 0.5f : f;
    }
    uint32_t u = uint32_t(s.raw(4));
    float f;
    memcpy(&f, &u, 4);
    return std::isnan(f) ? 1.5f : f;
}

// A wire value of scalar kind k which has an exact JSON text
inline Bytes gen_scalar(Sc k, pbt::Source& s) {
    auto in = int_info(k);
    Bytes w;
    if (in.ok) return int_wire(k, in.sgn ? u128(s.int_bits(in.bits)) : s.uint_bits(in.bits));
    switch (k) {
    case Sc::bool_: return Bytes(1, char(s.below(2)));
    case Sc::f32: return wire_of(gen_float(s));
    case Sc::f64: return wire_of(gen_double(s));
    case Sc::f128: for (int i = 0; i < 16; ++i) w += char(s.byte()); return w;
    case Sc::c160: for (int i = 0; i < 20; ++i) w += char(s.byte()); return w;
    case Sc::c256: for (int i = 0; i < 32; ++i) w += char(s.byte()); return w;
    case Sc::c512: for (int i = 0; i < 64; ++i) w += char(s.byte()); return w;
    case Sc::tp: { uint64_t ms = uint64_t(s.uint_bits(32)) * 1000 + s.below(1000); put_le(w, ms * 1000, 8); return w; }
    case Sc::tps: put_le(w, s.uint_bits(32), 4); return w;
    case Sc::bts: put_le(w, s.uint_bits(32), 4); return w;
    case Sc::name: put_le(w, gen_name(s), 8); return w;
    case Sc::bytes: { auto b = gen_bytes(s, 300); if (s.chance(1, 200)) b.assign(16380 + s.below(8), 'x'); put_varuint(w, b.size()); return w + b; }
    case Sc::string: { auto b = gen_utf8(s, 300); if (s.chance(1, 200)) b.assign(16380 + s.below(8), 'y'); put_varuint(w, b.size()); return w + b; }
    case Sc::pub: return gen_key(s, KeyKind::pub);
    case Sc::pvt: return gen_key(s, KeyKind::pvt);
    case Sc::sig: return gen_key(s, KeyKind::sig);
    case Sc::symbol: put_le(w, (code_value(gen_code(s)) << 8) | s.below(256), 8); return w;
    case Sc::symcode: put_le(w, code_value(gen_code(s)), 8); return w;
    case Sc::asset: {
        put_le(w, u128(s.int_bits(64)), 8);
        unsigned p = s.chance(1, 8) ? unsigned(s.below(256)) : unsigned(s.below(19));
        put_le(w, (code_value(gen_code(s)) << 8) | p, 8);
        return w;
    }
    default: return w;
    }
}
inline std::string code_text(uint64_t v) { std::string r; while (v) { r += char(v & 255); v >>= 8; } return r; }

// canonical text of non-numeric scalars
inline std::string scalar_text(Sc k, const Bytes& w) {
    size_t p = 0;
    switch (k) {
    case Sc::tp: return time_text_ms(uint64_t(get_le(w, 0, 8)) / 1000);
    case Sc::tps: return time_text_ms(uint64_t(get_le(w, 0, 4)) * 1000);
    case Sc::bts: return time_text_ms(uint64_t(get_le(w, 0, 4)) * 500 + 946684800000ull);
    case Sc::name: return name_text(uint64_t(get_le(w, 0, 8)));
    case Sc::f128: case Sc::c160: case Sc::c256: case Sc::c512: return pbt::hexs(w);
    case Sc::bytes: get_varuint(w, p); return pbt::hexs(w.substr(p));
    case Sc::string: get_varuint(w, p); return utf8_sanitize(w.substr(p));
    case Sc::pub: return key_text(KeyKind::pub, w);
    case Sc::pvt: return key_text(KeyKind::pvt, w);
    case Sc::sig: return key_text(KeyKind::sig, w);
    case Sc::symbol: { uint64_t v = uint64_t(get_le(w, 0, 8)); return std::to_string(v & 255) + "," + code_text(v >> 8); }
    case Sc::symcode: return code_text(uint64_t(get_le(w, 0, 8)));
    case Sc::asset: { uint64_t y = uint64_t(get_le(w, 8, 8)); return asset_text(int64_t(get_le(w, 0, 8)), y & 255, code_text(y >> 8)); }
    default: return "";
    }
}
// "" when j is the right JSON for wire w
inline std::string check_scalar(Sc k, const Bytes& w, const J& j) {
    auto in = int_info(k);
    if (in.ok) {
        if (j.k != (in.quoted ? J::str : J::num)) return std::string(sc_name(k)) + ": expected a " + (in.quoted ? "quoted" : "bare") + " number";
        if (j.s != int_text(k, w)) return std::string(sc_name(k)) + ": got " + j.s + " expected " + int_text(k, w);
        return "";
    }
    if (k == Sc::bool_) return j.k == J::boolean && j.b == (w[0] != 0) ? "" : "bool mismatch";
    if (k == Sc::f32 || k == Sc::f64) {
        double d = k == Sc::f32 ? double(f32_of(w)) : f64_of(w);
        if (std::isinf(d) || std::isnan(d)) {
            const char* e = std::isnan(d) ? "NaN" : d > 0 ? "Infinity" : "-Infinity";
            return j.k == J::str && j.s == e ? "" : std::string("float: expected string ") + e;
        }
        if (j.k != J::num) return "float: expected a number";
        double g = strtod(j.s.c_str(), nullptr);
        if (memcmp(&g, &d, 8)) return "float: text " + j.s + " does not denote the value";
        return "";
    }
    if (j.k != J::str) return std::string(sc_name(k)) + ": expected a string";
    std::string e = scalar_text(k, w);
    if (j.s != e) return std::string(sc_name(k)) + ": got " + pbt::quote(j.s) + " expected " + pbt::quote(e);
    return "";
}
// JSON text for the value; `any` allows equivalent spellings
inline std::string scalar_json(Sc k, const Bytes& w, pbt::Source& s, bool any) {
    auto in = int_info(k);
    if (in.ok) {
        std::string t = int_text(k, w);
        bool q = in.quoted;
        if (any && s.chance(1, 3)) q = !q;
        return q ? "\"" + t + "\"" : t;
    }
    if (k == Sc::bool_) return w[0] ? "true" : "false";
    if (k == Sc::f32 || k == Sc::f64) {
        double d = k == Sc::f32 ? double(f32_of(w)) : f64_of(w);
        if (std::isnan(d)) return "\"NaN\"";
        if (std::isinf(d)) return d > 0 ? "\"Infinity\"" : "\"-Infinity\"";
        char b[64];
        int mode = any ? int(s.below(4)) : 0;
        if (mode == 0) snprintf(b, sizeof b, "%.17g", d);
        else if (mode == 1) snprintf(b, sizeof b, "%.16e", d);
        else if (mode == 2 && std::fabs(d) < 1e15 && d == std::floor(d)) snprintf(b, sizeof b, "%.1f", d);
        else snprintf(b, sizeof b, "%.20g", d);
        std::string t = b;
        return any && s.chance(1, 4) ? "\"" + t + "\"" : t;
    }
    std::string t = scalar_text(k, w);
    if (any) {
        if ((k == Sc::f128 || k == Sc::c160 || k == Sc::c256 || k == Sc::c512) && s.flip()) t = hex_any(s, w);
        if (k == Sc::bytes && s.flip()) { size_t p = 0; get_varuint(w, p); t = hex_any(s, w.substr(p)); }
        if ((k == Sc::tps) && s.flip()) t = t.substr(0, 19);
        if (k == Sc::tp && s.flip() && t.substr(19) == ".000") t = t.substr(0, 19);
        if (k == Sc::pub && w[0] == 0 && s.flip()) t = legacy_pub_text(w.substr(1));
        if (k == Sc::asset && s.chance(1, 6)) t = " " + t;
        return json_str_any(s, t);
    }
    return json_str(t);
}

// ---------------------------------------------------------------- types
enum class Suf { none, opt, arr };
struct TR { int def = 0; Suf suf = Suf::none; bool ext = false; };
struct Field { std::string name; TR type; };
struct Def {
    enum K { scalar, struct_, variant, alias, extasset } k = scalar;
    std::string name;
    Sc sc = Sc::bool_;
    int base = -1;       // struct: index of the base struct (or an alias of it)
    std::vector<Field> fields;  // own fields; for extasset both
    std::vector<TR> alts;
    TR target;
};
struct Action { uint64_t name; std::string type; };
struct AbiModel {
    std::vector<Def> defs;
    std::vector<Action> actions, tables;
    std::string version = "eosio::abi/1.1";
    int first_user = 0;

    AbiModel() {
        for (int i = 0; i < int(Sc::COUNT); ++i) { Def d; d.k = Def::scalar; d.sc = Sc(i); d.name = sc_name(Sc(i)); defs.push_back(d); }
        Def e;
        e.k = Def::extasset;
        e.name = "extended_asset";
        e.fields = {{"quantity", {int(Sc::asset)}}, {"contract", {int(Sc::name)}}};
        defs.push_back(e);
        first_user = int(defs.size());
    }
    std::string text(const TR& t) const {
        return defs[t.def].name + (t.suf == Suf::opt ? "?" : t.suf == Suf::arr ? "[]" : "") + (t.ext ? "$" : "");
    }
    TR resolve(TR t) const {
        while (defs[t.def].k == Def::alias) {
            TR n = defs[t.def].target;
            if (t.suf != Suf::none) n.suf = t.suf;
            n.ext = t.ext;
            t = n;
        }
        return t;
    }
    int base_of(int d) const {
        int b = defs[d].base;
        return b < 0 ? -1 : resolve(TR{b}).def;
    }
    std::vector<Field> all_fields(int d) const {
        std::vector<Field> r;
        int b = base_of(d);
        if (b >= 0) r = all_fields(b);
        for (auto& f : defs[d].fields) r.push_back(f);
        return r;
    }
    bool has_ext(int d) const { for (auto& f : all_fields(d)) if (f.type.ext) return true; return false; }
    bool nonempty(TR t) const {
        t = resolve(t);
        if (t.suf != Suf::none) return true;
        auto& d = defs[t.def];
        if (d.k == Def::scalar || d.k == Def::variant || d.k == Def::extasset) return true;
        for (auto& f : all_fields(t.def)) if (!f.type.ext && nonempty(f.type)) return true;
        return false;
    }
};

inline std::string gen_ident(pbt::Source& s, std::set<std::string>& used, const char* stem) {
    std::string n;
    switch (s.below(8)) {
    default: n = std::string(stem) + std::to_string(used.size()); break;
    case 5: n = "eosio::" + std::string(stem) + std::to_string(s.below(1000)); break;
    case 6: n = gen_utf8(s, 12); break;
    case 7: { n = std::string(1, char('a' + s.below(26))); break; }
    }
    while (!n.empty() && (n.back() == '?' || n.back() == ']' || n.back() == '$')) n.pop_back();
    if (n.empty() || n.find('\0') != std::string::npos || used.count(n)) n = std::string(stem) + "_" + std::to_string(used.size());
    while (used.count(n)) n += "x";
    used.insert(n);
    return n;
}

struct AbiOpts { int max_defs = 8; bool extensions = true; bool forward = true; bool wide_variants = true; };

inline AbiModel gen_abi(pbt::Source& s, const AbiOpts& o = {}) {
    AbiModel m;
    int n = 1 + int(s.below(o.max_defs));
    std::set<std::string> used;
    for (auto& d : m.defs) used.insert(d.name);
    int f = m.first_user;
    for (int i = 0; i < n; ++i) {
        Def d;
        static const Def::K ks[] = {Def::struct_, Def::struct_, Def::struct_, Def::variant, Def::alias};
        d.k = ks[s.below(5)];
        d.name = gen_ident(s, used, d.k == Def::struct_ ? "st" : d.k == Def::variant ? "vr" : "al");
        m.defs.push_back(d);
    }
    auto plain_before = [&](int i) -> int {  // any def usable inline by def i
        if (i > f && s.chance(1, 2)) return f + int(s.below(i - f));
        return int(s.below(f));
    };
    auto gen_tr = [&](int i) -> TR {
        TR t;
        t.def = plain_before(i);
        int w = int(s.below(6));
        if (w >= 4) {
            // optional or array; may refer forward (recursion) to structs and variants
            if (o.forward && s.chance(1, 3)) {
                int j = f + int(s.below(n));
                if (m.defs[j].k == Def::struct_ || m.defs[j].k == Def::variant) t.def = j;
            }
            if (t.def >= i || m.resolve(TR{t.def}).suf == Suf::none) t.suf = w == 4 ? Suf::opt : Suf::arr;
        }
        return t;
    };
    for (int i = f; i < f + n; ++i) {
        auto& d = m.defs[i];
        if (d.k == Def::alias) {
            d.target = gen_tr(i);
            if (d.target.def >= i) d.target = TR{int(s.below(f))};
        } else if (d.k == Def::variant) {
            size_t c = 1 + s.below(5);
            if (o.wide_variants && s.chance(1, 25)) c = 126 + s.below(10);
            std::set<std::string> seen;
            for (size_t k = 0; k < c; ++k) {
                TR t = gen_tr(i);
                if (c > 20 && seen.count(m.text(t))) {  // wide: walk systematically
                    for (int q = 0; q < f && seen.count(m.text(t)); ++q)
                        for (Suf z : {Suf::none, Suf::opt, Suf::arr}) { t = TR{q, z}; if (!seen.count(m.text(t))) break; }
                }
                if (seen.insert(m.text(t)).second) d.alts.push_back(t);
            }
        } else {
            std::set<std::string> fn;
            if (s.chance(1, 3)) {
                std::vector<int> cand;
                for (int j = f; j < i; ++j) {
                    TR r = m.resolve(TR{j});
                    if (r.suf == Suf::none && m.defs[r.def].k == Def::struct_) cand.push_back(j);
                }
                if (!cand.empty()) { d.base = cand[s.below(cand.size())]; for (auto& x : m.all_fields(i)) fn.insert(x.name); }
            }
            bool base_ext = d.base >= 0 && m.has_ext(i);
            size_t c = s.below(6);
            if (s.chance(1, 40)) c = 20 + s.below(30);
            bool ext = base_ext;
            for (size_t k = 0; k < c; ++k) {
                Field fl;
                fl.type = gen_tr(i);
                if (o.extensions && !ext && s.chance(1, 8)) ext = true;
                if (ext) {
                    if (fl.type.def >= i && fl.type.suf == Suf::none) fl.type.def = 0;
                    if (!(fl.type.suf != Suf::none || m.nonempty(fl.type))) fl.type = TR{int(s.below(f))};
                    fl.type.ext = true;
                }
                fl.name = gen_ident(s, fn, "f");
                d.fields.push_back(fl);
            }
        }
    }
    if (s.chance(1, 10)) {  // a tower of bases, some named through aliases (the limit is 32 levels)
        std::set<std::string> fn;
        int below = -1;
        size_t levels = 3 + s.below(15);
        bool ext = false;
        for (size_t k = 0; k < levels; ++k) {
            Def d;
            d.k = Def::struct_;
            d.name = gen_ident(s, used, "tw");
            d.base = below;
            for (size_t c = s.below(4); c--;) {
                Field fl;
                fl.type = gen_tr(f + n);
                if (o.extensions && !ext && k > 2 && s.chance(1, 20)) ext = true;
                if (ext) {
                    if (fl.type.suf == Suf::none && !m.nonempty(fl.type)) fl.type = TR{int(s.below(f))};
                    fl.type.ext = true;
                }
                fl.name = gen_ident(s, fn, "f");
                d.fields.push_back(fl);
            }
            below = int(m.defs.size());
            m.defs.push_back(d);
            if (s.chance(1, 4)) {
                Def a;
                a.k = Def::alias;
                a.name = gen_ident(s, used, "ta");
                a.target = TR{below};
                below = int(m.defs.size());
                m.defs.push_back(a);
            }
        }
    }
    return m;
}

// ---------------------------------------------------------------- ABI documents
template <class T> void shuffle(pbt::Source& s, std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) { size_t j = i - 1 - s.below(i); std::swap(v[i - 1], v[j]); }
}
struct AbiDoc {  // plain data of an ABI definition
    std::string version;
    std::vector<std::pair<std::string, std::string>> types;
    struct S { std::string name, base; std::vector<std::pair<std::string, std::string>> fields; };
    std::vector<S> structs;
    struct A { uint64_t name; std::string type, ric; };
    std::vector<A> actions;
    struct T { uint64_t name; std::string index_type; std::vector<std::string> kn, kt; std::string type; };
    std::vector<T> tables;
    std::vector<std::pair<std::string, std::string>> clauses;
    std::vector<std::pair<uint64_t, std::string>> errors;
    std::vector<std::pair<uint16_t, Bytes>> exts;
    std::vector<std::pair<std::string, std::vector<std::string>>> variants;
};
inline AbiDoc make_doc(const AbiModel& m, pbt::Source& s) {
    AbiDoc d;
    d.version = m.version;
    for (size_t i = m.first_user; i < m.defs.size(); ++i) {
        auto& x = m.defs[i];
        if (x.k == Def::alias) d.types.push_back({x.name, m.text(x.target)});
        else if (x.k == Def::struct_) {
            AbiDoc::S st{x.name, x.base >= 0 ? m.defs[x.base].name : "", {}};
            for (auto& f : x.fields) st.fields.push_back({f.name, m.text(f.type)});
            d.structs.push_back(st);
        } else {
            std::vector<std::string> a;
            for (auto& t : x.alts) a.push_back(m.text(t));
            d.variants.push_back({x.name, a});
        }
    }
    shuffle(s, d.types);
    shuffle(s, d.structs);
    shuffle(s, d.variants);
    for (auto& a : m.actions) d.actions.push_back({a.name, a.type, s.chance(1, 4) ? gen_utf8(s, 20) : ""});
    for (auto& t : m.tables) d.tables.push_back({t.name, s.flip() ? "i64" : "", {}, {}, t.type});
    if (s.chance(1, 6)) d.clauses.push_back({gen_utf8(s, 8), gen_utf8(s, 8)});
    if (s.chance(1, 6)) d.errors.push_back({s.u64(), gen_utf8(s, 8)});
    return d;
}
inline std::string doc_json(const AbiDoc& d) {
    auto q = [](const std::string& x) { return json_str(x); };
    auto name = [&](uint64_t n) { return json_str(name_text(n)); };
    auto list = [](const std::vector<std::string>& v) { std::string r = "["; for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + json_str(v[i]); return r + "]"; };
    std::string r = "{\"version\":" + q(d.version) + ",\"types\":[";
    for (size_t i = 0; i < d.types.size(); ++i) r += (i ? "," : "") + ("{\"new_type_name\":" + q(d.types[i].first) + ",\"type\":" + q(d.types[i].second) + "}");
    r += "],\"structs\":[";
    for (size_t i = 0; i < d.structs.size(); ++i) {
        r += (i ? "," : "") + ("{\"name\":" + q(d.structs[i].name) + ",\"base\":" + q(d.structs[i].base) + ",\"fields\":[");
        for (size_t k = 0; k < d.structs[i].fields.size(); ++k)
            r += (k ? "," : "") + ("{\"name\":" + q(d.structs[i].fields[k].first) + ",\"type\":" + q(d.structs[i].fields[k].second) + "}");
        r += "]}";
    }
    r += "],\"actions\":[";
    for (size_t i = 0; i < d.actions.size(); ++i) r += (i ? "," : "") + ("{\"name\":" + name(d.actions[i].name) + ",\"type\":" + q(d.actions[i].type) + ",\"ricardian_contract\":" + q(d.actions[i].ric) + "}");
    r += "],\"tables\":[";
    for (size_t i = 0; i < d.tables.size(); ++i) r += (i ? "," : "") + ("{\"name\":" + name(d.tables[i].name) + ",\"index_type\":" + q(d.tables[i].index_type) + ",\"key_names\":" + list(d.tables[i].kn) + ",\"key_types\":" + list(d.tables[i].kt) + ",\"type\":" + q(d.tables[i].type) + "}");
    r += "],\"ricardian_clauses\":[";
    for (size_t i = 0; i < d.clauses.size(); ++i) r += (i ? "," : "") + ("{\"id\":" + q(d.clauses[i].first) + ",\"body\":" + q(d.clauses[i].second) + "}");
    r += "],\"error_messages\":[";
    for (size_t i = 0; i < d.errors.size(); ++i) r += (i ? "," : "") + ("{\"error_code\":\"" + std::to_string(d.errors[i].first) + "\",\"error_msg\":" + q(d.errors[i].second) + "}");
    r += "],\"abi_extensions\":[],\"variants\":[";
    for (size_t i = 0; i < d.variants.size(); ++i) r += (i ? "," : "") + ("{\"name\":" + q(d.variants[i].first) + ",\"types\":" + list(d.variants[i].second) + "}");
    return r + "]}";
}
inline void put_str(Bytes& b, const std::string& s) { put_varuint(b, s.size()); b += s; }
inline Bytes doc_bin(const AbiDoc& d, bool omit_empty_variants = false) {
    Bytes b;
    put_str(b, d.version);
    put_varuint(b, d.types.size());
    for (auto& t : d.types) { put_str(b, t.first); put_str(b, t.second); }
    put_varuint(b, d.structs.size());
    for (auto& s : d.structs) {
        put_str(b, s.name);
        put_str(b, s.base);
        put_varuint(b, s.fields.size());
        for (auto& f : s.fields) { put_str(b, f.first); put_str(b, f.second); }
    }
    put_varuint(b, d.actions.size());
    for (auto& a : d.actions) { put_le(b, a.name, 8); put_str(b, a.type); put_str(b, a.ric); }
    put_varuint(b, d.tables.size());
    for (auto& t : d.tables) {
        put_le(b, t.name, 8);
        put_str(b, t.index_type);
        put_varuint(b, t.kn.size());
        for (auto& x : t.kn) put_str(b, x);
        put_varuint(b, t.kt.size());
        for (auto& x : t.kt) put_str(b, x);
        put_str(b, t.type);
    }
    put_varuint(b, d.clauses.size());
    for (auto& c : d.clauses) { put_str(b, c.first); put_str(b, c.second); }
    put_varuint(b, d.errors.size());
    for (auto& c : d.errors) { put_le(b, c.first, 8); put_str(b, c.second); }
    put_varuint(b, d.exts.size());
    for (auto& c : d.exts) { put_le(b, c.first, 2); put_str(b, c.second); }
    if (omit_empty_variants && d.variants.empty()) return b;
    put_varuint(b, d.variants.size());
    for (auto& v : d.variants) {
        put_str(b, v.first);
        put_varuint(b, v.second.size());
        for (auto& x : v.second) put_str(b, x);
    }
    return b;
}

// ---------------------------------------------------------------- values
struct Val {
    TR t;                // resolved type (ext flag dropped)
    Bytes wire;          // scalar
    bool present = true; // optional
    int alt = 0;         // variant
    std::vector<Val> kids;
    int omitted = 0;     // struct: number of omitted trailing extension fields
};
struct GenVal {
    const AbiModel& m;
    pbt::Source& s;
    int budget = 60;
    int max_depth = 7;
    bool omit_ext = true;
    // statistics of the generated value
    int depth_seen = 0, nodes = 0, n_opt = 0, n_arr = 0, n_var = 0, n_struct = 0, n_ext_omitted = 0, n_ext_present = 0, max_arr = 0, n_base = 0;

    Val gen(TR t, int depth, bool allow) {
        t = m.resolve(t);
        t.ext = false;
        Val v;
        v.t = t;
        ++nodes;
        --budget;
        if (depth > depth_seen) depth_seen = depth;
        bool tight = depth >= max_depth || budget <= 0;
        if (t.suf == Suf::opt) {
            ++n_opt;
            v.present = !tight && !s.chance(1, 3);
            if (v.present) v.kids.push_back(gen(TR{t.def}, depth + 1, allow));
            return v;
        }
        if (t.suf == Suf::arr) {
            ++n_arr;
            size_t n = tight ? 0 : s.size(m.defs[m.resolve(TR{t.def}).def].k == Def::scalar ? 300 : 300);
            bool sc = m.defs[m.resolve(TR{t.def}).def].k == Def::scalar;
            if (!sc && n > 12 && !s.chance(1, 6)) n = 12;
            if (n > size_t(max_arr)) max_arr = int(n);
            int save = max_depth;
            if (n > 12) max_depth = std::min(max_depth, depth + 2);  // long arrays keep shallow elements
            for (size_t i = 0; i < n; ++i) v.kids.push_back(gen(TR{t.def}, depth + 1, false));
            max_depth = save;
            return v;
        }
        auto& d = m.defs[t.def];
        switch (d.k) {
        case Def::scalar: v.wire = gen_scalar(d.sc, s); break;
        case Def::variant: {
            ++n_var;
            if (d.alts.empty()) throw pbt::Discard{};
            v.alt = int(s.below(d.alts.size()));
            v.kids.push_back(gen(d.alts[v.alt], depth + 1, allow));
            break;
        }
        default: {
            ++n_struct;
            if (d.base >= 0) ++n_base;
            auto fs = m.all_fields(t.def);
            int ex = 0;
            for (int i = int(fs.size()) - 1; i >= 0 && fs[i].type.ext; --i) ++ex;
            if (allow && omit_ext && ex) v.omitted = int(s.below(ex + 1));
            size_t n = fs.size() - v.omitted;
            n_ext_omitted += v.omitted;
            n_ext_present += ex - v.omitted;
            for (size_t i = 0; i < n; ++i) v.kids.push_back(gen(fs[i].type, depth + 1, allow && i + 1 == fs.size()));
        }
        }
        return v;
    }
};
inline void encode(const AbiModel& m, const Val& v, Bytes& b) {
    if (v.t.suf == Suf::opt) { b += char(v.present); if (v.present) encode(m, v.kids[0], b); return; }
    if (v.t.suf == Suf::arr) { put_varuint(b, v.kids.size()); for (auto& k : v.kids) encode(m, k, b); return; }
    auto& d = m.defs[v.t.def];
    if (d.k == Def::scalar) { b += v.wire; return; }
    if (d.k == Def::variant) put_varuint(b, v.alt);
    for (auto& k : v.kids) encode(m, k, b);
}
inline std::string check_json(const AbiModel& m, const Val& v, const J& j, const std::string& path) {
    if (v.t.suf == Suf::opt) {
        if (!v.present) return j.k == J::null ? "" : path + ": expected null";
        return check_json(m, v.kids[0], j, path + "?");
    }
    if (v.t.suf == Suf::arr) {
        if (j.k != J::arr) return path + ": expected an array";
        if (j.a.size() != v.kids.size()) return path + ": array has " + std::to_string(j.a.size()) + " elements, expected " + std::to_string(v.kids.size());
        for (size_t i = 0; i < v.kids.size(); ++i) {
            auto e = check_json(m, v.kids[i], j.a[i], path + "[" + std::to_string(i) + "]");
            if (!e.empty()) return e;
        }
        return "";
    }
    auto& d = m.defs[v.t.def];
    if (d.k == Def::scalar) {
        auto e = check_scalar(d.sc, v.wire, j);
        return e.empty() ? e : path + ": " + e;
    }
    if (d.k == Def::variant) {
        if (j.k != J::arr || j.a.size() != 2) return path + ": expected [type, value]";
        if (j.a[0].k != J::str || j.a[0].s != m.text(d.alts[v.alt])) return path + ": variant tag mismatch, expected " + m.text(d.alts[v.alt]);
        return check_json(m, v.kids[0], j.a[1], path + "<" + j.a[0].s + ">");
    }
    if (j.k != J::obj) return path + ": expected an object";
    auto fs = m.all_fields(v.t.def);
    if (j.o.size() != v.kids.size()) return path + ": object has " + std::to_string(j.o.size()) + " members, expected " + std::to_string(v.kids.size());
    for (size_t i = 0; i < v.kids.size(); ++i) {
        if (j.o[i].first != utf8_sanitize(fs[i].name)) return path + ": member " + j.o[i].first + ", expected " + fs[i].name;
        auto e = check_json(m, v.kids[i], j.o[i].second, path + "." + fs[i].name);
        if (!e.empty()) return e;
    }
    return "";
}
struct JsonOpts { bool any = true; bool reorder = false; bool unknown = false; bool dups = false; };
inline std::string gen_junk(pbt::Source& s, int d = 0) {
    switch (s.below(d > 2 ? 5 : 7)) {
    case 0: return "null";
    case 1: return "true";
    case 2: return std::to_string(s.range(-5, 300));
    case 3: return json_str(gen_utf8(s, 6));
    case 4: return "1.5e3";
    case 5: { std::string r = "["; size_t n = s.below(3); for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + gen_junk(s, d + 1); return r + "]"; }
    default: { std::string r = "{"; size_t n = s.below(3); for (size_t i = 0; i < n; ++i) r += (i ? "," : "") + ("\"k" + std::to_string(i) + "\":" + gen_junk(s, d + 1)); return r + "}"; }
    }
}
inline void write_json(const AbiModel& m, const Val& v, pbt::Source& s, const JsonOpts& o, std::string& r) {
    auto ws = [&] { if (o.any) r += gen_ws(s); };
    if (v.t.suf == Suf::opt) {
        if (!v.present) r += "null";
        else write_json(m, v.kids[0], s, o, r);
        return;
    }
    if (v.t.suf == Suf::arr) {
        r += '[';
        ws();
        for (size_t i = 0; i < v.kids.size(); ++i) { if (i) { r += ','; ws(); } write_json(m, v.kids[i], s, o, r); ws(); }
        r += ']';
        return;
    }
    auto& d = m.defs[v.t.def];
    if (d.k == Def::scalar) { r += scalar_json(d.sc, v.wire, s, o.any); return; }
    if (d.k == Def::variant) {
        r += '[';
        ws();
        r += o.any ? json_str_any(s, m.text(d.alts[v.alt])) : json_str(m.text(d.alts[v.alt]));
        ws();
        r += ',';
        ws();
        write_json(m, v.kids[0], s, o, r);
        ws();
        r += ']';
        return;
    }
    auto fs = m.all_fields(v.t.def);
    std::vector<std::string> mem;
    std::set<std::string> names;
    for (auto& f : fs) names.insert(f.name);
    for (size_t i = 0; i < v.kids.size(); ++i) {
        std::string x = o.any ? json_str_any(s, fs[i].name) : json_str(fs[i].name);
        if (o.any) x += gen_ws(s);
        x += ':';
        if (o.any) x += gen_ws(s);
        write_json(m, v.kids[i], s, o, x);
        mem.push_back(x);
    }
    if (o.reorder) shuffle(s, mem);
    if (o.unknown && s.chance(1, 3)) {
        std::string k = "zz_unknown" + std::to_string(s.below(100));
        if (!names.count(k)) mem.insert(mem.begin() + s.below(mem.size() + 1), json_str(k) + ":" + gen_junk(s));
    }
    r += '{';
    ws();
    for (size_t i = 0; i < mem.size(); ++i) { if (i) { r += ','; ws(); } r += mem[i]; ws(); }
    r += '}';
}
// pick a type expression that names something in the ABI (possibly with a suffix)
inline TR gen_root(const AbiModel& m, pbt::Source& s) {
    int n = int(m.defs.size()) - m.first_user;
    TR t;
    t.def = s.chance(1, 10) ? int(s.below(m.first_user)) : m.first_user + n - 1 - int(s.below(n));
    if (s.chance(1, 6) && m.resolve(t).suf == Suf::none) t.suf = s.flip() ? Suf::opt : Suf::arr;
    return t;
}
// ---------------------------------------------------------------- reference decoder
struct Dec {
    const AbiModel& m;
    std::string_view b;
    size_t pos = 0;
    int budget = 200000;
    bool varuint(uint64_t& v) {
        v = 0;
        for (int sh = 0; sh < 35; sh += 7) {
            if (pos >= b.size()) return false;
            uint8_t c = b[pos++];
            v |= uint64_t(c & 127) << sh;
            if (!(c & 128)) { v = uint32_t(v); return true; }
        }
        return false;
    }
    bool take(size_t n) { if (b.size() - pos < n) return false; pos += n; return true; }
    bool str() { uint64_t n; return varuint(n) && take(n); }
    bool scalar(Sc k) {
        uint64_t v;
        auto in = int_info(k);
        if (k == Sc::vi32 || k == Sc::vu32) return varuint(v);
        if (in.ok) return take(in.bits / 8);
        switch (k) {
        case Sc::bool_: return take(1);
        case Sc::f32: case Sc::tps: case Sc::bts: return take(4);
        case Sc::f64: case Sc::tp: case Sc::name: case Sc::symbol: case Sc::symcode: return take(8);
        case Sc::f128: case Sc::asset: return take(16);
        case Sc::c160: return take(20);
        case Sc::c256: return take(32);
        case Sc::c512: return take(64);
        case Sc::bytes: case Sc::string: return str();
        case Sc::pvt: return varuint(v) && v < 2 && take(32);
        case Sc::pub: return varuint(v) && v < 3 && take(33) && (v < 2 || (take(1) && str()));
        case Sc::sig: return varuint(v) && v < 3 && take(65) && (v < 2 || (str() && str()));
        default: return false;
        }
    }
    bool get(TR t, bool allow, Val& v, int depth = 0) {
        if (--budget < 0 || depth > 100) throw pbt::Discard{};
        t = m.resolve(t);
        t.ext = false;
        v.t = t;
        if (t.suf == Suf::opt) {
            if (!take(1)) return false;
            v.present = b[pos - 1] != 0;
            if (!v.present) return true;
            v.kids.emplace_back();
            return get(TR{t.def}, allow, v.kids[0], depth + 1);
        }
        if (t.suf == Suf::arr) {
            uint64_t n;
            if (!varuint(n)) return false;
            for (uint64_t i = 0; i < n; ++i) { v.kids.emplace_back(); if (!get(TR{t.def}, false, v.kids.back(), depth + 1)) return false; }
            return true;
        }
        auto& d = m.defs[t.def];
        if (d.k == Def::scalar) {
            size_t p = pos;
            if (!scalar(d.sc)) return false;
            v.wire = Bytes(b.substr(p, pos - p));
            return true;
        }
        if (d.k == Def::variant) {
            uint64_t n;
            if (!varuint(n) || n >= d.alts.size()) return false;
            v.alt = int(n);
            v.kids.emplace_back();
            return get(d.alts[n], allow, v.kids[0], depth + 1);
        }
        auto fs = m.all_fields(t.def);
        for (size_t i = 0; i < fs.size(); ++i) {
            if (fs[i].type.ext && allow && pos == b.size()) { ++v.omitted; continue; }
            if (v.omitted) return false;  // even if it takes no bytes
            v.kids.emplace_back();
            if (!get(fs[i].type, allow && i + 1 == fs.size(), v.kids.back(), depth + 1)) return false;
        }
        return true;
    }
};
// accepted exactly when the whole input is one encoding
inline bool ref_accepts(const AbiModel& m, TR t, std::string_view b, Val& v) {
    Dec d{m, b};
    return d.get(t, true, v) && d.pos == b.size();
}
// text of one of the formats, mostly with a byte or two that do not belong there
inline std::string gen_foreign_text(pbt::Source& s, int& kind) {
    kind = int(s.below(8));
    auto code = [&] { std::string r; for (size_t n = 1 + s.below(8); n; --n) r += char('A' + s.below(26)); return r; };
    auto num = [&](size_t n) { std::string r; for (n = 1 + s.below(n); n; --n) r += char('0' + s.below(10)); return r; };
    std::string t;
    switch (kind) {
    case 0: t = name_text(gen_name(s)); break;
    case 1: t = code(); break;
    case 2: t = num(2) + "," + code(); break;
    case 3: case 4: t = (s.chance(1, 3) ? "-" : "") + num(8) + (s.chance(3, 4) ? "." + num(6) : "") + " " + code(); break;
    case 5: { char b[40]; snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", 1970 + int(s.below(136)), 1 + int(s.below(12)), 1 + int(s.below(28)), int(s.below(24)), int(s.below(60)), int(s.below(60))); t = b; if (s.flip()) t += "." + num(3); break; }
    case 6: { auto k = KeyKind(s.below(3)); t = key_text(k, gen_key(s, k)); break; }
    default: t = num(20); break;
    }
    if (s.chance(5, 6)) for (size_t n = 1 + s.below(2); n; --n) if (t.size()) {
        unsigned char b = s.chance(1, 4) ? ",.Ii_ '-:TZ\t\n\v\f\r"[s.below(16)] : uint8_t(128 + s.below(128));
        size_t at = s.below(t.size() + 1);
        if (at < t.size() && s.flip()) t[at] = char(b); else t.insert(at, 1, char(b));
    }
    return t;
}
}  // namespace ref

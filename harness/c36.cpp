// The same calls in several builds of the library: other compilers, optimisation, language standard, signedness of
// char, contents of uninitialised memory.
#include "c36.hpp"
#include "hist.hpp"
#include "native_types.hpp"
#include <dlfcn.h>
using namespace hist;

namespace {
struct Build { std::string name; const Probe* p; };
const std::vector<Build>& builds() {
    static std::vector<Build> b = [] {
        std::vector<Build> r;
        std::string list = getenv("VERIF_BUILDS") ? getenv("VERIF_BUILDS") : "";
        for (size_t at = 0; at < list.size();) {
            size_t e = std::min(list.find(':', at), list.size());
            std::string f = list.substr(at, e - at);
            at = e + 1;
            void* h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
            auto* p = h ? static_cast<const Probe*>(dlsym(h, "verif_probe")) : nullptr;
            if (!p) { fprintf(stderr, "%s: %s\n", f.c_str(), dlerror()); abort(); }
            std::string n = f.substr(f.rfind('/') + 1);
            r.push_back({n.substr(0, n.rfind('.')), p});
        }
        if (r.size() < 2) { fprintf(stderr, "fewer than two builds\n"); abort(); }
        return r;
    }();
    return b;
}
using Strings = std::vector<std::string>;
void put(void* to, const char* p, size_t n) { static_cast<Strings*>(to)->emplace_back(p, n); }
// f(probe, results) in each build, new memory filled with another byte each time
template <class F> Strings same(pbt::Case& c, F&& f) {
    std::vector<Strings> r;
    auto& bs = builds();
    static const int fills[] = {0, 0xff, 0x5a, 0x01, 0x80, 0x2f};
    for (size_t i = 0; i < bs.size(); ++i) {
        r.emplace_back();
        r.back().reserve(64);
        pbt::mem_fill(fills[i % 6]);
        f(*bs[i].p, r.back());
        pbt::mem_fill(-1);
    }
    for (size_t i = 1; i < bs.size(); ++i) {
        if (r[i].size() != r[0].size()) c.fail("calls", bs[i].name + " gives " + std::to_string(r[i].size()) + " results instead of " + std::to_string(r[0].size()));
        for (size_t k = 0; k < r[0].size(); ++k)
            if (r[i][k] != r[0][k]) c.fail("builds-differ", "result " + std::to_string(k) + " is " + pbt::quote(r[i][k]) + " in " + bs[i].name + " and " + pbt::quote(r[0][k]) + " in " + bs[0].name);
    }
    return r[0];
}
template <class T> Bytes wire(pbt::Source& s) {
    nat::G g(s);
    g.json = s.chance(3, 4);
    T v{};
    nat::gen(g, v);
    return nat::wire(v);
}
struct Type { const char* name; Bytes (*wire)(pbt::Source&); };
using namespace nat;
#define ENTRY(...) {#__VA_ARGS__, wire<__VA_ARGS__>},
const Type types_[] = {C36_TYPES(ENTRY)};
#define BIN_ENTRY(...) {#__VA_ARGS__, wire<__VA_ARGS__>},
const Type bin_types_[] = {C36_BIN_TYPES(BIN_ENTRY)};
std::string edited(pbt::Source& s, std::string t, bool json) {
    for (size_t n = 1 + s.below(2); n; --n) {
        size_t at = s.below(t.size() + 1);
        char ch = json && s.flip() ? "\",:{}[]-.0e9nN\\ Az"[s.below(18)] : char(s.byte());
        switch (s.below(4)) {
        case 0: t.resize(at); break;
        case 1: t.insert(at, 1, ch); break;
        case 2: if (at < t.size()) t.erase(at, 1 + s.below(3)); break;
        default: if (at < t.size()) t[at] = ch; break;
        }
    }
    return t;
}
}  // namespace

PROP(texts, 4) {
    auto& s = c.s;
    int kind;
    std::string t = gen_foreign_text(s, kind);
    c.key(t);
    if (t.size() > 1) c.nontrivial();
    c.note("text", [&] { return pbt::quote(t); });
    static const char* const kinds[] = {"name", "symbol code", "symbol", "asset", "asset", "time", "key", "number"};
    c.label(kinds[kind]);
    same(c, [&](const Probe& p, Strings& r) { p.text(t.data(), t.size(), put, &r); });
}
PROP(values, 6) {
    auto& s = c.s;
    int k = int(s.below(std::size(types_)));
    c.label(types_[k].name);
    Bytes w = types_[k].wire(s);
    c.key(types_[k].name);
    c.key(w);
    if (w.size() > 1) c.nontrivial();
    c.note("type", [&] { return std::string(types_[k].name); });
    c.note("wire", [&] { return pbt::hexs(w); });
    auto r = same(c, [&](const Probe& p, Strings& r) { p.native(k, 0, w.data(), w.size(), put, &r); });
    Bytes d = edited(s, w, false);
    c.note("edited", [&] { return pbt::hexs(d); });
    same(c, [&](const Probe& p, Strings& r) { p.native(k, 0, d.data(), d.size(), put, &r); });
    if (r.size() == 4) {
        std::string j = r[2];
        same(c, [&](const Probe& p, Strings& r) { p.native(k, 1, j.data(), j.size(), put, &r); });
        std::string e = edited(s, j, true);
        c.note("edited json", [&] { return pbt::quote(e); });
        same(c, [&](const Probe& p, Strings& r) { p.native(k, 1, e.data(), e.size(), put, &r); });
    }
}
PROP(binary, 4) {
    auto& s = c.s;
    int k = int(s.below(std::size(bin_types_)));
    c.label(bin_types_[k].name);
    Bytes w = bin_types_[k].wire(s);
    c.key(bin_types_[k].name);
    c.key(w);
    if (w.size() > 1) c.nontrivial();
    c.note("type", [&] { return std::string(bin_types_[k].name); });
    c.note("wire", [&] { return pbt::hexs(w); });
    same(c, [&](const Probe& p, Strings& r) { p.binary(k, w.data(), w.size(), put, &r); });
    Bytes d = edited(s, w, false);
    c.note("edited", [&] { return pbt::hexs(d); });
    same(c, [&](const Probe& p, Strings& r) { p.binary(k, d.data(), d.size(), put, &r); });
}
PROP(calls, 6) {
    Pool p = gen_pool(c, true);
    for (auto& x : p.samples) {
        if (c.s.chance(1, 4)) x.json = edited(c.s, x.json, true);
        if (c.s.chance(1, 4)) x.wire = edited(c.s, x.wire, false);
    }
    History h = gen_history(c.s, p);
    for (auto& o : h) if (o.kind <= set_hex && c.s.chance(1, 4)) { o.arg = edited(c.s, o.arg, o.kind != set_bin); o.n = CONTRACT + 999; }  // not converted with
    c.nontrivial();
    c.note("calls", [&] { return hist::text(h); });
    same(c, [&](const Probe& b, Strings& r) {
        void* x = nullptr;
        for (auto& o : h) b.call(&x, o.kind, o.n, o.type.data(), o.type.size(), o.arg.data(), o.arg.size(), put, &r);
        b.drop(x);
    });
}

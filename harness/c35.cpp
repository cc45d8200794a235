// Results do not depend on the process environment: locale, time zone, leftover errno.
#include "hist.hpp"
#include "native_types.hpp"
#include "textfn.hpp"
#include <cerrno>
#include <clocale>
#include <ctime>
#include <locale>
#include <strings.h>
using namespace hist;

namespace {
// locales compiled for the check (see checks.py); an environment without them has the two last only
const char* const loc_names[] = {"vf_de.UTF-8", "vf_de", "vf_ps.UTF-8", "vf_tr", "vf_tr.UTF-8", "vf_fr.UTF-8", "vf_ch.UTF-8", "vf_gbk", "vf_sjis", "vf_et", "vf_ru", "vf_hu", "vf_ru8"};
const char* const zones[] = {"UTC", "VRF+7:43VRD", "AAA-13:30", "BBB+11:59:59CCC,J60/0,J300", ":/nonexistent"};
const int errnos[] = {0, ERANGE, EINVAL, EDOM, 9999};
struct Punct : std::numpunct<char> {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '_'; }
    std::string do_grouping() const override { return "\1\2"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
};
struct Fold : std::ctype<char> {  // letters are not what they were
    mask t[table_size];
    Fold() : std::ctype<char>(t) { for (size_t i = 0; i < table_size; ++i) t[i] = i >= 128 ? alpha | lower | print : i == '.' || i == '5' ? space : print; }
    char do_tolower(char x) const override { return x == 'I' ? 'i' + 1 : x; }
    char do_toupper(char x) const override { return x == 'i' ? 'I' + 1 : x; }
};
struct Env {
    int how, loc, tz, err;  // how: 0 nothing, 1 setlocale, 2 uselocale, 3 C++ global locale by name, 4 C++ global locale with other punctuation and classes
    std::string text() const {
        static const char* const h[] = {"no locale", "setlocale", "uselocale", "std::locale::global", "std::locale::global with facets"};
        return std::string(h[how]) + " " + (how == 4 || !how ? "" : loc_names[loc]) + " TZ=" + zones[tz] + " errno=" + std::to_string(err);
    }
};
locale_t opened(int i) {
    static locale_t l[std::size(loc_names)];
    if (!l[i]) l[i] = newlocale(LC_ALL_MASK, loc_names[i], nullptr);
    return l[i];
}
struct Within {
    Env e;
    locale_t old{};
    std::locale before;
    std::string was, tz;
    bool ok = true;
    Within(const Env& e) : e(e) {
        setenv("TZ", zones[e.tz], 1);
        tzset();
        switch (e.how) {
        case 1: ok = setlocale(LC_ALL, loc_names[e.loc]); break;
        case 2: if (auto l = opened(e.loc)) old = uselocale(l); else ok = false; break;
        case 3: try { std::locale::global(std::locale(loc_names[e.loc])); } catch (std::runtime_error&) { ok = false; } break;
        case 4: std::locale::global(std::locale(std::locale(std::locale::classic(), new Punct), new Fold)); break;
        default: break;
        }
        was = setlocale(LC_ALL, nullptr);
        before = std::locale();
        tz = getenv("TZ");
    }
    // what a call must leave alone
    std::string changed() {
        if (was != setlocale(LC_ALL, nullptr)) return "the locale is now " + std::string(setlocale(LC_ALL, nullptr));
        if (e.how == 2 && ok && uselocale(nullptr) != opened(e.loc)) return "the thread's locale was replaced";
        if (!(before == std::locale())) return "the C++ global locale was replaced";
        const char* t = getenv("TZ");
        if (!t || tz != t) return "TZ was changed";
        return "";
    }
    ~Within() {
        if (old) uselocale(old);
        std::locale::global(std::locale::classic());
        setlocale(LC_ALL, "C");
        setenv("TZ", "UTC", 1);
        tzset();
    }
};
Env gen_env(pbt::Case& c) {
    auto& s = c.s;
    Env e;
    static const int hows[] = {1, 1, 1, 1, 2, 2, 3, 4, 0};
    e.how = hows[s.below(9)];
    e.loc = int(s.chance(1, 3) ? s.below(3) : s.below(std::size(loc_names)));
    e.tz = int(s.below(std::size(zones)));
    e.err = errnos[s.below(std::size(errnos))];
    static const char* const l[] = {"C locale", "setlocale", "uselocale", "C++ locale", "C++ facets"};
    c.label(l[e.how]);
    c.note("environment", [&] { return e.text(); });
    return e;
}
// the same calls in the ordinary environment and in that one, in either order
template <class F> void same(pbt::Case& c, const Env& e, F&& f) {
    std::vector<std::string> plain, other;
    std::string ch;
    bool ok = true, first = c.s.flip();
    auto there = [&] {
        Within w(e);
        ok = w.ok;
        if (!ok) return;
        other = f(e.err);
        ch = w.changed();
    };
    if (first) there();
    plain = f(0);
    if (!first) there();
    if (!ok) { c.label("locale not available"); return; }
    if (!ch.empty()) c.fail("environment-changed", ch + " (" + e.text() + ")");
    for (size_t i = 0; i < plain.size(); ++i)
        if (plain[i] != other[i]) c.fail("depends", "call " + std::to_string(i) + " gives " + pbt::quote(other[i]) + " instead of " + pbt::quote(plain[i]) + " under " + e.text());
}
// spellings of a number, in several conventions
std::string number(pbt::Source& s, bool& comma) {
    auto digits = [&](size_t n) { std::string r; while (n--) r += char('0' + s.below(10)); return r; };
    static const char* const points[] = {".", ".", ".", ".", ",", ",", "\xd9\xab", "\xc2\xb7", "'", "\xe2\x80\x99"};
    static const char* const groups[] = {",", ".", "_", " ", "\xc2\xa0", "\xe2\x80\xaf", "\xd9\xac", "\xa0", "'"};
    std::string r = s.chance(1, 4) ? "-" : "";
    comma = false;
    if (s.chance(1, 10)) {
        static const char* const odd[] = {"inf", "INF", "nan", "infinity", "INFINITY", "0x1.8p3", "0x1,8p3", "NaN", "Inf", "\xc4\xb1nf", "0X1P-3", "1.5E+300", "1e-310", "4.9e-324", "1e-46", "1e400", "+1.5", " 1.5", "1.5 "};
        return r + odd[s.below(std::size(odd))];
    }
    std::string whole = digits(1 + s.below(s.chance(1, 4) ? 18 : 4));
    bool dot = false;
    if (s.chance(1, 8)) { const char* g = groups[s.below(std::size(groups))]; whole += g + digits(3); if (*g == '.') dot = true; else comma = true; }
    r += whole;
    if (s.chance(5, 6)) {
        const char* p = points[s.below(std::size(points))];
        if (*p != '.' || dot) comma = true;
        r += p + digits(1 + s.below(s.chance(1, 4) ? 20 : 4));
    }
    if (s.chance(1, 4)) r += (s.flip() ? "e" : "E") + std::string(s.flip() ? "-" : s.flip() ? "+" : "") + std::to_string(s.below(s.chance(1, 5) ? 400 : 30));
    return r;
}
struct Entry { const char* name; void (*fn)(pbt::Case&); };
template <class T> void native(pbt::Case& c) {
    auto& s = c.s;
    nat::G g(s);
    g.json = true;
    T v{};
    nat::gen(g, v);
    Bytes w = nat::wire(v);
    c.key(w);
    if (w.size() > 1) c.nontrivial();
    c.note("wire", [&] { return pbt::hexs(w); });
    std::string text = eosio::convert_to_json(v), bad = text;
    if (s.flip()) for (size_t n = 1 + s.below(2); n; --n) if (bad.size()) {
        static const char with[] = ",.Ii_ '-:TZ\xc4\xb1\xa0" "05aA";
        size_t at = s.below(bad.size());
        if (s.flip()) bad[at] = with[s.below(sizeof with - 1)]; else bad.insert(at, 1, with[s.below(sizeof with - 1)]);
    }
    c.note("json", [&] { return text; });
    c.note("edited", [&] { return bad; });
    same(c, gen_env(c), [&](int err) {
        std::vector<std::string> r;
        errno = err;
        r.push_back(eosio::convert_to_json(v));
        errno = err;
        r.push_back(nat::str(eosio::convert_to_bin(v)));
        for (auto* t : {&text, &bad}) {
            T x{};
            std::string e;
            errno = err;
            bool ok = nat::read_json(x, *t, &e);
            r.push_back(ok ? "accepted " + nat::wire(x) : "rejected: " + e);
        }
        return r;
    });
}
#define ENTRY(...) {#__VA_ARGS__, native<__VA_ARGS__>},
using namespace nat;
const Entry table_[] = {ENTRY(double) ENTRY(float) ENTRY(nt::flo) ENTRY(eosio::asset) ENTRY(eosio::time_point) ENTRY(eosio::time_point_sec) ENTRY(eosio::block_timestamp) ENTRY(eosio::float128)
    ENTRY(eosio::name) ENTRY(eosio::symbol) ENTRY(eosio::extended_asset) ENTRY(int64_t) ENTRY(uint32_t) ENTRY(unsigned __int128) ENTRY(__int128) ENTRY(bool) ENTRY(eosio::public_key) ENTRY(eosio::private_key) ENTRY(eosio::signature)
    ENTRY(std::string) ENTRY(eosio::bytes) ENTRY(eosio::checksum256) ENTRY(nt::mixed) ENTRY(nt::chain) ENTRY(nt::money)};
}  // namespace

PROP(numbers, 4) {
    auto& s = c.s;
    bool foreign;
    std::string t = number(s, foreign);
    c.key(t);
    if (t.find_first_not_of("0123456789-") != std::string::npos) c.nontrivial();
    if (foreign) c.label("foreign punctuation");
    c.note("number", [&] { return t; });
    std::string quoted = "\"" + t + "\"";
    Env e = gen_env(c);
    static Ctx* ctx = [] { auto* x = new Ctx; x->set_abi(CONTRACT, "{\"version\":\"eosio::abi/1.1\"}"); return x; }();
    same(c, e, [&](int err) {
        std::vector<std::string> r;
        for (auto& text : {quoted, t}) {
            double d = 7;
            float f = 7;
            std::string m;
            errno = err;
            bool o1 = nat::read_json(d, text, &m);
            r.push_back(o1 ? pbt::hexs(&d, 8) : m);
            errno = err;
            bool o2 = nat::read_json(f, text, &m);
            r.push_back(o2 ? pbt::hexs(&f, 4) : m);
            if (foreign && (o1 || o2)) c.fail("foreign", text + " was read as a number in " + (o1 ? std::to_string(d) : std::to_string(f)));
            for (auto type : {"float64", "float32"}) {
                std::string b;
                errno = err;
                bool o = ctx->j2b(CONTRACT, type, text, false, b);
                r.push_back(o ? pbt::hexs(b) : ctx->error());
                if (!o) continue;
                std::string j;
                errno = err;
                r.push_back(ctx->b2j(CONTRACT, type, b, j) ? j : ctx->error());
            }
        }
        return r;
    });
}
PROP(types, 4) {
    auto& e = table_[c.s.below(std::size(table_))];
    c.key(e.name);
    c.label(e.name);
    c.note("type", [&] { return std::string(e.name); });
    e.fn(c);
}
// the text functions on text of their kind with foreign bytes in it
PROP(texts, 5) {
    auto& s = c.s;
    int kind;
    std::string t = gen_foreign_text(s, kind);
    static const char* const kinds[] = {"name", "symbol code", "symbol", "asset", "asset", "time", "key", "number"};
    c.label(kinds[kind]);
    c.key(t);
    if (t.size() > 1) c.nontrivial();
    c.note("text", [&] { return pbt::quote(t); });
    same(c, gen_env(c), [&](int err) {
        return text_functions(t, err);
    });
}
PROP(calls, 5) {
    Pool p = gen_pool(c);
    History h = gen_history(c.s, p);
    c.nontrivial();
    c.note("calls", [&] { return hist::text(h); });
    Env e = gen_env(c);
    same(c, e, [&](int err) {
        std::vector<std::string> r;
        abieos_context* x = abieos_create();
        for (auto& o : h) { errno = err; r.push_back(call(x, o)); }
        abieos_destroy(x);
        return r;
    });
}

// Work and memory of a call grow in proportion to its input. Work is counted, not timed: branches executed in the
// library (compiled with coverage callbacks) plus bytes handled by the memory and string functions of libc.
#include "capi.hpp"
#include "native_types.hpp"
using namespace ref;

namespace work {
static bool on = false;
static uint64_t steps = 0, moved = 0;
}  // namespace work
#if defined(__clang__)
#define RAW __attribute__((no_sanitize("coverage"), noinline))
#else
#define RAW __attribute__((no_sanitize_coverage, noinline))
#endif
extern "C" {
RAW void __sanitizer_cov_trace_pc() { if (work::on) ++work::steps; }
RAW void* memcpy(void* d, const void* s, size_t n) {
    if (work::on) work::moved += n;
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
RAW void* memmove(void* d, const void* s, size_t n) {
    if (work::on) work::moved += n;
    void* r = d;
    if ((char*)d <= (const char*)s || (char*)d >= (const char*)s + n) asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    else {
        char* a = (char*)d + n - 1;
        const char* b = (const char*)s + n - 1;
        asm volatile("std\n\trep movsb\n\tcld" : "+D"(a), "+S"(b), "+c"(n) : : "memory");
    }
    return r;
}
RAW void* memset(void* d, int v, size_t n) {
    if (work::on) work::moved += n;
    void* r = d;
    asm volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(v) : "memory");
    return r;
}
RAW int memcmp(const void* a, const void* b, size_t n) {
    auto *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    size_t i = 0;
    while (i < n && x[i] == y[i]) ++i;
    if (work::on) work::moved += i;
    return i == n ? 0 : int(x[i]) - int(y[i]);
}
RAW size_t strlen(const char* s) {
    size_t i = 0;
    while (s[i]) ++i;
    if (work::on) work::moved += i;
    return i;
}
void* raw_memchr(const void* a, int v, size_t n) asm("memchr");
RAW void* raw_memchr(const void* a, int v, size_t n) {
    auto* x = (const unsigned char*)a;
    size_t i = 0;
    while (i < n && x[i] != (unsigned char)v) ++i;
    if (work::on) work::moved += i;
    return i == n ? nullptr : (void*)(x + i);
}
}

namespace {
struct Cost { uint64_t work, peak; };
using Run = std::function<void()>;
Cost measure(const Run& f) {
    work::steps = work::moved = 0;
    pbt::mem_reset();
    work::on = true;
    try { f(); } catch (...) { work::on = false; pbt::mem_peak(); throw; }
    work::on = false;
    uint64_t peak = pbt::mem_peak();
    return {work::steps + work::moved / 16, peak};
}
// The same at three sizes, each four times the one before. For cost proportional to size each increment is four times
// the one before; sixteen times when it grows with the square. make(n) prepares, the returned function is measured.
void grows(pbt::Case& c, const char* what, size_t n, const std::function<Run(size_t)>& make, bool steady = false) {
    c.label(what);
    c.key(what);
    c.key(std::to_string(n));
    c.nontrivial();
    Cost k[3];
    make(n)();  // what is done once only
    for (int i = 0; i < 3; ++i) {
        Run f = make(n << 2 * i);
        k[i] = measure(f);
    }
    c.note(what, [&] {
        std::string r = "n=" + std::to_string(n);
        for (auto& x : k) r += " work " + std::to_string(x.work) + " peak " + std::to_string(x.peak) + ",";
        return r;
    });
    auto judge = [&](uint64_t a, uint64_t b, uint64_t d, uint64_t spare, const char* of) {
        double first = b > a ? double(b - a) : 0, second = d > b ? double(d - b) : 0;
        if (auto* df = getenv("C39_DUMP")) if (FILE* F = fopen(df, "a")) fprintf(F, "R %s %s %.3f %zu %.0f\n", what, of, second / (4 * first + spare), n, second), fclose(F);
        if (second > 1.8 * 4 * first + spare)
            c.fail(std::string(what) + "-" + of, std::string(of) + " for sizes " + std::to_string(n) + ", " + std::to_string(4 * n) + ", " + std::to_string(16 * n) + ": " +
                   std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(d));
    };
    judge(k[0].work, k[1].work, k[2].work, 20000, "work");
    judge(k[0].peak, k[1].peak, k[2].peak, 20000, "memory");
    if (steady && k[2].peak > 2 * k[0].peak + 4096)
        c.fail(std::string(what) + "-accumulates", std::to_string(k[0].peak) + " bytes after " + std::to_string(n) + " calls, " + std::to_string(k[2].peak) + " after " + std::to_string(16 * n));
}
std::string repeat(const std::string& unit, size_t n, const char* sep = "") {
    std::string r;
    r.reserve((unit.size() + 1) * n);
    for (size_t i = 0; i < n; ++i) { if (i) r += sep; r += unit; }
    return r;
}
size_t gen_n(pbt::Source& s, size_t lo, size_t hi) { return (lo + s.below(hi - lo)) * (s.chance(1, 12) ? 8 : 1); }
}  // namespace

// arrays of any element, all conversions
PROP(arrays, 5) {
    auto& s = c.s;
    AbiOpts o;
    o.wide_variants = false;
    Built b = build_case(c, o);
    Def h;
    h.k = Def::struct_;
    h.name = "holder_of";
    h.fields.push_back({"f", TR{b.root.def, b.root.suf}});
    b.m.defs.push_back(h);
    std::string abi = doc_json(make_doc(b.m, s)), type = "holder_of[]";
    // a few values of the element, used in turn
    std::vector<std::pair<Bytes, std::string>> el;
    for (size_t i = 0, k = 1 + s.below(3); i < k; ++i) {
        GenVal g{b.m, s};
        g.budget = 12;
        Val v = g.gen(TR{int(b.m.defs.size()) - 1}, 0, false);
        Bytes w;
        encode(b.m, v, w);
        std::string j;
        write_json(b.m, v, s, JsonOpts{}, j);
        el.push_back({w, j});
        if (j.size() > 2000) throw pbt::Discard{};
    }
    Ctx x;
    if (!x.set_abi(CONTRACT, abi)) c.fail("abi", x.error());
    int op = int(s.below(4));
    size_t n = gen_n(s, 16, 100);
    static const char* const names[] = {"array-ordered", "array-reorderable", "array-binary", "array-hex"};
    grows(c, names[op], n, [&](size_t n) -> Run {
        std::string j = "[";
        Bytes w;
        put_varuint(w, n);
        for (size_t i = 0; i < n; ++i) { if (i) j += ','; j += el[i % el.size()].second; w += el[i % el.size()].first; }
        j += ']';
        if (op == 3) w = pbt::hexs(w);
        return [&, j, w] {
            bool ok = op < 2   ? (op ? abieos_json_to_bin_reorderable : abieos_json_to_bin)(x.c, CONTRACT, type.c_str(), j.c_str())
                      : op < 3 ? abieos_bin_to_json(x.c, CONTRACT, type.c_str(), w.data(), w.size()) != nullptr
                               : abieos_hex_to_json(x.c, CONTRACT, type.c_str(), w.c_str()) != nullptr;
            if (!ok) c.fail("rejected", x.error());
        };
    });
}
// one long text where a scalar is expected: accepted or not
PROP(texts, 5) {
    auto& s = c.s;
    Ctx x;
    if (!x.set_abi(CONTRACT, R"({"version":"eosio::abi/1.1","structs":[{"name":"s","base":"","fields":[{"name":"f","type":"uint8"}]}]})")) c.fail("abi", x.error());
    Sc k = Sc(s.below(int(Sc::COUNT)));
    static const std::pair<const char*, const char*> forms[] = {
        {"", "a"}, {"", "\\n"}, {"", "\xe2\x82\xac"}, {"", "\\u20ac"}, {"", "\xff"}, {"", "\\u0000"}, {"", "\""}, {"", "\\\""}, {"", "\\\\"},
        {"", "00"}, {"", "0"}, {"-", "0"}, {"1", "0"}, {"0.", "0"}, {"0.", "7"}, {"1e", "0"}, {"1e-", "0"}, {"", "9"}, {"", "-"}, {"", " "},
        {"EOS", "1"}, {"EOS", "5K"}, {"PUB_K1_", "6M"}, {"PUB_WA_", "8s"}, {"PVT_R1_", "iy"}, {"SIG_K1_", "Kb"}, {"SIG_WA_", "21"}, {"5", "J"},
        {"4,", "S"}, {"", "SYS"}, {"0", ".0"}, {"1.", "0 "}, {"1.0000 ", "A"}, {"2020-01-01T00:00:00.", "0"}, {"2020-01-01T00:00:00", "Z"}, {"20", "20-"}, {"", "."}, {"", "abcdefghijkl"}, {"", "A"}};
    auto& f = forms[s.below(sizeof forms / sizeof *forms)];
    bool bare = s.chance(1, 6), reorder = s.flip(), second = s.flip();
    Bytes whole = gen_scalar(k, s);
    size_t n = gen_n(s, 100, 600);
    if (k == Sc::pub || k == Sc::pvt || k == Sc::sig) k = Sc::string;  // base58 is quadratic in the length of the text
    c.key(sc_name(k));
    c.key(std::string(f.first) + f.second);
    c.note("type", [&] { return std::string(sc_name(k)) + " " + f.first + " and many " + pbt::quote(f.second); });
    int where = int(s.below(8));
    std::string type = sc_name(k);
    auto text = [&](size_t n) { std::string t = std::string(f.first) + repeat(f.second, n); return bare ? t : "\"" + t + "\""; };
    auto conv = [&](const std::string& type, const std::string& j) -> Run {
        return [&, type, j] { (reorder ? abieos_json_to_bin_reorderable : abieos_json_to_bin)(x.c, CONTRACT, type.c_str(), j.c_str()); };
    };
    if (where < 4) return grows(c, "text-value", n, [&](size_t n) { return conv(type, text(n)); });
    if (where == 4) return grows(c, "text-member", n, [&](size_t n) { return conv("s", second ? "{\"f\":1,\"" + repeat(f.second, n) + "\":" + "1}" : "{\"f\":1,\"g\":" + text(n) + "}"); });
    if (where == 5) return grows(c, "text-type", n, [&](size_t n) { return conv(std::string(f.first) + repeat(f.second, n), "1"); });
    if (where == 6) return grows(c, "text-names", n, [&](size_t n) -> Run {
        std::string t = std::string(f.first) + repeat(f.second, n);
        return [&, t] {
            (void)abieos_string_to_name(x.c, t.c_str());
            (void)eosio::hash_name(t);
            try { (void)eosio::name(std::string_view(t)); } catch (std::runtime_error&) {}
        };
    });
    // bytes of every type, cut or with much after them
    grows(c, "text-binary", n, [&](size_t n) -> Run {
        Bytes w = whole + repeat(f.second, n);
        if (k == Sc::string || k == Sc::bytes) { w.clear(); std::string t = repeat(f.second, n); put_varuint(w, t.size()); w += t; }
        return [&, w] { (void)abieos_bin_to_json(x.c, CONTRACT, type.c_str(), w.data(), w.size()); };
    });
}
// large definitions
PROP(definitions, 4) {
    auto& s = c.s;
    int kind = int(s.below(12)), form = int(s.below(3));
    static const char* const names[] = {"abi-structs", "abi-fields", "abi-aliases", "abi-variants", "abi-alternatives", "abi-actions", "abi-tables", "abi-clauses", "abi-errors", "abi-derived", "abi-suffixes", "abi-ricardian"};
    std::string target = sc_name(Sc(s.below(int(Sc::COUNT))));
    const char* suf = s.pick({"", "?", "[]"});
    std::string stem = s.pick({"t", "type_with_a_rather_long_common_prefix_", "x.y::z<"});
    bool bad = s.chance(1, 6);  // an unknown type at the end
    c.key(target + stem + suf + std::to_string(form));
    size_t n = gen_n(s, 16, kind == 1 ? 150 : 60);
    Ctx x;
    grows(c, names[kind], n, [&](size_t n) -> Run {
        AbiDoc d;
        d.version = "eosio::abi/1.1";
        AbiDoc::S one;
        one.name = stem;
        one.fields.push_back({"a", target + suf});
        if (kind != 2 && kind != 3) d.structs.push_back(one);
        for (size_t i = 0; i < n; ++i) {
            std::string id = stem + std::to_string(i);
            switch (kind) {
            case 0: { auto q = one; q.name = id; q.fields.push_back({"b", i ? stem + std::to_string(i - 1 - (i - 1) % 8) : target}); d.structs.push_back(q); break; }
            case 1: d.structs[0].fields.push_back({id, target + suf}); break;
            case 2: d.types.push_back({id, target + suf}); break;
            case 3: d.variants.push_back({id, {target, target + suf}}); break;
            case 4: if (!i) d.variants.push_back({"v", {}}); d.variants[0].second.push_back(i % 3 ? stem : target); break;
            case 5: d.actions.push_back({i * 0x1234567890ull, stem, id}); break;
            case 6: d.tables.push_back({}); d.tables.back().name = i * 0x1234567890ull; d.tables.back().type = stem; break;
            case 9: { auto q = one; q.name = id; q.base = stem; q.fields[0].first = "b"; d.structs.push_back(q); break; }
            case 10: { auto q = one; q.name = id; q.fields.push_back({"o", stem + "?"}); q.fields.push_back({"l", (i ? stem + std::to_string(i - 1) : target) + "[]"}); if (i % 4 == 0) q.fields.pop_back(); d.structs.push_back(q); break; }
            case 7: d.clauses.push_back({id, "text"}); break;
            case 8: d.errors.push_back({i, "text"}); break;
            default: if (d.actions.empty()) d.actions.push_back({1, stem, ""}); d.actions[0].ric += kind == 11 ? "\n\"" : "text ";
            }
        }
        if (bad) d.structs.push_back(AbiDoc::S{"zzz", "", {{"f", "no_such_type"}}});
        std::string text = form == 0 ? doc_json(d) : form == 1 ? doc_bin(d) : pbt::hexs(doc_bin(d));
        return [&, text] {
            bool ok = form == 0 ? abieos_set_abi(x.c, CONTRACT, text.c_str()) : form == 1 ? abieos_set_abi_bin(x.c, CONTRACT, text.data(), text.size()) : abieos_set_abi_hex(x.c, CONTRACT, text.c_str());
            if (ok == bad) c.fail("accepted", ok ? "accepted" : x.error());
        };
    });
}

// values of structs with many members, variants of many alternatives, unknown and repeated members
PROP(members, 4) {
    auto& s = c.s;
    int kind = int(s.below(7));
    static const char* const names[] = {"members-ordered", "members-reordered", "members-binary", "members-unknown", "members-repeated", "members-omitted", "members-spread"};
    Sc k = Sc(s.below(int(Sc::COUNT)));
    std::string stem = s.pick({"f", "member_with_a_rather_long_common_prefix_"});
    size_t n = gen_n(s, 16, 80);
    c.key(sc_name(k));
    Bytes one = gen_scalar(k, s);
    std::string text = scalar_json(k, one, s, true), junk = gen_junk(s);
    if (junk.size() > 200) junk = "[[]]";
    bool reorder = s.flip();
    std::vector<std::unique_ptr<Ctx>> keep;
    grows(c, names[kind], n, [&](size_t n) -> Run {
        keep.push_back(std::make_unique<Ctx>());
        Ctx* x = keep.back().get();
        AbiDoc d;
        d.version = "eosio::abi/1.1";
        d.structs.push_back({"s", "", {}});
        bool fixed = kind == 3 || kind == 4;
        Bytes w;
        std::vector<std::string> mem;
        for (size_t i = 0; i < (fixed ? 1 : n); ++i) {
            std::string id = stem + std::to_string(i);
            d.structs[0].fields.push_back({id, std::string(sc_name(k)) + (kind == 5 && i ? "$" : "")});
            w += one;
            mem.push_back("\"" + id + "\":" + text);
        }
        if (kind == 1) std::reverse(mem.begin(), mem.end());
        if (kind == 3) for (size_t i = 0; i < n; ++i) mem.push_back("\"unknown" + std::to_string(i) + "\":" + junk);
        if (kind == 4) for (size_t i = 0; i < n; ++i) mem.push_back(mem[0]);
        if (kind == 5) mem.resize(1);
        if (!x->set_abi(CONTRACT, doc_json(d))) c.fail("abi", x->error());
        std::string j = "{", ws = kind == 6 ? std::string(n, ' ') : "";
        for (size_t i = 0; i < mem.size(); ++i) { if (i) j += ','; if (kind == 6 && i == 0) j += ws; j += mem[i]; }
        j += "}";
        bool re = kind == 1 || kind == 3 || kind == 4 || ((kind == 5 || kind == 6) && reorder);
        return [&c, x, kind, j, w, re] {
            bool ok = kind == 2 ? abieos_bin_to_json(x->c, CONTRACT, "s", w.data(), w.size()) != nullptr : (re ? abieos_json_to_bin_reorderable : abieos_json_to_bin)(x->c, CONTRACT, "s", j.c_str()) != 0;
            if (!ok) c.fail("rejected", x->error());
        };
    });
}
// many calls: no call costs more for those before it
PROP(histories, 3) {
    auto& s = c.s;
    AbiOpts o;
    o.wide_variants = false;
    Built b = build_case(c, o, false);
    std::string j;
    write_json(b.m, b.v, s, JsonOpts{}, j);
    if (j.size() > 1000 || b.abi_json.size() > 4000) throw pbt::Discard{};
    int kind = int(s.below(8));
    static const char* const names[] = {"calls-json", "calls-reorderable", "calls-binary", "calls-failing", "calls-replace", "calls-add", "calls-lookup", "calls-types"};
    size_t n = gen_n(s, 8, 40);
    Ctx x;
    Bytes bin = b.wire;
    if (!x.set_abi(CONTRACT, b.abi_json)) c.fail("abi", x.error());
    grows(c, names[kind], n, [&](size_t n) -> Run {
        return [&, n] {
            for (size_t i = 0; i < n; ++i) {
                bool ok = true;
                switch (kind) {
                case 0: ok = abieos_json_to_bin(x.c, CONTRACT, b.type.c_str(), j.c_str()); break;
                case 1: ok = abieos_json_to_bin_reorderable(x.c, CONTRACT, b.type.c_str(), j.c_str()); break;
                case 2: ok = abieos_bin_to_json(x.c, CONTRACT, b.type.c_str(), bin.data(), bin.size()) != nullptr; break;
                case 3: ok = !abieos_json_to_bin(x.c, CONTRACT, "nosuch", j.c_str()) && !abieos_hex_to_json(x.c, CONTRACT, b.type.c_str(), "0") && !abieos_set_abi(x.c, CONTRACT, "{}"); break;
                case 4: ok = abieos_set_abi(x.c, CONTRACT, b.abi_json.c_str()); break;
                case 5: ok = i >= 64 || abieos_set_abi(x.c, i * 0x9e3779b97f4a7c15ull, b.abi_json.c_str()); break;
                case 6: (void)abieos_get_type_for_action(x.c, CONTRACT, i); (void)abieos_string_to_name(x.c, "abcd"); (void)abieos_name_to_string(x.c, i); break;
                default: ok = abieos_json_to_bin(x.c, CONTRACT, (std::string(sc_name(Sc(i % 8))) + "[]").c_str(), "[]");
                }
                if (!ok) c.fail("rejected", x.error());
            }
        };
    }, kind != 5);
}

// native containers
namespace {
template <class T> constexpr bool is_vector = false;
template <class E> constexpr bool is_vector<std::vector<E>> = true;
template <class T> void native_ops(pbt::Case& c, const char* what, const std::function<void(T&, size_t)>& fill) {
    auto& s = c.s;
    constexpr bool json = is_vector<T>;
    int op = int(s.below(json ? 6 : 3));
    static const char* const ops[] = {"to_bin", "from_bin", "to_key", "to_json", "format_json", "from_json"};
    c.label(ops[op]);
    c.key(ops[op]);
    c.note("operation", [&] { return std::string(ops[op]); });
    grows(c, what, gen_n(s, 16, 80), [&](size_t n) -> Run {
        auto v = std::make_shared<T>();
        fill(*v, n);
        if (op == 1) { auto b = eosio::convert_to_bin(*v); return [b] { T r; eosio::input_stream st(b); from_bin(r, st); }; }
        if constexpr (json) if (op == 5) { auto j = eosio::convert_to_json(*v); return [j] { std::string k = j; k.append(3, '\0'); T r; eosio::json_token_stream st(k.data()); from_json(r, st); }; }
        return [v, op] {
            if (op == 0) (void)eosio::convert_to_bin(*v);
            else if (op == 2) (void)eosio::convert_to_key(*v);
            else if constexpr (json) { if (op == 3) (void)eosio::convert_to_json(*v); else (void)eosio::format_json(*v); }
        };
    });
}
template <class E> void native(pbt::Case& c) {
    auto& s = c.s;
    nat::G g(s);
    g.json = g.key = true;
    g.budget = 10;
    std::vector<E> es(1 + s.below(3));
    for (auto& e : es) { g.budget = 10; nat::gen(g, e); c.key(nat::wire(e)); }
    auto seq = [&](auto& v, size_t n) { for (size_t i = 0; i < n; ++i) v.push_back(es[i % es.size()]); };
    switch (s.below(5)) {
    case 0: return native_ops<std::vector<E>>(c, "vector", seq);
    case 1: return native_ops<std::list<E>>(c, "list", seq);
    case 2: return native_ops<std::deque<E>>(c, "deque", seq);
    case 3: return native_ops<std::map<std::string, E>>(c, "map", [&](auto& v, size_t n) { for (size_t i = 0; i < n; ++i) v["k" + std::to_string(i * 7919 % n)] = es[i % es.size()]; });
    default: return native_ops<std::set<std::pair<uint32_t, E>>>(c, "set", [&](auto& v, size_t n) { for (size_t i = 0; i < n; ++i) v.insert({uint32_t(i * 7919 % n), es[i % es.size()]}); });
    }
}
struct Entry { const char* name; void (*fn)(pbt::Case&); };
#define ENTRY(...) {#__VA_ARGS__, native<__VA_ARGS__>},
#define C39_TYPES(X) X(uint64_t) X(std::string) X(nt::derived) X(nt::mixed) X(nat::variant1) X(std::optional<nt::base1>) X(std::vector<uint16_t>) X(eosio::asset) X(double)
const Entry table_[] = {C39_TYPES(ENTRY)};
}  // namespace
PROP(natives, 5) {
    auto& e = table_[c.s.below(std::size(table_))];
    c.key(e.name);
    c.note("type", [&] { return std::string(e.name); });
    e.fn(c);
}
// the token reader
PROP(tokens, 2) {
    auto& s = c.s;
    int kind = int(s.below(6));
    static const char* const names[] = {"tokens-nested", "tokens-array", "tokens-object", "tokens-unended", "tokens-string", "tokens-struct"};
    std::string junk = gen_junk(s);
    if (junk.size() > 200) junk = "{}";
    int how = int(s.below(3));
    c.key(junk);
    grows(c, names[kind], gen_n(s, 30, 150), [&](size_t n) -> Run {
        std::string j;
        switch (kind) {
        case 0: j = repeat("[", n) + junk + repeat("]", n); break;
        case 1: j = "[" + repeat(junk, n, ",") + "]"; break;
        case 2: j = "{" + repeat("\"member\": " + junk, n, ", ") + "}"; break;
        case 3: j = repeat(how ? "{\"a\":" : "[", n); break;
        case 4: j = "[\"" + repeat(how ? "\\u00e9" : "text", n) + "\"]"; break;
        default: j = "{" + repeat("\"other\":" + junk, n, ",") + ",\"a\":1}";
        }
        return [j, kind, how] {
            std::string k = j;
            k.append(3, '\0');
            eosio::json_token_stream st(k.data());
            try {
                if (kind == 5) { nt::leaf v{}; from_json(v, st); }
                else if (kind == 1 && how) { st.get_start_array(); while (!st.get_end_array_pred()) eosio::from_json_skip_value(st); }
                else if (kind == 2 && how) eosio::from_json_object(st, [&](std::string_view) { eosio::from_json_skip_value(st); });
                else eosio::from_json_skip_value(st);
            } catch (std::runtime_error&) {}
        };
    });
}

// Memory that cannot be allocated: the call fails and says so, and nothing else changes.
#include "hist.hpp"
#include "native_types.hpp"
using namespace hist;

namespace {
struct Fail { size_t nth = 0; bool all = false; };
struct Raw { bool ok; const char* text; size_t size; bool number; pbt::MemFailed m; };
// the bare call, with no allocation of its own
Raw raw(abieos_context* c, const Op& o, Fail f) {
    Raw r{false, nullptr, 0, false, {0, 0}};
    bool set = false;
    uint64_t what = o.kind == action || o.kind == table ? std::strtoull(o.arg.c_str(), nullptr, 10) : 0, n = 0;
    pbt::mem_fail(f.nth, f.all);
    switch (o.kind) {
    case set_json: set = abieos_set_abi(c, o.n, o.arg.c_str()); break;
    case set_bin: set = abieos_set_abi_bin(c, o.n, o.arg.data(), o.arg.size()); break;
    case set_hex: set = abieos_set_abi_hex(c, o.n, o.arg.c_str()); break;
    case to_bin: set = abieos_json_to_bin(c, o.n, o.type.c_str(), o.arg.c_str()); break;
    case to_bin_reorder: set = abieos_json_to_bin_reorderable(c, o.n, o.type.c_str(), o.arg.c_str()); break;
    case to_json: r.text = abieos_bin_to_json(c, o.n, o.type.c_str(), o.arg.data(), o.arg.size()); break;
    case hex_to_json: r.text = abieos_hex_to_json(c, o.n, o.type.c_str(), o.arg.c_str()); break;
    case to_name: n = abieos_string_to_name(c, o.arg.c_str()); break;
    case from_name: r.text = abieos_name_to_string(c, o.n); break;
    case action: r.text = abieos_get_type_for_action(c, o.n, what); break;
    case table: r.text = abieos_get_type_for_table(c, o.n, what); break;
    }
    r.m = pbt::mem_fail_end();
    r.ok = set || r.text || o.kind == to_name;
    if (set && o.kind >= to_bin) {
        r.text = abieos_get_bin_data(c);
        r.size = size_t(abieos_get_bin_size(c));
    } else if (r.text) r.size = strlen(r.text);
    return r;
}
std::string said(abieos_context* c, const Op& o, const Raw& r) {
    if (o.kind == to_name) return "name";
    if (!r.ok) return "failed " + std::string(abieos_get_error(c));
    return "ok" + (r.text || r.size ? " " + std::string(r.text ? r.text : "", r.size) : std::string());
}
struct Context {
    abieos_context* c = abieos_create();
    ~Context() { abieos_destroy(c); }
};
// one of the allocations of a call, or the allocations from one on
Fail gen_fail(pbt::Source& s, size_t allocations) {
    Fail f;
    f.all = s.flip();
    f.nth = !allocations ? 1 : s.chance(1, 3) ? allocations - s.below(std::min<size_t>(allocations, 4)) : 1 + s.below(allocations);
    return f;
}
// a failing call with a long message
Op bad_op(pbt::Source& s, const Pool& p) {
    auto& x = p.samples[s.below(p.samples.size())];
    Op o;
    o.n = CONTRACT + uint64_t(x.abi) * 16;
    o.spin = 0;
    o.type = x.type;
    switch (s.below(5)) {
    case 0: o.kind = to_bin; o.arg = "{\"nobody has a member of this name\":1}"; break;
    case 1: o.kind = to_json; o.arg = std::string(x.wire) + "more bytes than there should be"; break;
    case 2: o.kind = to_bin; o.type = "a type which no contract defines"; o.arg = x.json; break;
    case 3: o.kind = hex_to_json; o.arg = "not hexadecimal digits at all"; break;
    default: o.kind = s.flip() ? set_json : set_hex; o.arg = s.pick({"{\"version\":\"eosio::abi/something quite different\"}", "{\"version\":\"eosio::abi/1.1\",\"structs\":[{\"name\":\"a\",\"base\":\"a base that is not there\",\"fields\":[]}]}", "0x", "{\"version\":"}); break;
    }
    return o;
}
}  // namespace

PROP(calls, 6) {
    auto& s = c.s;
    Pool p = gen_pool(c, true);
    History h = gen_history(s, p);
    for (auto& o : h) if (s.chance(1, 5)) { o = bad_op(s, p); } else if (o.kind == recreate) o.kind = from_name;
    c.note("calls", [&] { return hist::text(h); });
    // what the calls give, and how much they allocate
    std::vector<std::string> want;
    std::vector<size_t> allocs;
    {
        Context x;
        for (auto& o : h) {
            Raw r = raw(x.c, o, {});
            want.push_back(said(x.c, o, r));
            allocs.push_back(r.m.allocations);
        }
    }
    Context y;
    size_t injected = 0;
    for (size_t i = 0; i < h.size(); ++i) {
        for (size_t times = s.below(3); times; --times) {
            size_t k = s.chance(2, 3) ? i : s.below(h.size());
            Fail f = gen_fail(s, allocs[k]);
            Raw r = raw(y.c, h[k], f);
            c.note("failing", [&] { return std::string(kind_name[h[k].kind]) + " (call " + std::to_string(k) + ") before call " + std::to_string(i) + ", allocation " + std::to_string(f.nth) + (f.all ? " and all later ones" : "") + " of " + std::to_string(allocs[k]); });
            if (!r.m.failures) {
                // it took less; the call counts, so what follows is another history
                if (k == i && said(y.c, h[i], r) != want[i]) c.fail("undisturbed", "gives " + pbt::quote(said(y.c, h[i], r)) + " instead of " + pbt::quote(want[i]));
                if (k != i && h[k].kind <= set_hex && r.ok) { c.label("another history"); return; }
                continue;
            }
            ++injected;
            static const char* const labels[] = {"set_abi", "set_abi_bin", "set_abi_hex", "json_to_bin", "json_to_bin_reorderable", "bin_to_json", "hex_to_json", "string_to_name", "name_to_string", "get_type_for_action", "get_type_for_table", ""};
            c.label(labels[h[k].kind]);
            if (r.ok) {
                if (k == i ? said(y.c, h[i], r) != want[i] : h[k].kind <= set_hex) c.fail("wrong-result", "without memory " + pbt::quote(said(y.c, h[k], r)) + " instead of " + pbt::quote(want[k]));
            } else {
                const char* e = abieos_get_error(y.c);
                if (!e || !*e) c.fail("no-message", "a failed call left no message");
            }
        }
        Raw r = raw(y.c, h[i], {});
        std::string got = said(y.c, h[i], r);
        if (got != want[i]) c.fail("later-call", "after failed allocations call " + std::to_string(i) + ", " + kind_name[h[i].kind] + "(" + h[i].type + "), gives " + pbt::quote(got) + " instead of " + pbt::quote(want[i]));
        if (r.ok && (h[i].kind == to_bin || h[i].kind == to_bin_reorder) && r.size) {
            pbt::mem_fail(1 + s.below(4), s.flip());
            const char* t = abieos_get_bin_hex(y.c);
            auto m = pbt::mem_fail_end();
            std::string hx = pbt::hexs(r.text, r.size);
            if (t && t != hx) c.fail("hex", std::string(t) + " instead of " + hx);
            if (!t && !m.failures) c.fail("hex", "no text");
            if (!t && !*abieos_get_error(y.c)) c.fail("no-message", "get_bin_hex failed without a message");
            t = abieos_get_bin_hex(y.c);
            if (!t || t != hx) c.fail("hex", "the next get_bin_hex gives " + hist::str(t));
        }
    }
    if (injected) c.nontrivial();
    // nothing is lost: the same again, with nothing else allocated
    std::vector<Fail> fs;
    for (size_t i = 0; i < h.size(); ++i) fs.push_back(s.chance(2, 3) ? gen_fail(s, allocs[i]) : Fail{});
    size_t live = 0;
    for (int round = 0; round < 2; ++round) {
        pbt::mem_reset();
        abieos_context* x = abieos_create();
        for (size_t i = 0; i < h.size(); ++i) raw(x, h[i], fs[i]);
        abieos_destroy(x);
        live = pbt::mem_live();
        if (!live) break;
    }
    if (live) c.fail("leak", std::to_string(live) + " bytes are not freed");
}
// the C++ interface
PROP(types, 3) {
    auto& s = c.s;
    Pool p = gen_pool(c, true);
    auto& a = p.abis[0];
    eosio::abi_def def;
    std::vector<char> bin(a.bin.begin(), a.bin.end());
    { eosio::input_stream st(bin); try { from_bin(def, st); } catch (std::exception&) { return; } }
    eosio::abi plain, x;
    auto whole = [&](eosio::abi& to) {
        try { convert(def, to); return true; } catch (std::exception&) { return false; }
    };
    pbt::mem_fail(0, false);
    bool good = whole(plain);
    size_t n = pbt::mem_fail_end().allocations;
    {
        eosio::abi t;
        Fail f = gen_fail(s, n);
        pbt::mem_fail(f.nth, f.all);
        bool ok = whole(t);
        auto m = pbt::mem_fail_end();
        if (ok && m.failures) c.fail("convert", "succeeds although an allocation failed");
        if (m.failures) c.nontrivial();
    }
    if (!good || !whole(x)) return;
    std::vector<std::string> names;
    static const char* const base[] = {"block_timestamp_type", "time_point_sec", "extended_asset", "symbol_code", "public_key"};
    for (size_t k = 1 + s.below(3); k; --k) names.push_back(std::string(base[s.below(5)]) + s.pick({"?", "[]", "$", "", "?$", "[]$"}));
    for (auto& q : p.samples) if (q.abi == 0) names.push_back(q.type);
    auto use = [&](eosio::abi& to, const std::string& name, size_t i, std::string& r) {
        auto* t = to.get_type(name);
        r = t->name + "\n";
        if (i >= names.size() || i >= p.samples.size()) return;
        std::vector<char> w(p.samples[i].wire.begin(), p.samples[i].wire.end());
        if (p.samples[i].type != name) return;
        eosio::input_stream st(w);
        r += t->bin_to_json(st) + "\n";
        auto b = t->json_to_bin(p.samples[i].json);
        r.append(b.data(), b.size());
        b = t->json_to_bin_reorderable(p.samples[i].json);
        r.append(b.data(), b.size());
    };
    for (auto& name : names) {
        size_t i = 0;
        while (i < p.samples.size() && p.samples[i].type != name) ++i;
        c.key(name);
        c.note("type", [&] { return name; });
        auto told = [&](eosio::abi& to) {
            std::string r;
            try { use(to, name, i, r); } catch (std::exception& e) { r += std::string("throws ") + e.what(); }
            return r;
        };
        Fail f = gen_fail(s, 12);
        std::string r;
        bool threw = false;
        pbt::mem_fail(f.nth, f.all);
        try { use(x, name, i, r); } catch (std::exception&) { threw = true; }
        auto m = pbt::mem_fail_end();
        if (m.failures) c.nontrivial();
        std::string want = told(plain), got = told(x);
        if (!threw && r != want) c.fail("starved", pbt::quote(r) + " instead of " + pbt::quote(want));
        if (got != want) c.fail("later-use", pbt::quote(got) + " instead of " + pbt::quote(want));
    }
    auto exported = [&](eosio::abi& from) {
        eosio::abi_def d;
        convert(from, d);
        auto b = eosio::convert_to_bin(d);
        return pbt::hexs(b);
    };
    std::string want, got;
    try { want = exported(plain); } catch (std::exception& e) { want = "throws"; }
    Fail f = gen_fail(s, 40);
    pbt::mem_fail(f.nth, f.all);
    try { exported(x); } catch (std::exception&) {}
    pbt::mem_fail_end();
    try { got = exported(x); } catch (std::exception& e) { got = "throws"; }
    if (got != want) c.fail("export", got + " instead of " + want);
}
PROP(create, 1) {
    pbt::mem_reset();
    pbt::mem_fail(1 + c.s.below(2), c.s.flip());
    abieos_context* x = abieos_create();
    auto m = pbt::mem_fail_end();
    abieos_destroy(x);
    size_t live = pbt::mem_live();
    if (!x && !m.failures) c.fail("create", "no context");
    if (live) c.fail("leak", std::to_string(live) + " bytes are not freed");
    c.key(x ? "context" : "none");
    c.nontrivial();
}

namespace {
// f in a world where an allocation fails; its result, or nothing when it threw
template <class F> std::optional<std::string> starved(pbt::Case& c, Fail f, F&& fn, pbt::MemFailed& m) {
    std::optional<std::string> r;
    bool threw = false;
    pbt::mem_fail(f.nth, f.all);
    try {
        auto x = fn();
        m = pbt::mem_fail_end();
        r.emplace(x.data(), x.size());
    } catch (std::exception&) { m = pbt::mem_fail_end(); threw = true; }
    if (threw && !m.failures) c.fail("threw", "an exception without a failed allocation");
    return r;
}
template <class T> void native(pbt::Case& c) {
    auto& s = c.s;
    nat::G g(s);
    g.json = true;
    T v{};
    nat::gen(g, v);
    Bytes w = nat::wire(v);
    c.key(w);
    c.note("wire", [&] { return pbt::hexs(w); });
    std::string text = eosio::convert_to_json(v), padded = text + std::string(4, '\0');
    std::vector<char> bin(w.begin(), w.end());
    // copying a std::variant whose copy throws is reported by UBSan inside libstdc++ 13, whatever its user does
    constexpr bool has_variant = std::is_same_v<T, nt::node> || std::is_same_v<T, nt::optv> || std::is_same_v<T, nat::variant1>;
    int op = has_variant ? s.pick({0, 3, 4}) : int(s.below(6));
    static const char* const ops[] = {"to_bin", "to_json", "format_json", "from_bin", "from_json", "from_bin into a used object"};
    c.label(ops[op]);
    c.note("op", [&] { return std::string(ops[op]); });
    T used{};
    if (op == 5) { nat::G g2(s); g2.json = true; nat::gen(g2, used); }
    std::optional<T> kept;
    std::vector<char> out_bin;
    std::string out_text;
    // reads without printing, so that only the reader's allocations fail; what was read is compared afterwards
    auto run = [&]() -> std::string_view {
        switch (op) {
        case 0: out_bin = eosio::convert_to_bin(v); return {out_bin.data(), out_bin.size()};
        case 1: out_text = eosio::convert_to_json(v); return out_text;
        case 2: out_text = eosio::format_json(v); return out_text;
        case 3: { kept.emplace(); eosio::input_stream st(bin); from_bin(*kept, st); return "read"; }
        case 4: { kept.emplace(); std::string copy = padded; eosio::json_token_stream st(copy.data()); from_json(*kept, st); return "read"; }
        default: { kept.emplace(used); eosio::input_stream st(bin); from_bin(*kept, st); return "read"; }
        }
    };
    pbt::MemFailed m;
    auto want = starved(c, {}, run, m);
    size_t allocs = m.allocations;
    if (!allocs) return;
    auto judge = [&](const char* when, const std::optional<std::string>& r, bool failed) {
        if (!r) { if (!failed) c.fail(when, "failed"); return; }
        if (*r != *want) c.fail(when, "gives " + pbt::quote(*r) + " instead of " + pbt::quote(*want));
        if (op >= 3 && nat::wire(*kept) != w) c.fail(when, "reads " + pbt::hexs(nat::wire(*kept)) + " instead of " + pbt::hexs(w));
    };
    judge("plain", want, false);
    for (int i = 0; i < 4; ++i) {
        Fail f = gen_fail(s, allocs);
        c.note("failing", [&] { return "allocation " + std::to_string(f.nth) + (f.all ? " and all later ones" : "") + " of " + std::to_string(allocs); });
        kept.reset();
        auto r = starved(c, f, run, m);
        if (m.failures) c.nontrivial();
        judge("starved", r, m.failures);
        // nothing is lost
        size_t live = 0;
        for (int round = 0; round < 2; ++round) {
            kept.reset();
            out_bin = {};
            out_text = {};
            pbt::mem_reset();
            pbt::mem_fail(f.nth, f.all);
            try { run(); } catch (std::exception&) {}
            pbt::mem_fail_end();
            kept.reset();
            out_bin = {};
            out_text = {};
            live = pbt::mem_live();
            if (!live) break;
        }
        if (live) c.fail("leak", std::to_string(live) + " bytes are not freed");
        // an object half read can be read again
        if (op >= 3 && !r) {
            kept.emplace(used);
            eosio::input_stream st(bin);
            pbt::mem_fail(f.nth, f.all);
            try { from_bin(*kept, st); } catch (std::exception&) {}
            pbt::mem_fail_end();
            eosio::input_stream again(bin);
            from_bin(*kept, again);
            if (nat::wire(*kept) != w) c.fail("read-again", "reads " + pbt::hexs(nat::wire(*kept)) + " instead of " + pbt::hexs(w));
        }
    }
}
struct Entry { const char* name; void (*fn)(pbt::Case&); };
using namespace nat;
#define ENTRY(...) {#__VA_ARGS__, native<__VA_ARGS__>},
#define C37_TYPES(X) X(std::string) X(eosio::bytes) X(eosio::public_key) X(eosio::signature) X(nt::derived) X(nt::tree) X(nt::node) X(nt::mixed) X(nt::money) X(nt::optv) X(nat::variant1) X(std::vector<std::optional<nt::base1>>)
const Entry table_[] = {C37_TYPES(ENTRY)};
}  // namespace
PROP(values, 3) {
    auto& e = table_[c.s.below(std::size(table_))];
    c.key(e.name);
    c.note("type", [&] { return std::string(e.name); });
    e.fn(c);
}

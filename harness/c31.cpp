// eosio::check and the texts of the error codes.
#include "ref.hpp"
#include <eosio/abi.hpp>
#include <eosio/check.hpp>
#include <eosio/from_json.hpp>
#include <eosio/stream.hpp>
#include <memory>
using namespace ref;

namespace {
struct Out { int kind = 0; Bytes text; };  // 0: nothing thrown, 1: runtime_error, 2: something else
template <class F> Out run(F&& f) {
    Out o;
    try { f(); } catch (std::runtime_error& e) { o.kind = 1; o.text = e.what(); } catch (std::exception& e) { o.kind = 2; o.text = e.what(); } catch (...) { o.kind = 2; }
    return o;
}
std::unique_ptr<char[]> heap(const Bytes& b) {
    std::unique_ptr<char[]> p(new char[b.size()]);
    memcpy(p.get(), b.data(), b.size());
    return p;
}
Bytes gen_msg(pbt::Source& s) {
    switch (s.below(6)) {
    case 0: { Bytes b; for (size_t n = s.size(300); n; --n) b += char('a' + s.below(26)); return b; }
    case 1: return gen_bytes(s, 60);
    case 2: return std::string(s.below(70), char(s.byte()));  // around the sizes where strings start to allocate
    case 3: { static const char* const t[] = {"", "0", "%s%n", "a does not equal b", "\n", "\"", "13", "no error"}; return s.pick(t); }
    case 4: return std::string(1000 + s.below(60000), 'x') + char('0' + s.below(10));
    default: { Bytes b = gen_bytes(s, 40); for (size_t n = s.below(3); n; --n) b.insert(s.below(b.size() + 1), 1, '\0'); return b; }
    }
}
Bytes upto_nul(const Bytes& b) { return b.substr(0, b.find('\0')); }
}  // namespace

PROP(check_message, 8) {
    auto& s = c.s;
    Bytes m = gen_msg(s);
    bool pred = s.chance(1, 4);
    size_t n = s.flip() ? s.below(m.size() + 1) : s.pick({size_t(0), m.size(), m.size() ? m.size() - 1 : 0});
    size_t over = s.chance(1, 3) ? n : s.pick({m.size() + 1, m.size() + 100, size_t(-1), size_t(1) << 63, size_t(UINT32_MAX), n});
    auto raw = heap(m);
    std::string str = m;
    str.shrink_to_fit();
    const std::string& cref = str;
    std::string want = m;
    Out o;
    const char* how = "";
    bool reads_nul = false;  // the whole text up to a NUL
    switch (s.below(10)) {
    case 0: how = "string_view"; o = run([&] { eosio::check(pred, std::string_view(raw.get(), m.size())); }); break;
    case 1: {
        how = "C string";
        auto z = heap(upto_nul(m) + '\0');
        o = run([&] { eosio::check(pred, (const char*)z.get()); });
        break;
    }
    case 2: how = "string"; o = run([&] { eosio::check(pred, cref); }); break;
    case 3: how = "string (lvalue)"; o = run([&] { eosio::check(pred, str); }); break;
    case 4: how = "string (rvalue)"; o = run([&] { eosio::check(pred, std::move(str)); }); if (!pred) str = m; break;
    case 5: how = "string (temporary)"; o = run([&] { eosio::check(pred, std::string(m)); }); break;
    case 6: how = "pointer and length"; want = m.substr(0, n); { auto cut = heap(want); o = run([&] { eosio::check(pred, (const char*)cut.get(), n); }); } break;
    case 7: how = "pointer and part of it"; want = m.substr(0, n); o = run([&] { eosio::check(pred, (const char*)raw.get(), n); }); break;
    case 8: how = "string and length"; want = m.substr(0, over); o = run([&] { eosio::check(pred, cref, over); }); break;
    default: {
        how = "code";
        uint64_t code = uint64_t(s.uint_bits(64));
        m = want = std::to_string(0);
        want.clear();
        uint64_t v = code;
        do { want.insert(want.begin(), char('0' + v % 10)); v /= 10; } while (v);
        m = want;
        str = m;
        o = run([&] { eosio::check(pred, code); });
        break;
    }
    }
    c.note("overload", [&] { return std::string(how); });
    c.note("condition", [&] { return std::string(pred ? "true" : "false"); });
    c.note("message", [&] { return pbt::quote(want); });
    c.key(std::string(how) + char(pred) + want);
    c.label(how);
    if (!pred && !want.empty()) c.nontrivial();
    if (str != m) c.fail("argument", std::string(how) + ": the caller's text was changed to " + pbt::quote(str));
    if (pred) {
        if (o.kind) c.fail("threw", std::string(how) + ": threw although the condition holds");
        return;
    }
    if (o.kind != 1) c.fail("no error", std::string(how) + (o.kind ? ": threw another type" : ": nothing thrown though the condition does not hold"));
    if (o.text != upto_nul(want)) c.fail("message", std::string(how) + ": " + pbt::quote(o.text) + " instead of " + pbt::quote(upto_nul(want)));
}

namespace {
struct Fam { const char* name; int first, last; std::string_view (*text)(int); };
template <class E, std::string_view (*F)(E)> std::string_view via(int i) { return F(E(i)); }
const Fam fams[] = {
    {"json", int(eosio::from_json_error::no_error), int(eosio::from_json_error::unspecific_syntax_error), [](int i) { return eosio::convert_json_error(i); }},
    {"json (enum)", int(eosio::from_json_error::no_error), int(eosio::from_json_error::unspecific_syntax_error), [](int i) { return eosio::convert_json_error(eosio::from_json_error(i)); }},
    {"stream", int(eosio::stream_error::no_error), int(eosio::stream_error::json_writer_error), [](int i) { return eosio::convert_stream_error(eosio::stream_error(i)); }},
    {"abi", int(eosio::abi_error::no_error), int(eosio::abi_error::bad_abi), [](int i) { return eosio::convert_abi_error(eosio::abi_error(i)); }},
};
}  // namespace
// every code of a family has a text of its own, and a code outside the family gets the family's fallback
PROP(code_texts, 1) {
    auto& s = c.s;
    const Fam& f = fams[s.below(4)];
    int n = f.last - f.first + 1, a = f.first + int(s.below(n)), b = f.first + int(s.below(n));
    int out = s.flip() ? f.last + 1 + int(s.below(1000)) : -1 - int(s.below(1000));
    c.note("family", [&] { return std::string(f.name); });
    c.note("codes", [&] { return std::to_string(a) + ", " + std::to_string(b) + ", " + std::to_string(out); });
    c.key(std::string(f.name) + std::to_string(a) + "," + std::to_string(b));
    if (a != b) c.nontrivial();
    std::string ta(f.text(a)), tb(f.text(b)), to(f.text(out));
    if (ta.empty()) c.fail("empty", std::string(f.name) + " code " + std::to_string(a) + " has no text");
    if ((a == b) != (ta == tb)) c.fail("same text", std::string(f.name) + " codes " + std::to_string(a) + " and " + std::to_string(b) + " both read " + ta);
    if (ta == to) c.fail("unknown", std::string(f.name) + " code " + std::to_string(a) + " reads like a code outside the family: " + ta);
    // thrown, it reads the same
    Out o = run([&] { eosio::check(false, f.text(a)); });
    if (o.kind != 1 || o.text != ta) c.fail("thrown text", o.text);
}

// Reflection enumerates every member once, in order; generated comparisons agree with member-wise comparison.
#include "native_types.hpp"
#include <typeindex>
using namespace ref;

namespace rt {  // further shapes of reflected types
struct empty {};
EOSIO_REFLECT(empty);
EOSIO_COMPARE(empty);
struct tricky { uint8_t base_{}; uint8_t baseline{}; uint16_t member{}; std::string f; int8_t p{}; };
EOSIO_REFLECT(tricky, base_, baseline, member, f, p);
EOSIO_COMPARE(tricky);
struct methods {
    int32_t a{};
    int add(int k) { return a + k; }
    std::string b;
    uint64_t size() const { return b.size(); }
    void clear() { b.clear(); }
};
EOSIO_REFLECT(methods, a, add, b, size, clear);
EOSIO_COMPARE(methods);
struct derived_methods : methods {
    uint8_t c{};
    int twice(int k) { return 2 * k; }
};
EOSIO_REFLECT(derived_methods, twice, base methods, c);
EOSIO_COMPARE(derived_methods);
struct l1 { uint8_t v1{}; };
EOSIO_REFLECT(l1, v1);
EOSIO_COMPARE(l1);
struct l2 : l1 { uint8_t v2{}; };
EOSIO_REFLECT(l2, base l1, v2);
EOSIO_COMPARE(l2);
struct l3 : l2 { uint8_t v3{}; };
EOSIO_REFLECT(l3, v3, base l2);
EOSIO_COMPARE(l3);
struct r1 { int16_t w1{}; std::string w2; };
EOSIO_REFLECT(r1, w1, w2);
EOSIO_COMPARE(r1);
struct diamond : l3, r1 { uint32_t z{}; };
EOSIO_REFLECT(diamond, base l3, base r1, z);
EOSIO_COMPARE(diamond);
struct wide {
    uint8_t a00{}, a01{}, a02{}, a03{}, a04{}, a05{}, a06{}, a07{}, a08{}, a09{}, a10{}, a11{}, a12{}, a13{}, a14{}, a15{}, a16{}, a17{}, a18{}, a19{}, a20{}, a21{}, a22{}, a23{};
    uint8_t b00{}, b01{}, b02{}, b03{}, b04{}, b05{}, b06{}, b07{}, b08{}, b09{}, b10{}, b11{}, b12{}, b13{}, b14{}, b15{}, b16{}, b17{}, b18{}, b19{}, b20{}, b21{}, b22{}, b23{};
    uint8_t c00{}, c01{}, c02{}, c03{}, c04{}, c05{}, c06{}, c07{}, c08{}, c09{}, c10{}, c11{}, c12{}, c13{}, c14{}, c15{}, c16{}, c17{}, c18{}, c19{}, c20{}, c21{}, c22{}, c23{};
};
#define W24(x) x##00, x##01, x##02, x##03, x##04, x##05, x##06, x##07, x##08, x##09, x##10, x##11, x##12, x##13, x##14, x##15, x##16, x##17, x##18, x##19, x##20, x##21, x##22, x##23
EOSIO_REFLECT(wide, a00, a01, a02, a03, a04, a05, a06, a07, a08, a09, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23,
              b00, b01, b02, b03, b04, b05, b06, b07, b08, b09, b10, b11, b12, b13, b14, b15, b16, b17, b18, b19, b20, b21, b22, b23,
              c00, c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14, c15, c16, c17, c18, c19, c20, c21, c22, c23);
EOSIO_COMPARE(wide);
}  // namespace rt
namespace nat {
template <> struct Desc<rt::empty> {
    static constexpr bool ok = true;
    static const std::vector<std::string>& names() { static const std::vector<std::string> n; return n; }
    template <class O> static auto tie(O&) { return std::tie(); }
};
DESC(rt::tricky, base_, baseline, member, f, p)
DESC(rt::methods, a, b)
DESC(rt::derived_methods, a, b, c)
DESC(rt::l1, v1)
DESC(rt::l2, v1, v2)
DESC(rt::l3, v3, v1, v2)
DESC(rt::r1, w1, w2)
DESC(rt::diamond, v3, v1, v2, w1, w2, z)
template <> struct Desc<rt::wide> {
    static constexpr bool ok = true;
    static const std::vector<std::string>& names() {
        static const std::vector<std::string> n = [] {
            std::vector<std::string> r;
            for (char x = 'a'; x <= 'c'; ++x)
                for (int i = 0; i < 24; ++i) r.push_back(std::string(1, x) + char('0' + i / 10) + char('0' + i % 10));
            return r;
        }();
        return n;
    }
    template <class O> static auto tie(O& o) {
        return std::tuple_cat(t(o, [](auto& o) { return std::tie(o.a00, o.a01, o.a02, o.a03, o.a04, o.a05, o.a06, o.a07, o.a08, o.a09, o.a10, o.a11, o.a12, o.a13, o.a14, o.a15, o.a16, o.a17, o.a18, o.a19, o.a20, o.a21, o.a22, o.a23); }),
                              t(o, [](auto& o) { return std::tie(o.b00, o.b01, o.b02, o.b03, o.b04, o.b05, o.b06, o.b07, o.b08, o.b09, o.b10, o.b11, o.b12, o.b13, o.b14, o.b15, o.b16, o.b17, o.b18, o.b19, o.b20, o.b21, o.b22, o.b23); }),
                              t(o, [](auto& o) { return std::tie(o.c00, o.c01, o.c02, o.c03, o.c04, o.c05, o.c06, o.c07, o.c08, o.c09, o.c10, o.c11, o.c12, o.c13, o.c14, o.c15, o.c16, o.c17, o.c18, o.c19, o.c20, o.c21, o.c22, o.c23); }));
    }
    template <class O, class F> static auto t(O& o, F f) { return f(o); }
};
}  // namespace nat

namespace {
struct Entry { const char* name; void (*fn)(pbt::Case&); };
#define HAS(N, OP)                                                                                                                      \
    template <class T, class = void> struct has_##N : std::false_type {};                                                              \
    template <class T> struct has_##N<T, std::void_t<decltype(bool(std::declval<const T&>() OP std::declval<const T&>()))>> : std::true_type {}; \
    template <class T> void use_##N(pbt::Case& c, const T& a, const T& b, bool want) {                                                  \
        if constexpr (has_##N<T>::value) {                                                                                              \
            bool got;                                                                                                                   \
            try { got = bool(a OP b); } catch (std::exception& e) { c.fail(#N "-throws", e.what()); }                                   \
            if (got != want) c.fail(#N, "a " #OP " b is " + std::to_string(got) + " for a = " + nat::show(a) + ", b = " + nat::show(b)); \
        }                                                                                                                               \
    }
HAS(eq, ==) HAS(ne, !=) HAS(lt, <) HAS(le, <=) HAS(gt, >) HAS(ge, >=)

template <class T> void compare_all(pbt::Case& c, const T& a, const T& b) {
    int r = nat::cmp(a, b);
    c.label(r == 0 ? "equal" : "different");
    use_eq(c, a, b, r == 0);
    use_ne(c, a, b, r != 0);
    use_lt(c, a, b, r < 0);
    use_le(c, a, b, r <= 0);
    use_gt(c, a, b, r > 0);
    use_ge(c, a, b, r >= 0);
}
template <class T> void compare(pbt::Case& c) {
    nat::G g(c.s);
    g.key = true;
    T a{};
    nat::gen(g, a);
    T b = a;
    auto rep = [&] { c.note("a", [&] { return nat::show(a); }); c.note("b", [&] { return nat::show(b); }); };
    switch (c.s.below(5)) {
    case 0: break;
    case 1: g.budget = 40; nat::gen(g, b); break;
    default: nat::perturb(g, b); if (c.s.chance(1, 3)) nat::perturb(g, b);
    }
    rep();
    c.key(nat::wire(a));
    c.key(nat::wire(b));
    if (nat::cmp(a, b)) c.nontrivial();
    compare_all(c, a, b);
    compare_all(c, b, a);
    compare_all(c, a, a);
    // equal values serialize equally, and a difference is visible in the bytes
    auto wa = eosio::convert_to_bin(a), wb = eosio::convert_to_bin(b);
    if constexpr (has_eq<T>::value) {
        bool eq = a == b;
        bool zeros = nat::wire(a) != nat::wire(b) && nat::cmp(a, b) == 0;  // +0.0 and -0.0
        if (!zeros && eq != (wa == wb)) c.fail("eq-bytes", nat::show(a) + " and " + nat::show(b));
    }
}
// asset comparisons need one symbol (and extended ones, for order, one contract)
template <> void compare<eosio::asset>(pbt::Case& c) {
    nat::G g(c.s);
    auto one = [&] { eosio::asset a; a.amount = int64_t(c.s.int_bits(64)); a.symbol.value = g.sym; return a; };
    eosio::asset a = one(), b = c.s.flip() ? one() : a;
    if (c.s.flip()) b.amount ^= 1;
    c.key(nat::wire(a)); c.key(nat::wire(b));
    if (a.amount != b.amount) c.nontrivial();
    compare_all(c, a, b);
    compare_all(c, a, a);
}
template <class T> void fields(pbt::Case& c) {
    using D = nat::Desc<T>;
    nat::G g(c.s);
    T v{};
    nat::gen(g, v);
    c.key(nat::wire(v));
    c.nontrivial();
    c.note("wire", [&] { return nat::show(v); });
    struct Seen { std::string name; const void* p; std::type_index t; Bytes w; };
    std::vector<Seen> want, named, plain, constant;
    auto tie = D::tie(v);
    size_t k = 0;
    std::apply([&](auto&... x) { (want.push_back({D::names()[k++], (const void*)&x, typeid(x), nat::wire(x)}), ...); }, tie);
    eosio::for_each_field<T>([&](const char* name, auto&& member) {
        auto& x = member(&v);
        named.push_back({name, (const void*)&x, typeid(x), nat::wire(x)});
        const T& cv = v;
        auto& y = member(&cv);
        if ((const void*)&y != (const void*)&x) c.fail("const-member", name);
    });
    k = 0;
    eosio::for_each_field(v, [&](auto& x) { plain.push_back({k < want.size() ? want[k].name : "", (const void*)&x, typeid(x), nat::wire(x)}); ++k; });
    k = 0;
    const T& cv = v;
    eosio::for_each_field(cv, [&](const auto& x) { constant.push_back({k < want.size() ? want[k].name : "", (const void*)&x, typeid(x), nat::wire(x)}); ++k; });
    auto same = [&](const std::vector<Seen>& got, const char* tag) {
        if (got.size() != want.size()) c.fail(std::string(tag) + "-count", std::to_string(got.size()) + " members, expected " + std::to_string(want.size()));
        for (size_t i = 0; i < want.size(); ++i) {
            if (got[i].name != want[i].name) c.fail(std::string(tag) + "-name", "member " + std::to_string(i) + " is " + got[i].name + ", expected " + want[i].name);
            if (got[i].p != want[i].p) c.fail(std::string(tag) + "-member", got[i].name + " is another member");
            if (got[i].t != want[i].t) c.fail(std::string(tag) + "-type", got[i].name + " has another type");
            if (got[i].w != want[i].w) c.fail(std::string(tag) + "-value", got[i].name + " has another value");
        }
    };
    same(named, "named");
    same(plain, "plain");
    same(constant, "const");
    // writing through the enumeration changes exactly that member
    if (!want.empty()) {
        size_t t = c.s.below(want.size()), i = 0;
        eosio::for_each_field(v, [&](auto& x) { if (i++ == t) nat::gen(g, x); });
        std::vector<Bytes> now;
        auto tie2 = D::tie(v);
        std::apply([&](auto&... x) { (now.push_back(nat::wire(x)), ...); }, tie2);
        for (i = 0; i < now.size(); ++i) if (i != t && now[i] != want[i].w) c.fail("write-through", want[i].name + " changed although " + want[t].name + " was written");
    }
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifndef SHARD
#define SHARD 0
#endif
#define CMP_0(X) X(nt::ints) X(nt::deep) X(nt::many) X(eosio::name) X(eosio::symbol) X(eosio::symbol_code) X(eosio::extended_symbol) X(eosio::asset) X(rt::wide) X(rt::diamond) X(std::vector<nt::base1>)
#define CMP_1(X) X(nt::flo) X(nt::derived) X(nt::tree) X(nt::mixed) X(nt::only_base) X(eosio::time_point) X(eosio::time_point_sec) X(eosio::block_timestamp) X(eosio::microseconds) X(eosio::bytes) X(eosio::varuint32) X(eosio::varint32) X(rt::methods) X(rt::derived_methods) X(rt::tricky) X(std::optional<nt::derived>)
#define CMP_2(X) X(nt::leaf) X(nt::base1) X(nt::base2) X(nt::optv) X(nt::cont) X(eosio::checksum160) X(eosio::checksum256) X(eosio::checksum512) X(eosio::float128) X(eosio::public_key) X(eosio::private_key) X(eosio::signature) X(rt::empty) X(rt::l1) X(rt::l2) X(rt::l3) X(rt::r1) X(std::map<uint8_t, nt::base2>)
#define FLD_0(X) X(nt::ints) X(nt::deep) X(nt::many) X(eosio::extended_symbol) X(eosio::extended_asset) X(rt::wide) X(rt::diamond) X(nt::chain)
#define FLD_1(X) X(nt::flo) X(nt::derived) X(nt::tree) X(nt::mixed) X(nt::only_base) X(nt::node) X(rt::methods) X(rt::derived_methods) X(rt::tricky) X(eosio::microseconds)
#define FLD_2(X) X(nt::leaf) X(nt::base1) X(nt::base2) X(nt::optv) X(nt::cont) X(rt::empty) X(rt::l1) X(rt::l2) X(rt::l3) X(rt::r1) X(nt::carr) X(nt::money)
#define CENTRY(...) {#__VA_ARGS__, compare<__VA_ARGS__>},
#define FENTRY(...) {#__VA_ARGS__, fields<__VA_ARGS__>},
const Entry cmps[] = {CAT(CMP_, SHARD)(CENTRY)};
const Entry flds[] = {CAT(FLD_, SHARD)(FENTRY)};
void run(pbt::Case& c, const Entry& e) {
    c.key(e.name);
    c.label(e.name);
    c.note("type", [&] { return std::string(e.name); });
    e.fn(c);
}
}  // namespace
PROP_(CAT(compare, SHARD), 6) { run(c, cmps[c.s.below(std::size(cmps))]); }
PROP_(CAT(fields, SHARD), 2) { run(c, flds[c.s.below(std::size(flds))]); }
#if SHARD == 0
PROP(every_type_compares, 1) {
    // which operators exist is part of the interface: all six on every reflected type which declares its comparison
    struct R { const char* name; bool ok; };
#define ALL6(...) {#__VA_ARGS__, has_eq<__VA_ARGS__>::value && has_ne<__VA_ARGS__>::value && has_lt<__VA_ARGS__>::value && has_le<__VA_ARGS__>::value && has_gt<__VA_ARGS__>::value && has_ge<__VA_ARGS__>::value},
    static const R t[] = {ALL6(nt::ints) ALL6(nt::deep) ALL6(eosio::name) ALL6(eosio::symbol) ALL6(eosio::symbol_code) ALL6(eosio::extended_symbol) ALL6(eosio::asset) ALL6(eosio::time_point) ALL6(eosio::time_point_sec)
        ALL6(eosio::block_timestamp) ALL6(eosio::microseconds) ALL6(eosio::bytes) ALL6(eosio::checksum160) ALL6(eosio::checksum256) ALL6(eosio::checksum512) ALL6(eosio::webauthn_public_key) ALL6(eosio::webauthn_signature) ALL6(eosio::public_key) ALL6(eosio::private_key) ALL6(eosio::signature)};
    size_t i = c.s.below(std::size(t));
    c.key(t[i].name);
    c.nontrivial();
    c.note("type", [&] { return std::string(t[i].name); });
    if (!t[i].ok) c.fail("missing-operator", std::string(t[i].name) + " lacks a comparison operator");
}
PROP(member_functions, 1) {
    rt::derived_methods v;
    v.a = int32_t(c.s.range(-1000, 1000));
    v.b = gen_utf8(c.s, 20);
    int k = int(c.s.range(-1000, 1000));
    c.key(std::to_string(v.a) + "," + std::to_string(k) + v.b);
    c.nontrivial();
    c.note("a,k", [&] { return std::to_string(v.a) + "," + std::to_string(k); });
    std::vector<std::string> seen;
    eosio::for_each_method<rt::derived_methods>([&](const char* name, auto m) {
        seen.push_back(name);
        using M = decltype(m);
        if constexpr (std::is_same_v<M, int (rt::derived_methods::*)(int)>) c.require((v.*m)(k) == 2 * k, "method", name);
        else if constexpr (std::is_same_v<M, int (rt::methods::*)(int)>) c.require((v.*m)(k) == v.a + k, "method", name);
        else if constexpr (std::is_same_v<M, uint64_t (rt::methods::*)() const>) c.require((v.*m)() == v.b.size(), "method", name);
        else if constexpr (std::is_same_v<M, void (rt::methods::*)()>) { auto w = v; (w.*m)(); c.require(w.b.empty() && w.a == v.a, "method", name); }
        else c.fail("method-type", name);
    });
    c.require(seen == std::vector<std::string>{"twice", "add", "size", "clear"}, "methods", "member functions out of order or missing");
    c.require(nat::str(eosio::convert_to_bin(v)) == nat::wire(v), "methods-serialized", "member functions must not be serialized");
}
PROP(webauthn, 1) {
    eosio::webauthn_public_key a{}, b{};
    for (auto& x : a.key) x = char(c.s.byte());
    a.user_presence = eosio::webauthn_public_key::user_presence_t(c.s.below(3));
    a.rpid = gen_utf8(c.s, 8);
    b = a;
    int m = int(c.s.below(4));
    if (m == 1) b.key[c.s.below(33)] ^= char(1 << c.s.below(8));
    if (m == 2) b.user_presence = eosio::webauthn_public_key::user_presence_t((int(a.user_presence) + 1 + c.s.below(2)) % 3);
    if (m == 3) b.rpid += 'x';
    int r = nat::KeyN<eosio::public_key, Sc::pub>::cv(a, b);
    c.key(std::to_string(m) + a.rpid);
    if (m) c.nontrivial();
    c.require((a == b) == (r == 0) && (a != b) == (r != 0) && (a < b) == (r < 0) && (a > b) == (r > 0) && (a <= b) == (r <= 0) && (a >= b) == (r >= 0), "webauthn", "comparison differs from the members'");
    c.require((m == 0) == (a == b), "webauthn-noticed", "difference not noticed");
}
#endif

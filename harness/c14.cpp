// Sort keys: byte-wise order of encoded keys equals the order of the values; equal values, equal keys; prefix-free.
#include "native_types.hpp"
using namespace ref;

namespace {
struct Entry { const char* name; void (*fn)(pbt::Case&); };
template <class T> constexpr bool keyed = !std::is_same_v<T, eosio::varint32> && !std::is_same_v<T, nt::carr> && !std::is_same_v<T, nt::signed_var>;

inline int key_cmp(const std::vector<char>& a, const std::vector<char>& b) {
    int r = memcmp(a.data(), b.data(), std::min(a.size(), b.size()));
    return r ? (r < 0 ? -1 : 1) : nat::cmp3(a.size(), b.size());
}
template <class T> std::vector<char> key_of(pbt::Case& c, const T& v) {
    std::vector<char> k = eosio::convert_to_key(v);
    using eosio::to_key;
    eosio::size_stream ss;
    to_key(v, ss);
    if (ss.size != k.size()) c.fail("size", "counted " + std::to_string(ss.size) + " of " + std::to_string(k.size()));
    std::vector<char> out;
    eosio::vector_stream vs{out};
    to_key(v, vs);
    if (out != k) c.fail("sink", pbt::hexs(out) + " is not " + pbt::hexs(k));
    std::vector<char> pre{'a', 'b', 'c'};
    eosio::convert_to_key(v, pre);
    if (pre.size() != 3 + k.size() || memcmp(pre.data(), "abc", 3) || !std::equal(k.begin(), k.end(), pre.begin() + 3)) c.fail("append", pbt::hexs(pre));
    return k;
}
template <class T> void relate(pbt::Case& c, const T& a, const T& b, const std::vector<char>& ka, const std::vector<char>& kb, const char* tag) {
    int want = nat::cmp(a, b), got = key_cmp(ka, kb);
    auto both = [&] { return nat::show(a) + " key " + pbt::hexs(ka) + " and " + nat::show(b) + " key " + pbt::hexs(kb); };
    if (want == 0) { if (got) c.fail(std::string(tag) + "-equal", "equal values have different keys: " + both()); c.label("equal"); return; }
    size_t n = std::min(ka.size(), kb.size());
    if (memcmp(ka.data(), kb.data(), n) == 0) c.fail(std::string(tag) + "-prefix", "one key is a prefix of the other: " + both());
    if (got != want) c.fail(std::string(tag) + "-order", "values compare " + std::to_string(want) + ", keys " + std::to_string(got) + ": " + both());
}
template <class T> void check(pbt::Case& c) {
    nat::G g(c.s);
    g.key = true;
    T a{};
    nat::gen(g, a);
    T b = a, d = a;
    bool near = c.s.chance(4, 5);
    if (near) { nat::perturb(g, b); if (c.s.chance(1, 3)) nat::perturb(g, b); c.label("near"); }
    else { g.budget = 40; nat::gen(g, b); }
    d = b;
    nat::perturb(g, d);
    c.key(nat::wire(a));
    c.key(nat::wire(b));
    c.note("a", [&] { return nat::show(a); });
    c.note("b", [&] { return nat::show(b); });
    if (nat::cmp(a, b)) c.nontrivial();
    auto ka = key_of(c, a), kb = key_of(c, b), kd = key_of(c, d);
    relate(c, a, b, ka, kb, "pair");
    relate(c, b, d, kb, kd, "pair2");
    relate(c, a, d, ka, kd, "pair3");
    // as a component followed by something else
    std::tuple<T, uint8_t> ta{a, uint8_t(c.s.byte())}, tb{b, uint8_t(c.s.byte())};
    relate(c, ta, tb, key_of(c, ta), key_of(c, tb), "in-tuple");
}
template <class T> Entry entry(const char* n) {
    if constexpr (keyed<T>) return {n, check<T>};
    else return {n, nullptr};
}
#define ENTRY(...) entry<__VA_ARGS__>(#__VA_ARGS__),
using namespace nat;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifndef SHARD
#define SHARD 0
#endif
const Entry table[] = {CAT(BIN_TYPES_, SHARD)(ENTRY)};
}  // namespace
PROP_(CAT(types, SHARD), 4) {
    auto& e = table[c.s.below(std::size(table))];
    if (!e.fn) throw pbt::Discard{};
    c.key(e.name);
    c.label(e.name);
    c.note("type", [&] { return std::string(e.name); });
    e.fn(c);
}
#if SHARD == 1
// every key width of the variable-length integers
PROP(varuint, 1) {
    nat::G g(c.s);
    eosio::varuint32 a, b;
    nat::perturb(g, a);
    nat::perturb(g, a);
    b = a;
    nat::perturb(g, b);
    if (a.value != b.value) c.nontrivial();
    c.key(nat::wire(a));
    c.key(nat::wire(b));
    c.note("values", [&] { return std::to_string(a.value) + " " + std::to_string(b.value); });
    relate(c, a, b, key_of(c, a), key_of(c, b), "varuint");
    std::vector<eosio::varuint32> va{a}, vb{b, a};
    relate(c, va, vb, key_of(c, va), key_of(c, vb), "varuint-list");
}
// strings and byte sequences built from the bytes the encoding treats specially
PROP(zero_bytes, 1) {
    auto text = [&] { std::string r; for (size_t n = c.s.below(5); n--;) r += char(c.s.pick({0, 0, 1, 2, 255, 128, 127})); return r; };
    std::string s1 = text(), s2 = c.s.flip() ? s1.substr(0, c.s.below(s1.size() + 1)) + text() : text();
    c.key(s1 + "|" + s2);
    if (s1 != s2) c.nontrivial();
    c.note("strings", [&] { return pbt::hexs(s1) + " " + pbt::hexs(s2); });
    using P = std::tuple<std::string, std::string>;
    P p1{s1, text()}, p2{s2, text()};
    relate(c, p1, p2, key_of(c, p1), key_of(c, p2), "strings");
    auto seq = [&](auto tag) {
        using E = decltype(tag);
        std::tuple<std::vector<E>, std::optional<E>, uint8_t> a, b;
        for (char x : s1) std::get<0>(a).push_back(E(x));
        for (char x : s2) std::get<0>(b).push_back(E(x));
        if (c.s.flip()) std::get<1>(a) = E(c.s.pick({0, 1, 255, 128}));
        if (c.s.flip()) std::get<1>(b) = E(c.s.pick({0, 1, 255, 128}));
        std::get<2>(a) = uint8_t(c.s.byte());
        std::get<2>(b) = uint8_t(c.s.byte());
        relate(c, a, b, key_of(c, a), key_of(c, b), "sequence");
    };
    seq(uint8_t());
    seq(int8_t());
    seq(nt::e8());
    seq(uint16_t());
    std::tuple<std::deque<bool>, std::optional<bool>, uint8_t> a, b;
    for (char x : s1) std::get<0>(a).push_back(x & 1);
    for (char x : s2) std::get<0>(b).push_back(x & 1);
    if (c.s.flip()) std::get<1>(a) = c.s.flip();
    if (c.s.flip()) std::get<1>(b) = c.s.flip();
    std::get<2>(a) = uint8_t(c.s.byte());
    relate(c, a, b, key_of(c, a), key_of(c, b), "bools");
    std::tuple<std::set<std::string>, std::map<std::string, uint8_t>, std::list<std::optional<std::string>>> x, y;
    std::get<0>(x) = {s1}; std::get<0>(y) = {s2};
    if (c.s.flip()) std::get<0>(x).insert(text());
    if (c.s.flip()) std::get<1>(y)[text()] = 0;
    if (c.s.flip()) std::get<1>(x)[text()] = 1;
    if (c.s.flip()) std::get<2>(x).push_back(s1);
    if (c.s.flip()) std::get<2>(y).push_back(std::nullopt);
    relate(c, x, y, key_of(c, x), key_of(c, y), "associative");
}
// floating point: all classes, both zeros
PROP(floats, 1) {
    auto both = [&](auto tag) {
        using T = decltype(tag);
        static const T sp[] = {T(0), -T(0), std::numeric_limits<T>::denorm_min(), -std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::min(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), T(1), T(-1)};
        nat::G g(c.s);
        g.key = true;
        T a = c.s.flip() ? sp[c.s.below(11)] : nat::make<T>(g), b = c.s.chance(1, 3) ? sp[c.s.below(11)] : a;
        if (c.s.flip()) nat::perturb(g, b);
        c.key(nat::wire(a) + nat::wire(b));
        if (memcmp(&a, &b, sizeof a)) c.nontrivial();
        c.note("values", [&] { return std::to_string(a) + " " + std::to_string(b); });
        relate(c, a, b, key_of(c, a), key_of(c, b), "float");
        std::optional<T> oa = a, ob = b;
        std::vector<T> va{a}, vb{b, a};
        relate(c, oa, ob, key_of(c, oa), key_of(c, ob), "optional-float");
        relate(c, va, vb, key_of(c, va), key_of(c, vb), "float-list");
    };
    if (c.s.flip()) both(0.0f); else both(0.0);
}
#endif

#ifndef SHARD
#define SHARD 0
#endif
// Fixed-size byte values: byte order through words, comparison, text, binary and keys.
#include "capi.hpp"
#include <array>
#include <eosio/bytes.hpp>
#include <eosio/fixed_bytes.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/from_string.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/to_key.hpp>
using namespace ref;
using eosio::fixed_bytes;

namespace {
Ctx* g_ctx;
Ctx& ctx() {
    if (!g_ctx) {
        g_ctx = new Ctx;
        g_ctx->set_abi(CONTRACT, R"({"version":"eosio::abi/1.0"})");
    }
    return *g_ctx;
}
std::string hexu(const Bytes& b) { std::string h = pbt::hexs(b); for (auto& ch : h) ch = char(toupper(ch)); return h; }
Bytes gen_n(pbt::Source& s, size_t n) {
    Bytes b(n, '\0');
    switch (s.below(4)) {
    case 0: b.assign(n, char(s.pick({0, 0xff, 0x80, 1}))); break;
    case 1: break;
    default: for (auto& x : b) x = char(s.byte()); return b;
    }
    for (size_t k = s.below(4); k; --k) b[s.below(n)] = char(s.byte());
    return b;
}
template <size_t N, class W> Bytes bytes_of(const fixed_bytes<N, W>& v) {
    auto a = v.extract_as_byte_array();
    static_assert(a.size() == N);
    return Bytes(a.begin(), a.end());
}
template <class T, size_t N> std::array<T, (N + sizeof(T) - 1) / sizeof(T)> words_of(const Bytes& b) {  // big-endian, last one padded with zeros
    std::array<T, (N + sizeof(T) - 1) / sizeof(T)> r{};
    for (size_t i = 0; i < N; ++i) r[i / sizeof(T)] = T(r[i / sizeof(T)] | (T(uint8_t(b[i])) << (8 * (sizeof(T) - 1 - i % sizeof(T)))));
    return r;
}
template <class T, size_t N, class W, size_t... I>
fixed_bytes<N, W> from_seq(const std::array<T, sizeof...(I)>& a, std::index_sequence<I...>) {
    return fixed_bytes<N, W>::template make_from_word_sequence<T>(a[I]...);
}
template <class T, size_t N, class W, size_t K> void partial(pbt::Case& c, const std::array<T, (N + sizeof(T) - 1) / sizeof(T)>& w, const Bytes& b) {
    if constexpr (K <= (N + sizeof(T) - 1) / sizeof(T) && K > 0) {
        std::array<T, K> a{};
        T d[K];
        for (size_t i = 0; i < K; ++i) d[i] = a[i] = w[i];
        Bytes want = b.substr(0, std::min(N, K * sizeof(T)));
        want.resize(N);
        if (bytes_of(fixed_bytes<N, W>(a)) != want) c.fail("construct", "from a std::array of " + std::to_string(K) + " words of " + std::to_string(sizeof(T)) + " bytes");
        if (bytes_of(fixed_bytes<N, W>(d)) != want) c.fail("construct", "from a C array of " + std::to_string(K) + " words of " + std::to_string(sizeof(T)) + " bytes");
    }
}
template <class T, size_t N, class W> void words(pbt::Case& c, const fixed_bytes<N, W>& v, const Bytes& b) {
    auto w = words_of<T, N>(b);
    constexpr size_t K = (N + sizeof(T) - 1) / sizeof(T);
    auto e = v.template extract_as_word_array<T>();
    static_assert(std::is_same_v<decltype(e), std::array<T, K>>);
    if (e != w) c.fail("extract", "words of " + std::to_string(sizeof(T)) + " bytes from " + pbt::hexs(b));
    fixed_bytes<N, W> x(w);
    T d[K];
    for (size_t i = 0; i < K; ++i) d[i] = w[i];
    fixed_bytes<N, W> y(d), z = from_seq<T, N, W>(w, std::make_index_sequence<K>{});
    if (bytes_of(x) != b || bytes_of(y) != b || bytes_of(z) != b) c.fail("construct", "from words of " + std::to_string(sizeof(T)) + " bytes of " + pbt::hexs(b));
    if (!(x == v) || !(y == v) || !(z == v) || x != v || x < v || v < x) c.fail("construct", "not equal when made from words of " + std::to_string(sizeof(T)) + " bytes of " + pbt::hexs(b));
    partial<T, N, W, 1>(c, w, b);
    partial<T, N, W, 2>(c, w, b);
    partial<T, N, W, K - 1>(c, w, b);
    partial<T, N, W, K>(c, w, b);
}
template <size_t N, class W> fixed_bytes<N, W> build(pbt::Source& s, const Bytes& b) {
    std::array<uint8_t, N> a;
    for (size_t i = 0; i < N; ++i) a[i] = uint8_t(b[i]);
    switch (s.below(4)) {
    case 0: return fixed_bytes<N, W>(a);
    case 1: return fixed_bytes<N, W>(words_of<uint32_t, N>(b));
    case 2: return fixed_bytes<N, W>(words_of<uint64_t, N>(b));
    default: return fixed_bytes<N, W>(words_of<W, N>(b));
    }
}
template <size_t N, class W> void run(pbt::Case& c, const char* abi_type) {
    using F = fixed_bytes<N, W>;
    auto& s = c.s;
    Bytes b = gen_n(s, N), d = s.chance(2, 3) ? b : gen_n(s, N);
    if (s.chance(3, 4)) d[s.below(N)] = char(s.byte());
    c.note("size", [&] { return std::to_string(N) + " in words of " + std::to_string(sizeof(W)); });
    c.note("bytes", [&] { return pbt::hexs(b) + " " + pbt::hexs(d); });
    c.key(std::to_string(N) + "/" + std::to_string(sizeof(W)) + b + d);
    if (b != Bytes(N, '\0')) c.nontrivial();
    if (b == d) c.label("equal");
    F v = build<N, W>(s, b), w = build<N, W>(s, d);
    if (bytes_of(v) != b) c.fail("bytes", "wrong bytes: " + pbt::hexs(bytes_of(v)) + " for " + pbt::hexs(b));
    if (bytes_of(F()) != Bytes(N, '\0')) c.fail("bytes", "default value is not zero");
    words<uint8_t>(c, v, b);
    words<uint16_t>(c, v, b);
    words<uint32_t>(c, v, b);
    words<uint64_t>(c, v, b);
    words<u128>(c, v, b);
    std::initializer_list<uint8_t> il{uint8_t(b[0]), uint8_t(b[N > 1 ? 1 : 0]), uint8_t(b[N > 2 ? 2 : 0])};
    Bytes ib;
    for (auto x : il) ib += char(x);
    ib.resize(3);
    if (N < 3) ib = ib.substr(0, N);
    ib.resize(N);
    if (bytes_of(F(il)) != ib) c.fail("construct", "from an initializer list");
    // layout
    static_assert(F::num_words() * sizeof(W) - F::padded_bytes() == N && F::num_words() == (N + sizeof(W) - 1) / sizeof(W));
    if (v.size() != F::num_words() || v.get_array() != words_of<W, N>(b) || !std::equal(v.data(), v.data() + v.size(), v.get_array().begin())) c.fail("layout", "data() is not the word array of " + pbt::hexs(b));
    // order
    int o = b < d ? -1 : b > d;
    if ((v == w) != (o == 0) || (v != w) != (o != 0) || (v < w) != (o < 0) || (v > w) != (o > 0) || (v <= w) != (o <= 0) || (v >= w) != (o >= 0))
        c.fail("order", pbt::hexs(b) + " against " + pbt::hexs(d));
    // binary and key
    auto bin = eosio::convert_to_bin(v), key = eosio::convert_to_key(v);
    if (Bytes(bin.begin(), bin.end()) != b) c.fail("bin", pbt::hexs(bin) + " for " + pbt::hexs(b));
    if (Bytes(key.begin(), key.end()) != b) c.fail("key", pbt::hexs(key) + " for " + pbt::hexs(b));
    eosio::size_stream ss;
    to_bin(v, ss);
    if (ss.size != N) c.fail("bin", "size_stream counts " + std::to_string(ss.size));
    {
        Bytes in = b + gen_bytes(s, 2);
        std::vector<char> h(in.begin(), in.end());
        h.shrink_to_fit();
        eosio::input_stream st(h.data(), h.size());
        F x = w;
        from_bin(x, st);
        if (bytes_of(x) != b || !(x == v) || st.remaining() != in.size() - N) c.fail("bin", "from_bin of " + pbt::hexs(in));
        size_t cut = s.below(N);
        std::vector<char> k(b.begin(), b.begin() + cut);
        k.shrink_to_fit();
        eosio::input_stream st2(k.data(), k.size());
        bool t = false;
        try { from_bin(x, st2); } catch (std::exception&) { t = true; }
        if (!t) c.fail("bin", "accepts " + std::to_string(cut) + " bytes");
    }
    // text
    std::string text = eosio::convert_to_json(v), want = "\"" + hexu(b) + "\"";
    if (text != want) c.fail("print", text + " for " + pbt::hexs(b));
    std::string t = hex_any(s, b);
    bool valid = true;
    switch (s.below(6)) {
    case 0: t += s.flip() ? "00" : std::string(1, "0aG "[s.below(4)]); valid = false; break;
    case 1: t.resize(t.size() - 1 - s.below(std::min<size_t>(3, t.size()))); valid = false; break;
    case 2: t[s.below(t.size())] = "gGxX -+/:@`\x01\x7f"[s.below(13)]; valid = false; break;
    case 3: if (s.chance(1, 4)) { t = s.pick({std::string(), std::string("0x") + t, " " + t, t + " ", t + t}); valid = false; } break;
    default: break;
    }
    c.note("text", [&] { return t; });
    F x = w;
    bool ok = true;
    std::string doc = json_str(t) + std::string(4, '\0');
    eosio::json_token_stream js(doc.data());
    try { from_json(x, js); js.get_end(); } catch (std::exception&) { ok = false; }
    if (ok != valid) c.fail("text", std::string(ok ? "accepts " : "rejects ") + t + " for " + std::to_string(N) + " bytes");
    if (ok && (bytes_of(x) != b || !(x == v))) c.fail("text", t + " read as " + pbt::hexs(bytes_of(x)));
    if (abi_type) {
        Ctx& k = ctx();
        std::string out, jout;
        bool aok = k.j2b(CONTRACT, abi_type, json_str(t), s.flip(), out);
        if (aok != valid) c.fail("abi", std::string(aok ? "accepts " : "rejects ") + t);
        if (aok && out != b) c.fail("abi", t + " gives " + pbt::hexs(out));
        if (!k.b2j(CONTRACT, abi_type, b, jout) || jout != want) c.fail("abi", "prints " + jout);
    }
}
}  // namespace

#if SHARD == 0
PROP(c160, 3) { run<20, uint32_t>(c, "checksum160"); }
PROP(c256, 3) { run<32, uint64_t>(c, "checksum256"); }
PROP(c512, 3) { run<64, uint64_t>(c, "checksum512"); }
#endif
#if SHARD == 1
PROP(s1, 1) { run<1, uint8_t>(c, nullptr); }
PROP(s1q, 1) { run<1, uint64_t>(c, nullptr); }
PROP(s3, 1) { run<3, uint16_t>(c, nullptr); }
PROP(s5, 1) { run<5, uint64_t>(c, nullptr); }
#endif
#if SHARD == 2
PROP(s7, 1) { run<7, uint32_t>(c, nullptr); }
PROP(s8, 1) { run<8, uint64_t>(c, nullptr); }
PROP(s9, 1) { run<9, uint64_t>(c, nullptr); }
PROP(s13, 1) { run<13, uint8_t>(c, nullptr); }
#endif
#if SHARD == 3
PROP(s16, 1) { run<16, u128>(c, nullptr); }
PROP(s17, 1) { run<17, u128>(c, nullptr); }
PROP(s20q, 1) { run<20, uint64_t>(c, nullptr); }
PROP(s33, 1) { run<33, uint32_t>(c, nullptr); }
#endif

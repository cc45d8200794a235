// Native binary serialization: reference bytes, agreement of all sinks, exact consumption, round trip.
#include "native_types.hpp"
using namespace ref;

namespace {
struct Entry { const char* name; void (*fn)(pbt::Case&); };

template <class T> void check(pbt::Case& c) {
    nat::G g(c.s);
    T v{};
    nat::gen(g, v);
    Bytes w = nat::wire(v);
    c.key(w);
    if (w.size() > 1) c.nontrivial();
    c.note("wire", [&] { return pbt::hexs(w); });

    // every sink: same bytes, same count
    std::vector<char> out = eosio::convert_to_bin(v);
    if (nat::str(out) != w) c.fail("encode", "got " + pbt::hexs(out) + " expected " + pbt::hexs(w));
    using eosio::to_bin;
    using eosio::from_bin;
    eosio::size_stream ss;
    to_bin(v, ss);
    if (ss.size != w.size()) c.fail("size_stream", "counted " + std::to_string(ss.size) + " of " + std::to_string(w.size()));
    std::vector<char> vs{'p', 'q'};
    eosio::vector_stream vst{vs};
    to_bin(v, vst);
    if (nat::str(vs) != "pq" + w) c.fail("vector_stream", "got " + pbt::hexs(vs));
    std::vector<char> pre{'x', '\0', 'y'};
    eosio::convert_to_bin(v, pre);
    if (nat::str(pre) != std::string("x\0y", 3) + w) c.fail("append", "got " + pbt::hexs(pre));
    {
        size_t room = c.s.flip() ? w.size() : w.size() + c.s.below(5);
        std::vector<char> buf(room, '\x5a');
        buf.shrink_to_fit();
        eosio::fixed_buf_stream f(buf.data(), buf.size());
        to_bin(v, f);
        if (size_t(f.pos - buf.data()) != w.size() || nat::str(buf) != w + Bytes(room - w.size(), '\x5a')) c.fail("fixed_buf", "got " + pbt::hexs(buf));
    }
    if (!w.empty()) {
        // one byte (or more) too small: fails, and nothing beyond the buffer is touched
        size_t room = c.s.flip() ? w.size() - 1 : c.s.below(w.size());
        std::vector<char> buf(room + 8, '\x5a');
        bool threw = false;
        eosio::fixed_buf_stream f(buf.data(), room);
        try { to_bin(v, f); } catch (std::exception&) { threw = true; }
        if (!threw) c.fail("fixed_buf-overrun", "no error for a buffer of " + std::to_string(room) + " of " + std::to_string(w.size()));
        if (nat::str(buf).substr(room) != Bytes(8, '\x5a')) c.fail("fixed_buf-overwrite", "bytes past the buffer changed");
        if (w.substr(0, f.pos - buf.data()) != nat::str(buf).substr(0, f.pos - buf.data())) c.fail("fixed_buf-partial", "wrong bytes before the failure");
    }
    // read back, into a fresh and into a used object; exact consumption
    Bytes tail = c.s.flip() ? Bytes() : gen_bytes(c.s, 6);
    Bytes in = w + tail;
    std::vector<char> src(in.begin(), in.end());
    src.shrink_to_fit();
    for (int round = 0; round < 2; ++round) {
        T r{};
        if (round) {
            nat::G g2(c.s);
            g2.budget = 10;
            nat::gen(g2, r);
        }
        eosio::input_stream is(src);
        try { from_bin(r, is); } catch (std::exception& e) { c.fail(round ? "decode-in-place" : "decode", std::string("own bytes rejected: ") + e.what()); }
        Bytes back = nat::wire(r);
        if (back != w) c.fail(round ? "in-place-value" : "value", "got " + pbt::hexs(back) + " expected " + pbt::hexs(w));
        if (is.remaining() != tail.size()) c.fail("consumed", "left " + std::to_string(is.remaining()) + " expected " + std::to_string(tail.size()));
    }
    {
        T r = eosio::convert_from_bin<T>(src);
        if (nat::wire(r) != w) c.fail("convert_from_bin", "value differs");
        eosio::input_stream is(src);
        T q = from_bin<T>(is);
        if (nat::wire(q) != w) c.fail("from_bin-returned", "value differs");
        if (is.remaining() != tail.size()) c.fail("consumed", "left " + std::to_string(is.remaining()) + " expected " + std::to_string(tail.size()));
    }
    // truncated input is rejected
    if (!w.empty()) {
        int tries = w.size() <= 16 ? int(w.size()) : 6;
        for (int i = 0; i < tries; ++i) {
            size_t n = w.size() <= 16 ? size_t(i) : i == 0 ? w.size() - 1 : c.s.below(w.size());
            std::vector<char> cut(w.begin(), w.begin() + n);
            cut.shrink_to_fit();
            T r{};
            bool threw = false;
            eosio::input_stream is(cut);
            try { from_bin(r, is); } catch (std::exception&) { threw = true; }
            if (!threw) c.fail("truncated", "accepted the first " + std::to_string(n) + " of " + std::to_string(w.size()) + " bytes: " + pbt::hexs(cut));
            if (is.pos < cut.data() || is.pos > cut.data() + cut.size()) c.fail("truncated-pos", "position outside the buffer");
        }
    }
}
#define ENTRY(...) {#__VA_ARGS__, check<__VA_ARGS__>},
using namespace nat;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifndef SHARD
#define SHARD 0
#endif
const Entry table[] = {CAT(BIN_TYPES_, SHARD)(ENTRY)};
}  // namespace
PROP_(CAT(types, SHARD), 4) {
    auto& e = table[c.s.below(std::size(table))];
    c.key(e.name);
    c.label(e.name);
    c.note("type", [&] { return std::string(e.name); });
    e.fn(c);
}
#if SHARD == 0
// C arrays must match in size; views share the input's memory
PROP(carray_size, 1) {
    size_t n = c.s.below(6);
    Bytes w;
    put_varuint(w, n);
    for (size_t i = 0; i < n * 4; ++i) w += char(c.s.byte());
    w += "0123456789abcdef";
    c.key(w);
    c.nontrivial();
    std::vector<char> in(w.begin(), w.end());
    struct { uint32_t a[3]; } x{};
    eosio::input_stream is(in);
    bool ok = true;
    try { eosio::from_bin(x.a, is); } catch (std::exception&) { ok = false; }
    c.note("count", [&] { return std::to_string(n); });
    c.require(ok == (n == 3), "carray", "array of 3 accepted another count");
    if (ok) c.require(memcmp(x.a, w.data() + 1, 12) == 0, "carray-value", "wrong elements");
    std::string s[3];
    Bytes w2;
    put_varuint(w2, n);
    for (size_t i = 0; i < n; ++i) { put_varuint(w2, i); w2 += Bytes(i, 'c'); }
    w2 += Bytes(8, '\0');
    std::vector<char> in2(w2.begin(), w2.end());
    eosio::input_stream is2(in2);
    ok = true;
    try { eosio::from_bin(s, is2); } catch (std::exception&) { ok = false; }
    c.require(ok == (n == 3), "carray-strings", "array of 3 accepted another count");
}
PROP(views, 1) {
    Bytes a = gen_bytes(c.s, 300), b = gen_bytes(c.s, 40);
    Bytes w;
    put_varuint(w, a.size()); w += a;
    put_varuint(w, b.size()); w += b;
    c.key(w);
    if (!a.empty()) c.nontrivial();
    c.note("parts", [&] { return pbt::hexs(a) + " " + pbt::hexs(b); });
    std::vector<char> out;
    eosio::vector_stream vs{out};
    eosio::to_bin(eosio::input_stream(a), vs);
    eosio::to_bin(std::string_view(b), vs);
    if (nat::str(out) != w) c.fail("view-encode", pbt::hexs(out));
    out.shrink_to_fit();
    eosio::input_stream is(out), va;
    std::string_view vb;
    eosio::from_bin(va, is);
    eosio::from_bin(vb, is);
    c.require(is.remaining() == 0, "view-consumed", "bytes left over");
    c.require(std::string(va.pos, va.end) == a && vb == b, "view-value", "view differs from the bytes written");
    c.require(va.pos >= out.data() && vb.data() + vb.size() <= out.data() + out.size(), "view-storage", "view outside the input");
    size_t cut = c.s.below(out.size());
    std::vector<char> t(out.begin(), out.begin() + cut);
    t.shrink_to_fit();
    eosio::input_stream ts(t), ta;
    std::string_view tb;
    bool threw = false;
    try { eosio::from_bin(ta, ts); eosio::from_bin(tb, ts); } catch (std::exception&) { threw = true; }
    c.require(threw, "view-truncated", "truncated view accepted");
}
#endif

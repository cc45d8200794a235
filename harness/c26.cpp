// Histories over input and output streams against a byte-string model; exact-size heap buffers under ASan.
#include "ref.hpp"
#include <array>
#include <eosio/from_bin.hpp>
#include <eosio/stream.hpp>
#include <eosio/to_bin.hpp>
#include <memory>
using namespace ref;

namespace {
struct Packed3 { uint8_t a[3]; };
size_t gen_len(pbt::Source& s, size_t rem) {
    switch (s.below(8)) {
    case 0: return rem;
    case 1: return rem + 1;
    case 2: return rem ? rem - 1 : 0;
    case 3: return s.pick({size_t(-1), size_t(-2), size_t(1) << 63, (size_t(1) << 63) - 1, size_t(1) << 32, size_t(UINT32_MAX), ~rem, ~rem + 1, ~rem + 2});
    case 4: return size_t(s.below(rem + 4));
    default: return size_t(s.below(5));
    }
}
std::unique_ptr<char[]> heap(const Bytes& b) {  // exactly b.size() bytes
    std::unique_ptr<char[]> p(new char[b.size()]);
    memcpy(p.get(), b.data(), b.size());
    return p;
}
}  // namespace

PROP(input, 4) {
    auto& s = c.s;
    Bytes data = gen_bytes(s, 200);
    if (data.empty() && s.chance(3, 4)) data = "x";
    auto mem = heap(data);
    std::vector<char> vec(data.begin(), data.end());
    vec.shrink_to_fit();
    const char* base = mem.get();
    eosio::input_stream st;
    switch (s.below(4)) {
    case 0: st = eosio::input_stream(mem.get(), data.size()); break;
    case 1: st = eosio::input_stream(mem.get(), mem.get() + data.size()); break;
    case 2: st = eosio::input_stream(vec); base = vec.data(); break;
    default: st = eosio::input_stream(std::string_view(mem.get(), data.size())); break;
    }
    c.require(eosio::input_stream().remaining() == 0, "construct", "default stream is not empty");
    size_t pos = 0;
    int ok = 0, failed = 0;
    std::string log;
    struct Saved { eosio::input_stream st; size_t pos; };
    std::vector<Saved> saved;
    c.note("data", [&] { return pbt::hexs(data); });
    size_t steps = 1 + s.below(14);
    for (size_t i = 0; i < steps; ++i) {
        size_t rem = data.size() - pos, n = gen_len(s, rem);
        bool fits = n <= rem, threw = false;
        int op = int(s.below(9));
        std::string what;
        auto bad = [&](const std::string& m) {
            c.note("history", [&] { return log + what; });
            c.fail("input", what + " at " + std::to_string(pos) + " of " + std::to_string(data.size()) + ": " + m);
        };
        auto run = [&](auto&& f) { try { f(); } catch (std::exception&) { threw = true; } };
        auto expect = [&](bool should) { if (threw == should) bad(threw ? "fails" : "does not fail"); };
        switch (op) {
        case 0: case 1: {
            what = "read(" + std::to_string(n) + ")";
            std::unique_ptr<char[]> d(new char[fits ? n : 1]);
            run([&] { st.read(d.get(), n); });
            expect(fits);
            if (!threw && memcmp(d.get(), data.data() + pos, n)) bad("wrong bytes");
            if (!threw) pos += n;
            break;
        }
        case 2:
            what = "skip(" + std::to_string(n) + ")";
            run([&] { st.skip(n); });
            expect(fits);
            if (!threw) pos += n;
            break;
        case 3: {
            what = "read_reuse_storage(" + std::to_string(n) + ")";
            const char* r = nullptr;
            run([&] { st.read_reuse_storage(r, n); });
            expect(fits);
            if (!threw && r != base + pos) bad("wrong place");
            if (!threw) pos += n;
            break;
        }
        case 4:
            what = "check_available(" + std::to_string(n) + ")";
            run([&] { st.check_available(n); });
            expect(fits);
            break;
        case 5: {
            auto raw = [&](auto x, const char* nm) {
                what = std::string("read_raw<") + nm + ">";
                memset(&x, 0x5a, sizeof x);
                run([&] { st.read_raw(x); });
                expect(sizeof x <= rem);
                if (!threw && memcmp(&x, data.data() + pos, sizeof x)) bad("wrong value");
                if (!threw) pos += sizeof x;
            };
            switch (s.below(5)) {
            case 0: raw(uint8_t(), "uint8_t"); break;
            case 1: raw(uint16_t(), "uint16_t"); break;
            case 2: raw(uint64_t(), "uint64_t"); break;
            case 3: raw(Packed3(), "3 bytes"); break;
            default: raw(std::array<char, 16>(), "16 bytes"); break;
            }
            break;
        }
        case 6: {  // a length-delimited slice
            what = "slice";
            size_t p = pos;
            uint64_t len = 0;
            int sh = 0;
            bool good = false, strange = false;
            while (p < data.size()) {
                uint8_t b = data[p++];
                if (sh >= 63) { strange = true; break; }
                len |= uint64_t(b & 127) << sh;
                sh += 7;
                if (!(b & 128)) { good = true; break; }
            }
            if (strange || sh > 35) { what = "none"; break; }  // over-long lengths: see C21
            good = good && len <= data.size() - p;
            eosio::input_stream sub;
            size_t before = pos;
            run([&] { from_bin(sub, st); });
            expect(good);
            if (threw) {  // the length may have been taken
                if (st.get_pos() < base + before || st.get_pos() > base + p) bad("moved to " + std::to_string(st.get_pos() - base));
                pos = size_t(st.get_pos() - base);
            } else {
                if (sub.get_pos() != base + p || sub.remaining() != len) bad("wrong slice");
                pos = p + len;
                if (s.flip()) { saved.push_back({sub, p}); if (len < data.size() - p) saved.pop_back(); }
            }
            break;
        }
        case 7:
            what = "copy";
            saved.push_back({st, pos});
            break;
        default:
            what = "restore";
            if (!saved.empty()) { auto& x = saved[s.below(saved.size())]; st = x.st; pos = x.pos; }
        }
        if (st.get_pos() != base + pos || st.remaining() != data.size() - pos || st.end != base + data.size()) bad("position is " + std::to_string(st.get_pos() - base) + ", not " + std::to_string(pos));
        log += what + (threw ? " fails; " : "; ");
        ++(threw ? failed : ok);
    }
    c.note("history", [&] { return log; });
    c.key(data);
    c.key(log);
    if (ok >= 2 && !data.empty()) c.nontrivial();
    if (failed) c.label("with failures");
}

namespace {
template <size_t N> struct Packed { uint8_t a[N]; };
template <size_t N, class S> void raw_1(S& st, const Bytes& b) { if (b.size() == N) { Packed<N> v; memcpy(&v, b.data(), N); st.write_raw(v); } }
template <size_t... N, class S> void raw_i(S& st, const Bytes& b, std::index_sequence<N...>) { (raw_1<N + 1>(st, b), ...); }
template <class S> void raw_n(S& st, const Bytes& b) {
    if (b.size() == 4) { uint32_t v; memcpy(&v, b.data(), 4); st.write_raw(v); return; }
    if (b.size() == 16) { unsigned __int128 v; memcpy(&v, b.data(), 16); st.write_raw(v); return; }
    raw_i(st, b, std::make_index_sequence<40>());
}
template <size_t N, class S> void arr_1(S& st, const Bytes& b) { if (b.size() == N) { char a[N]; memcpy(a, b.data(), N); st.write(a); } }
template <size_t... N, class S> void arr_i(S& st, const Bytes& b, std::index_sequence<N...>) { (arr_1<N + 1>(st, b), ...); }
// one write, made alike on any stream
struct Write { int kind; Bytes b; };
template <class S> void apply(S& st, const Write& w, const char* exact) {
    switch (w.kind) {
    case 0: st.write(w.b[0]); break;
    case 1: st.write(exact, w.b.size()); break;
    case 2: { uint16_t v; memcpy(&v, w.b.data(), 2); st.write_raw(v); break; }
    case 3: { uint64_t v; memcpy(&v, w.b.data(), 8); st.write_raw(v); break; }
    case 4: raw_n(st, w.b); break;
    default: { uint8_t v = uint8_t(w.b[0]); st.write_raw(v); break; }
    }
}
template <class S> void apply_arr(S& st, const Write& w) {
    arr_i(st, w.b, std::make_index_sequence<24>());
}
Write gen_write(pbt::Source& s, size_t room) {
    Write w;
    w.kind = int(s.below(7));
    size_t n;
    switch (w.kind) {
    case 0: case 5: n = 1; break;
    case 1: n = s.chance(1, 3) ? room + s.below(3) - (room ? s.below(2) : 0) : s.below(20); break;
    case 2: n = 2; break;
    case 3: n = 8; break;
    case 4: n = 1 + s.below(40); break;
    default: n = 1 + s.below(24); break;
    }
    for (size_t i = 0; i < n; ++i) w.b += char(s.byte());
    return w;
}
}  // namespace

PROP(output, 4) {
    auto& s = c.s;
    size_t cap = s.below(3) ? s.below(64) : s.size(300);
    Bytes guard;
    std::unique_ptr<char[]> mem(new char[cap]);
    memset(mem.get(), 0xa5, cap);
    eosio::fixed_buf_stream fb(mem.get(), cap);
    eosio::size_stream ss;
    std::vector<char> v;
    Bytes pre = gen_bytes(s, 4);
    v.assign(pre.begin(), pre.end());
    eosio::vector_stream vs(v);
    Bytes all = pre, fixed;
    size_t total = 0;
    std::string log = "capacity " + std::to_string(cap) + ": ";
    int failures = 0;
    size_t steps = 1 + s.below(16);
    for (size_t i = 0; i < steps; ++i) {
        Write w = gen_write(s, cap - fixed.size());
        log += "write " + std::to_string(w.kind) + " of " + std::to_string(w.b.size()) + "; ";
        auto src = heap(w.b);
        bool fits = w.b.size() <= cap - fixed.size(), threw = false;
        try {
            if (w.kind == 6) apply_arr(fb, w);
            else apply(fb, w, src.get());
        } catch (std::exception&) { threw = true; }
        auto bad = [&](const std::string& m) { c.note("history", [&] { return log; }); c.fail("output", m + " (" + log + ")"); };
        if (threw == fits) bad(threw ? "a write that fits fails" : "a write that does not fit succeeds");
        if (!threw) fixed += w.b;
        failures += threw;
        if (fb.pos != mem.get() + fixed.size() || fb.end != mem.get() + cap) bad("position in the buffer");
        if (memcmp(mem.get(), fixed.data(), fixed.size())) bad("wrong bytes in the buffer");
        for (size_t k = fixed.size(); k < cap; ++k) if (mem[k] != char(0xa5)) bad("bytes after the position changed");
        if (w.kind == 6) { apply_arr(ss, w); vs.write(w.b.data(), w.b.size()); }
        else { apply(ss, w, src.get()); apply(vs, w, src.get()); }
        all += w.b;
        total += w.b.size();
        if (ss.size != total) bad("size_stream counts " + std::to_string(ss.size) + " of " + std::to_string(total));
        if (Bytes(v.begin(), v.end()) != all) bad("vector_stream holds " + pbt::hexs(v));
    }
    c.note("history", [&] { return log; });
    c.key(log);
    c.key(all);
    if (steps >= 2) c.nontrivial();
    if (failures) c.label("with failures");
    // a stream starting with an exhausted buffer
    eosio::fixed_buf_stream z(mem.get() + cap, 0);
    bool t = false;
    try { z.write('x'); } catch (std::exception&) { t = true; }
    if (!t) c.fail("output", "an empty buffer accepts a byte");
}

PROP(pretty, 1) {  // indentation
    auto& s = c.s;
    std::vector<char> v;
    eosio::pretty_stream<eosio::vector_stream> ps(v);
    eosio::pretty_stream<eosio::size_stream> zs;
    eosio::vector_stream plain(v);
    if (s.chance(1, 3)) ps.indent_size = zs.indent_size = int(s.below(9));
    int unit = ps.indent_size;
    size_t indent = 0;
    Bytes want;
    std::string log = "unit " + std::to_string(unit) + ": ";
    size_t steps = 1 + s.below(20);
    for (size_t i = 0; i < steps; ++i) {
        switch (s.below(5)) {
        case 0: increase_indent(ps); increase_indent(zs); increase_indent(plain); indent += unit; log += "in "; break;
        case 1: {
            bool t = false, u = false;
            try { decrease_indent(ps); } catch (std::exception&) { t = true; }
            try { decrease_indent(zs); } catch (std::exception&) { u = true; }
            decrease_indent(plain);
            if (t != (indent < size_t(unit)) || t != u) c.fail("pretty", "decreasing the indentation " + std::string(t ? "fails" : "does not fail") + " (" + log + ")");
            if (!t) indent -= unit;
            log += "out ";
            break;
        }
        case 2: write_newline(ps); write_newline(zs); write_newline(plain); want += "\n" + Bytes(indent, ' '); log += "newline "; break;
        case 3: write_colon(ps); write_colon(zs); want += ": "; log += "colon "; break;
        default: { Bytes b = gen_bytes(s, 5); ps.write(b.data(), b.size()); zs.write(b.data(), b.size()); want += b; log += "write "; }
        }
        if (Bytes(v.begin(), v.end()) != want || zs.size != want.size()) c.fail("pretty", "holds " + pbt::quote(Bytes(v.begin(), v.end())) + ", not " + pbt::quote(want) + " (" + log + ")");
    }
    write_colon(plain);
    if (Bytes(v.begin(), v.end()) != want + ":") c.fail("pretty", "plain colon");
    c.key(log);
    c.note("history", [&] { return log; });
    if (steps >= 3) c.nontrivial();
}
// to_bin's hex and varuint helpers on a nearly full buffer; small_buffer
PROP(buffers, 1) {
    auto& s = c.s;
    eosio::small_buffer<40> b;
    size_t n = s.below(41);
    Bytes w;
    for (size_t i = 0; i < n; ++i) { char ch = char(s.byte()); *b.pos++ = ch; w.insert(w.begin(), ch); }
    b.reverse();
    c.key(w);
    if (n > 1) c.nontrivial();
    c.note("bytes", [&] { return pbt::hexs(w); });
    if (Bytes(b.data, b.pos) != w) c.fail("reverse", "small_buffer reversed to " + pbt::hexs(Bytes(b.data, b.pos)));
    size_t cap = s.below(12);
    std::unique_ptr<char[]> mem(new char[cap]);
    eosio::fixed_buf_stream fs(mem.get(), cap);
    std::string str = gen_bytes(s, 12);
    Bytes e;
    put_varuint(e, str.size());
    e += str;
    bool t = false;
    try { to_bin(str, fs); } catch (std::exception&) { t = true; }
    if (t != (e.size() > cap)) c.fail("output", "a string of " + std::to_string(str.size()) + " bytes into " + std::to_string(cap));
    if (!t && Bytes(mem.get(), fs.pos) != e) c.fail("output", "string written as " + pbt::hexs(Bytes(mem.get(), fs.pos)));
    if (fs.pos > fs.end || memcmp(mem.get(), e.data(), size_t(fs.pos - mem.get()))) c.fail("output", "partial output is not a prefix");
}

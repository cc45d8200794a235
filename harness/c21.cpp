// Variable-length integers: wire form, decoding limits, text and in-memory operators.
#include "capi.hpp"
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/to_key.hpp>
#include <eosio/varint.hpp>
using namespace ref;
using eosio::varint32;
using eosio::varuint32;

namespace {
uint32_t gen_u(pbt::Source& s) {
    switch (s.below(4)) {
    case 0: {  // around the points where the encoding grows
        int k = int(s.below(5)) * 7;
        return uint32_t((uint64_t(1) << (k + 7 > 32 ? 32 : k + 7)) + uint64_t(s.range(-2, 2)));
    }
    case 1: return uint32_t(s.raw(4));
    default: return uint32_t(s.uint_bits(32));
    }
}
int32_t gen_i(pbt::Source& s) {
    switch (s.below(4)) {
    case 0: {
        int k = int(s.below(5)) * 7;
        int64_t v = int64_t(uint64_t(1) << (k + 6 > 31 ? 31 : k + 6)) + s.range(-2, 2);
        return int32_t(uint32_t(s.flip() ? v : -v));
    }
    case 1: return int32_t(s.raw(4));
    default: return int32_t(s.int_bits(32));
    }
}
size_t vlen(uint32_t v) { size_t n = 1; while (v >>= 7) ++n; return n; }
Ctx* g_ctx;
Ctx& ctx() {
    if (!g_ctx) {
        g_ctx = new Ctx;
        g_ctx->set_abi(CONTRACT, R"({"version":"eosio::abi/1.0","structs":[{"name":"vv","base":"","fields":[{"name":"u","type":"varuint32"},{"name":"i","type":"varint32"},{"name":"e","type":"uint8"}]}]})");
    }
    return *g_ctx;
}
// outcome of a decoder on exactly these bytes
struct Out { bool ok; int64_t v; size_t used; };
template <class F> Out decode(const Bytes& b, F&& f) {
    std::vector<char> x(b.begin(), b.end());
    x.shrink_to_fit();
    eosio::input_stream st(x.data(), x.size());
    Out o{true, 0, 0};
    try { o.v = f(st); } catch (std::exception&) { o.ok = false; }
    o.used = x.size() - st.remaining();
    return o;
}
std::string show(const Out& o) { return o.ok ? std::to_string(o.v) + " using " + std::to_string(o.used) + " bytes" : "rejected"; }
struct Dec { const char* n; bool sgn; Out (*f)(const Bytes&); };
const Dec decs[] = {
    {"varuint32_from_bin", false, [](const Bytes& b) { return decode(b, [](auto& st) { uint32_t v = 0xdeadbeef; eosio::varuint32_from_bin(v, st); return int64_t(v); }); }},
    {"varint32_from_bin", true, [](const Bytes& b) { return decode(b, [](auto& st) { int32_t v = 0x1eadbeef; eosio::varint32_from_bin(v, st); return int64_t(v); }); }},
    {"from_bin(varuint32)", false, [](const Bytes& b) { return decode(b, [](auto& st) { varuint32 v(77); from_bin(v, st); return int64_t(v.value); }); }},
    {"from_bin(varint32)", true, [](const Bytes& b) { return decode(b, [](auto& st) { varint32 v(77); from_bin(v, st); return int64_t(v.value); }); }},
    {"from_bin<varuint32>", false, [](const Bytes& b) { return decode(b, [](auto& st) { return int64_t(eosio::from_bin<varuint32>(st).value); }); }},
    {"from_bin<varint32>", true, [](const Bytes& b) { return decode(b, [](auto& st) { return int64_t(eosio::from_bin<varint32>(st).value); }); }},
};
int64_t unzig(uint32_t z) { return z & 1 ? -int64_t(z / 2) - 1 : int64_t(z / 2); }
template <class T> Bytes via_all(pbt::Case& c, const T& v) {
    auto a = eosio::convert_to_bin(v);
    Bytes r(a.begin(), a.end());
    eosio::size_stream ss;
    to_bin(v, ss);
    if (ss.size != r.size()) c.fail("sink", "size_stream counts " + std::to_string(ss.size) + " for " + pbt::hexs(r));
    std::vector<char> f(r.size(), 0x55);
    f.shrink_to_fit();
    eosio::fixed_buf_stream fs(f.data(), f.size());
    to_bin(v, fs);
    if (Bytes(f.begin(), f.end()) != r || fs.pos != fs.end) c.fail("sink", "fixed buffer differs");
    if (r.size() > 1) {
        std::vector<char> g(r.size() - 1);
        g.shrink_to_fit();
        eosio::fixed_buf_stream gs(g.data(), g.size());
        bool t = false;
        try { to_bin(v, gs); } catch (std::exception&) { t = true; }
        if (!t) c.fail("sink", "short buffer accepted");
    }
    return r;
}
template <class T> void json_both(pbt::Case& c, const T& v, int64_t n) {
    std::string t = eosio::convert_to_json(v);
    if (t != std::to_string(n)) c.fail("print", t + " for " + std::to_string(n));
    for (const std::string& form : {t, "\"" + t + "\"", " " + t + " "}) {
        std::string buf = form + std::string(4, '\0');
        eosio::json_token_stream js(buf.data());
        T r(1);
        try { from_json(r, js); js.get_end(); } catch (std::exception& e) { c.fail("read-text", form + ": " + e.what()); }
        if (int64_t(r.value) != n) c.fail("read-text", form + " read as " + std::to_string(r.value));
    }
}
template <class A, class B> void all_ops(pbt::Case& c, const char* what, const A& a, const B& b, int64_t x, int64_t y) {
    auto q = [&](const char* op, bool got, bool want) {
        if (got != want) c.fail("operator", std::string(what) + " " + std::to_string(x) + op + std::to_string(y) + " is " + (got ? "true" : "false"));
    };
    q("==", a == b, x == y);
    q("!=", a != b, x != y);
    q("<", a < b, x < y);
    q(">=", a >= b, x >= y);
}
}  // namespace

PROP(roundtrip, 3) {
    auto& s = c.s;
    uint32_t u = gen_u(s);
    int32_t i = s.chance(1, 3) ? int32_t(unzig(u)) : gen_i(s);
    Bytes wu, wi;
    put_varuint(wu, u);
    put_varuint(wi, zigzag(i));
    c.note("values", [&] { return std::to_string(u) + " " + std::to_string(i); });
    c.key(wu + "/" + wi);
    if (u > 127 || i < 0 || i > 63) c.nontrivial();
    c.require(wu.size() == vlen(u) && wu.size() <= 5, "oracle", "reference encoder is wrong");
    Bytes a = via_all(c, varuint32(u)), b = via_all(c, varint32(i));
    if (a != wu) c.fail("encode", "varuint32 " + std::to_string(u) + " as " + pbt::hexs(a));
    if (b != wi) c.fail("encode", "varint32 " + std::to_string(i) + " as " + pbt::hexs(b));
    std::vector<char> p{'x'};
    eosio::push_varuint32(p, u);
    if (Bytes(p.begin(), p.end()) != "x" + wu) c.fail("encode", "push_varuint32 of " + std::to_string(u));
    Bytes tail = gen_bytes(s, 3);
    for (auto& d : decs) {
        const Bytes& w = d.sgn ? wi : wu;
        int64_t want = d.sgn ? int64_t(i) : int64_t(u);
        Out o = d.f(w + tail);
        if (!o.ok || o.v != want || o.used != w.size()) c.fail("decode", std::string(d.n) + " of " + pbt::hexs(w + tail) + " gives " + show(o));
        for (size_t n = 0; n < w.size(); ++n) {
            o = d.f(w.substr(0, n));
            if (o.ok) c.fail("truncated", std::string(d.n) + " of " + pbt::hexs(w.substr(0, n)) + " gives " + show(o));
        }
    }
    json_both(c, varuint32(u), u);
    json_both(c, varint32(i), i);
    auto ku = eosio::convert_to_key(varuint32(u)), kv = eosio::convert_to_key(varuint32(u + 1));
    if (u + 1 > u && !(std::string(ku.begin(), ku.end()) < std::string(kv.begin(), kv.end())))
        c.fail("key", "keys of " + std::to_string(u) + " and its successor are not in order");
    // through an ABI
    Ctx& x = ctx();
    std::string js, bin, want = "{\"u\":" + std::to_string(u) + ",\"i\":" + std::to_string(i) + ",\"e\":7}";
    if (!x.b2j(CONTRACT, "vv", wu + wi + "\x07", js)) c.fail("abi", "bin_to_json: " + x.error());
    if (js != want) c.fail("abi", "bin_to_json gives " + js);
    if (!x.j2b(CONTRACT, "vv", js, s.flip(), bin)) c.fail("abi", "json_to_bin: " + x.error());
    if (bin != wu + wi + "\x07") c.fail("abi", "json_to_bin gives " + pbt::hexs(bin));
    for (size_t n = 0; n < bin.size(); ++n)
        if (x.b2j(CONTRACT, "vv", bin.substr(0, n), js)) c.fail("truncated", "abi accepts " + pbt::hexs(bin.substr(0, n)) + " as " + js);
}

// arbitrary continuation patterns: which encodings decode, to what, and how many bytes are taken
PROP(patterns, 3) {
    auto& s = c.s;
    int n = int(s.below(9));  // bytes with the continuation bit
    Bytes b;
    for (int i = 0; i < n; ++i) b += char(0x80 | (s.chance(1, 3) ? s.pick({0, 0x7f, 1, 0x40}) : int(s.below(128))));
    bool end = s.chance(7, 8);
    if (end) b += char(n == 4 ? s.below(s.flip() ? 16 : 128) : s.chance(1, 3) ? s.pick({0, 0x7f, 1, 0x0f}) : int(s.below(128)));
    bool valid = end && n <= 4;
    bool lossy = valid && n == 4 && uint8_t(b[4]) > 0x0f;  // bits beyond the 32nd: accepted or not, not judged
    uint64_t v = 0;
    if (valid) for (int i = 0; i <= n; ++i) v |= uint64_t(uint8_t(b[i]) & 127) << (7 * i);
    Bytes tail = n > 4 || end ? gen_bytes(s, 4) : "";
    c.note("bytes", [&] { return pbt::hexs(b + tail); });
    c.key(b + tail);
    if (n) c.nontrivial();
    if (n > 4) c.label("too long");
    if (lossy) { c.label("over 32 bits"); return; }
    for (auto& d : decs) {
        Out o = d.f(b + tail);
        int64_t want = d.sgn ? unzig(uint32_t(v)) : int64_t(v);
        if (!valid && o.ok) c.fail("overlong", std::string(d.n) + " of " + pbt::hexs(b + tail) + " gives " + show(o));
        if (valid && (!o.ok || o.v != want || o.used != b.size())) c.fail("decode", std::string(d.n) + " of " + pbt::hexs(b + tail) + " gives " + show(o));
        if (!valid && o.used > 5) c.fail("overlong", std::string(d.n) + " reads " + std::to_string(o.used) + " bytes");
    }
    Ctx& x = ctx();
    std::string js;
    for (bool first : {true, false}) {
        std::string w = first ? b + Bytes("\x00\x07", 2) : "\x05" + b + "\x07";
        bool ok = x.b2j(CONTRACT, "vv", w, js);
        std::string want = first ? "{\"u\":" + std::to_string(v) + ",\"i\":0,\"e\":7}" : "{\"u\":5,\"i\":" + std::to_string(unzig(uint32_t(v))) + ",\"e\":7}";
        if (!end) continue;  // the following bytes would complete it
        if (ok != valid) c.fail(valid ? "abi" : "overlong", "abi " + std::string(ok ? "accepts " : "rejects ") + pbt::hexs(w));
        if (ok && js != want) c.fail("abi", pbt::hexs(w) + " gives " + js);
    }
    // too long before the end of a length prefix
    if (!valid && end) {
        std::string t;
        std::vector<std::string> vs;
        Out o = decode(b + std::string(40, '\0'), [&](auto& st) { from_bin(t, st); return 0; });
        if (o.ok) c.fail("overlong", "string with the length prefix " + pbt::hexs(b));
        o = decode(b + std::string(40, '\0'), [&](auto& st) { from_bin(vs, st); return 0; });
        if (o.ok) c.fail("overlong", "vector with the length prefix " + pbt::hexs(b));
    }
}

PROP(operators, 2) {
    auto& s = c.s;
    uint32_t u = gen_u(s), v = s.flip() ? u + uint32_t(s.range(-1, 1)) : gen_u(s);
    int32_t i = gen_i(s), j = s.flip() ? int32_t(uint32_t(i) + uint32_t(s.range(-1, 1))) : gen_i(s);
    c.note("values", [&] { return std::to_string(u) + " " + std::to_string(v) + " " + std::to_string(i) + " " + std::to_string(j); });
    c.key(std::to_string(u) + "," + std::to_string(v) + "," + std::to_string(i) + "," + std::to_string(j));
    if (u != v || i != j) c.nontrivial();
    varuint32 a(u), b(v);
    varint32 p(i), q(j);
    all_ops(c, "varuint32,varuint32", a, b, u, v);
    all_ops(c, "varuint32,uint32_t", a, v, u, v);
    all_ops(c, "uint32_t,varuint32", u, b, u, v);
    all_ops(c, "varint32,varint32", p, q, i, j);
    all_ops(c, "varint32,int32_t", p, j, i, j);
    all_ops(c, "int32_t,varint32", i, q, i, j);
    auto is = [&](const char* what, int64_t got, int64_t want) {
        if (got != want) c.fail("conversion", std::string(what) + " is " + std::to_string(got) + ", not " + std::to_string(want));
    };
    is("varuint32()", varuint32().value, 0);
    is("varint32()", varint32().value, 0);
    is("uint32_t(varuint32)", static_cast<uint32_t>(a), u);
    is("uint64_t(varuint32)", int64_t(static_cast<uint64_t>(a)), u);
    is("int64_t(varuint32)", static_cast<int64_t>(a), u);
    is("uint16_t(varuint32)", static_cast<uint16_t>(a), uint16_t(u));
    is("uint8_t(varuint32)", static_cast<uint8_t>(a), uint8_t(u));
    is("bool(varuint32)", static_cast<bool>(a), u != 0);
    c.require(static_cast<double>(a) == double(u), "conversion", "double(varuint32)");
    is("int32_t(varint32)", int32_t(p), i);
    is("int64_t(varint32)", int64_t(p), i);
    is("varuint32(uint8_t)", varuint32(uint8_t(u)).value, uint8_t(u));
    is("varuint32(uint64_t)", varuint32(uint64_t(u)).value, u);
    is("varuint32(size_t) from int", varuint32(int(u & 0x7fffffff)).value, u & 0x7fffffff);
    varuint32 x;
    is("varuint32 = uint32_t", (x = u).value, u);
    is("varuint32 = uint32_t (stored)", x.value, u);
    x = b;
    is("varuint32 = varuint32", x.value, v);
    varint32 y;
    is("varint32 = int32_t", (y = i).value, i);
    c.require(&(y = j) == &y && &(x = u) == &x, "conversion", "assignment does not return the object");
    is("varint32 = int32_t (stored)", y.value, j);
    y = int8_t(i);
    is("varint32 = int8_t", y.value, int8_t(i));
    y = int64_t(i);
    is("varint32 = int64_t", y.value, i);
    y = p;
    is("varint32 = varint32", y.value, i);
    uint32_t d = 1;
    eosio::convert(a, d, 0);
    is("convert(varuint32)", d, u);
    if (i != INT32_MAX) {
        varint32 z(i);
        is("++ result", (++z).value, int64_t(i) + 1);
        is("++ stored", z.value, int64_t(i) + 1);
        c.require(&++(z = i) == &z, "operator", "++ does not return the object");
        z = i;
        is("postfix ++ result", (z++).value, i);
        is("postfix ++ stored", z.value, int64_t(i) + 1);
    }
    // the encoder's own limit
    uint64_t big = s.flip() ? uint64_t(u) : (uint64_t(1) << 32) + s.uint_bits(40);
    std::vector<char> o;
    eosio::vector_stream vs{o};
    bool t = false;
    try { eosio::varuint32_to_bin(big, vs); } catch (std::exception&) { t = true; }
    if (t != (big >> 32 != 0)) c.fail("encode", "varuint32_to_bin of " + std::to_string(big) + (t ? " throws" : " does not throw"));
}
// text outside the 32-bit ranges is rejected
PROP(text, 1) {
    auto& s = c.s;
    i128 v = s.flip() ? i128(s.pick({int64_t(INT32_MAX), int64_t(INT32_MIN), int64_t(UINT32_MAX), int64_t(0)})) + s.range(-3, 3) : s.int_bits(s.flip() ? 34 : 70);
    std::string t = pbt::to_s(v);
    if (s.flip()) t = "\"" + t + "\"";
    c.note("text", [&] { return t; });
    c.key(t);
    if (t.size() > 1) c.nontrivial();
    auto rd = [&](auto z, i128& r) {
        std::string buf = t + std::string(4, '\0');
        eosio::json_token_stream js(buf.data());
        try { from_json(z, js); js.get_end(); } catch (std::exception&) { return false; }
        r = z.value;
        return true;
    };
    i128 r = 0;
    bool wu = v >= 0 && v <= UINT32_MAX, wi = v >= INT32_MIN && v <= INT32_MAX;
    bool ok = rd(varuint32(), r);
    if (ok != wu || (ok && r != v)) c.fail("range", "varuint32 from " + t + (ok ? " gives " + pbt::to_s(r) : " is rejected"));
    ok = rd(varint32(), r);
    if (ok != wi || (ok && r != v)) c.fail("range", "varint32 from " + t + (ok ? " gives " + pbt::to_s(r) : " is rejected"));
    Ctx& x = ctx();
    std::string bin;
    ok = x.j2b(CONTRACT, "varuint32", t, s.flip(), bin);
    if (ok != wu) c.fail("range", "abi varuint32 from " + t);
    ok = x.j2b(CONTRACT, "varint32", t, s.flip(), bin);
    if (ok != wi) c.fail("range", "abi varint32 from " + t);
}

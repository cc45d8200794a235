// Conversion between versions of reflected structs, and reading an old format into a new type.
#include "ref.hpp"
#include <eosio/convert.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/varint.hpp>
#include <list>
#include <memory>
using namespace ref;

namespace cv {
using eosio::narrowing_conversion;
using eosio::strict_conversion;
using eosio::widening_conversion;
// version 1 of each, then version 2 with members added, moved and nested ones changed
struct in1 { int16_t x = 0; std::string y; };
struct in2 { uint8_t z = 9; std::string y; int16_t x = 0; };
EOSIO_REFLECT(in1, x, y)
EOSIO_REFLECT(in2, z, y, x)
widening_conversion conversion_kind(in1, in2);

struct base1 { uint32_t id = 0; std::vector<uint8_t> raw; };
EOSIO_REFLECT(base1, id, raw)
struct v1 : base1 {
    std::string name;
    std::vector<in1> list;
    std::optional<in1> opt;
    in1 one;
    std::vector<std::optional<in1>> deep;
    std::optional<std::vector<in1>> maybe;
    eosio::varuint32 count;
    eosio::input_stream data;
    std::variant<in1, in2> choice;
    double ratio = 0;
};
EOSIO_REFLECT(v1, base base1, name, list, opt, one, deep, maybe, count, data, choice, ratio)
struct v2 {
    double ratio = 0;
    uint64_t extra = 77;
    in2 choice;
    std::vector<char> data;
    uint32_t count = 5;
    std::optional<std::vector<in2>> maybe;
    std::vector<std::optional<in2>> deep;
    in2 one;
    std::optional<in2> opt;
    std::vector<in2> list;
    std::string name, more = "more";
    std::vector<uint8_t> raw;
    uint32_t id = 0;
};
EOSIO_REFLECT(v2, ratio, extra, choice, data, count, maybe, deep, one, opt, list, name, more, raw, id)
widening_conversion conversion_kind(v1, v2);

// same members in another order
struct s1 { uint16_t a = 1; std::string b; in1 c; };
struct s2 { in1 c; uint16_t a = 2; std::string b; };
EOSIO_REFLECT(s1, a, b, c)
EOSIO_REFLECT(s2, c, a, b)
strict_conversion conversion_kind(s1, s2);

// both directions: what w2 lacks is lost, what w1 lacks is a default
struct w1 { std::string k; uint64_t v = 3; std::vector<std::vector<uint32_t>> t; bool f = false; };
struct w2 { std::vector<std::vector<uint32_t>> t; std::string k; };
EOSIO_REFLECT(w1, k, v, t, f)
EOSIO_REFLECT(w2, t, k)
narrowing_conversion conversion_kind(w1, w2);

// serialized in version 1's form
struct cur { std::string y = "d"; int16_t x = 0; uint8_t added = 42; };
EOSIO_REFLECT(cur, y, x, added)
in1 serialize_as(cur);
widening_conversion conversion_kind(in1, cur);
struct outer { uint8_t tag = 0; std::vector<cur> items; std::optional<cur> last; };
EOSIO_REFLECT(outer, tag, items, last)
struct wide { double ratio = 0; uint64_t kept = 0; std::string name; };
}  // namespace cv

namespace {
using namespace cv;
std::string g_text(pbt::Source& s) { return gen_bytes(s, 12); }
template <class T> T make(pbt::Source& s);
template <> in1 make<in1>(pbt::Source& s) { return {int16_t(s.int_bits(16)), g_text(s)}; }
template <> in2 make<in2>(pbt::Source& s) { in2 r; r.z = s.byte(); r.y = g_text(s); r.x = int16_t(s.int_bits(16)); return r; }
size_t cnt(pbt::Source& s) { size_t n = s.size(12); return n; }
template <class T> std::vector<T> many(pbt::Source& s) { std::vector<T> r; for (size_t n = cnt(s); n; --n) r.push_back(make<T>(s)); return r; }
template <class T> std::optional<T> perhaps(pbt::Source& s) { std::optional<T> r; if (s.chance(2, 3)) r = make<T>(s); return r; }
std::vector<uint8_t> raw(pbt::Source& s) { auto b = gen_bytes(s, 12); return {b.begin(), b.end()}; }
bool eq(const in1& a, const in1& b) { return a.x == b.x && a.y == b.y; }
bool eq(const in2& a, const in2& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
in2 up(const in1& a, uint8_t z = 9) { in2 r; r.x = a.x; r.y = a.y; r.z = z; return r; }
struct Data { Bytes b; std::unique_ptr<char[]> mem; };
v1 make_v1(pbt::Source& s, Data& d) {
    v1 v;
    v.id = uint32_t(s.uint_bits(32));
    v.raw = raw(s);
    v.name = g_text(s);
    v.list = many<in1>(s);
    v.opt = perhaps<in1>(s);
    v.one = make<in1>(s);
    for (size_t n = cnt(s); n; --n) v.deep.push_back(perhaps<in1>(s));
    if (s.flip()) v.maybe = many<in1>(s);
    v.count = uint32_t(s.uint_bits(32));
    d.b = gen_bytes(s, 20);
    d.mem.reset(new char[d.b.size()]);
    memcpy(d.mem.get(), d.b.data(), d.b.size());
    v.data = eosio::input_stream(d.mem.get(), d.b.size());
    if (s.flip()) v.choice = make<in1>(s); else v.choice = make<in2>(s);
    v.ratio = double(s.range(-1000, 1000)) / 8;
    return v;
}
v2 make_v2(pbt::Source& s) {
    v2 v;
    v.ratio = double(s.range(-9, 9)); v.extra = s.u64(); v.choice = make<in2>(s); v.data = {'o', 'l', 'd'}; v.count = s.byte();
    if (s.flip()) v.maybe = many<in2>(s);
    for (size_t n = cnt(s); n; --n) v.deep.push_back(perhaps<in2>(s));
    v.one = make<in2>(s);
    v.opt = perhaps<in2>(s);
    v.list = many<in2>(s);
    v.name = g_text(s); v.more = g_text(s); v.raw = raw(s); v.id = s.byte();
    return v;
}
uint64_t hash_bytes(const v1& v) { return v.id + v.name.size() * 3 + v.list.size() * 7; }
}  // namespace

// version 1 to version 2, into a fresh or a used destination, and back
PROP(widen, 4) {
    auto& s = c.s;
    Data d;
    v1 a = make_v1(s, d);
    bool fresh = s.flip();
    v2 b = fresh ? v2() : make_v2(s), old = b;
    c.label(fresh ? "fresh destination" : "used destination");
    c.note("source", [&] { return "id " + std::to_string(a.id) + ", name " + pbt::quote(a.name) + ", " + std::to_string(a.list.size()) + " elements"; });
    c.key(std::to_string(hash_bytes(a)) + a.name + d.b + a.one.y + std::to_string(fresh));
    if (a.list.size() || a.deep.size() || a.opt) c.nontrivial();
    convert(a, b, eosio::choose_first);
    auto want = [&](bool ok, const char* m) { if (!ok) c.fail("widen", std::string("member ") + m + (fresh ? " (fresh destination)" : " (used destination)")); };
    want(b.id == a.id, "id");
    want(b.raw == a.raw, "raw");
    want(b.name == a.name, "name");
    want(b.ratio == a.ratio, "ratio");
    want(b.count == a.count.value, "count");
    want(Bytes(b.data.begin(), b.data.end()) == d.b, "data");
    want(b.extra == old.extra, "extra");
    want(b.more == old.more, "more");
    // members added by the newer version keep what the destination had; elements created by the conversion have defaults
    want(b.list.size() == a.list.size(), "list size");
    for (size_t i = 0; i < a.list.size(); ++i) {
        want(b.list[i].x == a.list[i].x && b.list[i].y == a.list[i].y, "list element");
        if (i >= old.list.size()) want(b.list[i].z == 9, "list element default");
    }
    want(b.opt.has_value() == a.opt.has_value(), "opt presence");
    if (a.opt) want(b.opt->x == a.opt->x && b.opt->y == a.opt->y && b.opt->z == 9, "opt");
    want(eq(b.one, up(a.one, old.one.z)), "one");
    want(b.deep.size() == a.deep.size(), "deep size");
    for (size_t i = 0; i < a.deep.size(); ++i) {
        want(b.deep[i].has_value() == a.deep[i].has_value(), "deep presence");
        if (a.deep[i]) want(b.deep[i]->x == a.deep[i]->x && b.deep[i]->y == a.deep[i]->y && b.deep[i]->z == 9, "deep element");
    }
    want(b.maybe.has_value() == a.maybe.has_value(), "maybe presence");
    if (a.maybe) {
        want(b.maybe->size() == a.maybe->size(), "maybe size");
        for (size_t i = 0; i < a.maybe->size(); ++i) want(b.maybe->at(i).x == a.maybe->at(i).x && b.maybe->at(i).y == a.maybe->at(i).y && b.maybe->at(i).z == 9, "maybe element");
    }
    if (a.choice.index() == 0) want(eq(b.choice, up(std::get<0>(a.choice), old.choice.z)), "choice (version 1)");
    else want(eq(b.choice, std::get<1>(a.choice)), "choice (version 2)");
    // the source is untouched
    want(a.data.remaining() == d.b.size() && a.data.get_pos() == d.mem.get(), "source data");
}
PROP(narrow, 2) {
    auto& s = c.s;
    w1 a;
    a.k = g_text(s);
    a.v = s.u64();
    a.f = s.flip();
    for (size_t n = cnt(s); n; --n) { a.t.emplace_back(); for (size_t k = s.below(4); k; --k) a.t.back().push_back(uint32_t(s.uint_bits(32))); }
    c.key(a.k + std::to_string(a.v) + std::to_string(a.t.size()));
    c.note("source", [&] { return pbt::quote(a.k) + " with " + std::to_string(a.t.size()) + " rows"; });
    if (a.t.size()) c.nontrivial();
    w2 b;
    if (s.flip()) { b.k = "old"; b.t = {{1, 2}, {}, {3}}; }
    if (s.flip()) convert(a, b, eosio::choose_first);
    else convert(a, b, eosio::choose_second);
    if (b.k != a.k || b.t != a.t) c.fail("narrow", "members differ");
    w1 e;
    convert(b, e, eosio::choose_first);
    if (e.k != a.k || e.t != a.t) c.fail("back", "common members differ");
    if (e.v != 3 || e.f) c.fail("back", "other members are not defaults");
    // equal types: plain assignment
    w1 f;
    convert(a, f, eosio::choose_first);
    if (f.k != a.k || f.v != a.v || f.t != a.t || f.f != a.f) c.fail("same", "copy differs");
}
PROP(strict, 2) {
    auto& s = c.s;
    s1 a{uint16_t(s.uint_bits(16)), g_text(s), make<in1>(s)};
    c.key(a.b + a.c.y + std::to_string(a.a));
    c.note("source", [&] { return pbt::quote(a.b); });
    if (!a.b.empty()) c.nontrivial();
    s2 b;
    s1 d;
    bool k = s.flip();
    if (k) { convert(a, b, eosio::choose_first); convert(b, d, eosio::choose_second); }
    else { convert(a, b, eosio::choose_second); convert(b, d, eosio::choose_first); }
    if (b.a != a.a || b.b != a.b || !eq(b.c, a.c)) c.fail("strict", "members differ");
    if (d.a != a.a || d.b != a.b || !eq(d.c, a.c)) c.fail("back", "members differ");
    // in1 <-> in2
    in1 p = make<in1>(s), q;
    in2 r, t = make<in2>(s);
    convert(p, r, eosio::choose_first);
    convert(r, q, eosio::choose_second);
    if (!eq(r, up(p)) || !eq(p, q)) c.fail("back", "nested members differ");
    convert(t, q, eosio::choose_second);
    if (q.x != t.x || q.y != t.y) c.fail("narrow", "nested members differ");
}
PROP(variants, 2) {
    auto& s = c.s;
    std::variant<in2, in1> a;
    if (s.flip()) a = make<in1>(s); else a = make<in2>(s);
    in2 r, r2 = make<in2>(s), keep = r2;
    convert(a, r, eosio::choose_first);
    convert(a, r2, eosio::choose_first);
    c.key(r.y + std::to_string(r.x) + std::to_string(a.index()));
    c.note("alternative", [&] { return std::to_string(a.index()); });
    c.nontrivial();
    if (a.index() == 0) { if (!eq(r, std::get<0>(a)) || !eq(r2, std::get<0>(a))) c.fail("variant", "same alternative differs"); }
    else if (!eq(r, up(std::get<1>(a))) || !eq(r2, up(std::get<1>(a), keep.z))) c.fail("variant", "older alternative differs");
    std::vector<std::variant<in2, in1>> l;
    for (size_t n = cnt(s); n; --n) { if (s.flip()) l.push_back(make<in1>(s)); else l.push_back(make<in2>(s)); }
    std::vector<in2> o;
    convert(l, o, eosio::choose_first);
    if (o.size() != l.size()) c.fail("variant", "size differs");
    for (size_t i = 0; i < l.size(); ++i) if (!eq(o[i], l[i].index() ? up(std::get<1>(l[i])) : std::get<0>(l[i]))) c.fail("variant", "element differs");
    std::variant<uint32_t> u{uint32_t(s.uint_bits(32))};
    uint32_t x = 1;
    convert(u, x, eosio::choose_first);
    if (x != std::get<0>(u)) c.fail("variant", "plain alternative differs");
    // destination longer than the source
    std::vector<in2> big(l.size() + s.below(3)), big0 = big;
    convert(l, big, eosio::choose_first);
    if (big.size() != l.size()) c.fail("variant", "old elements stay");
}
// a type that names its serialized form is read from it
PROP(serialized, 3) {
    auto& s = c.s;
    std::vector<in1> items = many<in1>(s);
    auto last = perhaps<in1>(s);
    uint8_t tag = s.byte();
    Bytes w(1, char(tag));
    auto put = [&](const in1& x) { put_le(w, uint16_t(x.x), 2); put_varuint(w, x.y.size()); w += x.y; };
    put_varuint(w, items.size());
    for (auto& i : items) put(i);
    w += char(last.has_value());
    if (last) put(*last);
    c.key(w);
    c.note("wire", [&] { return pbt::hexs(w); });
    if (items.size()) c.nontrivial();
    std::vector<char> buf(w.begin(), w.end());
    buf.shrink_to_fit();
    outer o;
    if (s.chance(1, 3)) { o.items.resize(s.below(4)); for (auto& i : o.items) { i.y = "old"; i.added = 1; } o.last.emplace(); o.last->added = 2; }
    eosio::input_stream st(buf.data(), buf.size());
    from_bin(o, st);
    if (st.remaining()) c.fail("serialized", "bytes left");
    if (o.tag != tag || o.items.size() != items.size() || o.last.has_value() != last.has_value()) c.fail("serialized", "shape differs");
    for (size_t i = 0; i < items.size(); ++i) if (o.items[i].x != items[i].x || o.items[i].y != items[i].y || o.items[i].added != 42) c.fail("serialized", "element differs");
    if (last && (o.last->x != last->x || o.last->y != last->y || o.last->added != 42)) c.fail("serialized", "optional differs");
    if (w.size() > 1) {
        size_t n = s.below(w.size());
        std::vector<char> cut(w.begin(), w.begin() + n);
        cut.shrink_to_fit();
        eosio::input_stream st2(cut.data(), cut.size());
        outer p;
        bool t = false;
        try { from_bin(p, st2); } catch (std::exception&) { t = true; }
        if (!t) c.fail("truncated", "accepts " + std::to_string(n) + " of " + std::to_string(w.size()) + " bytes");
    }
}

// Native JSON: written text denotes the value, pretty text is the same document, reading returns the value.
#include "native_types.hpp"
using namespace ref;

namespace {
struct Entry { const char* name; void (*fn)(pbt::Case&); };

J any_json(pbt::Source& s, int depth) {
    J j;
    switch (s.below(depth > 3 ? 4 : 6)) {
    case 0: break;
    case 1: j.k = J::boolean; j.b = s.flip(); break;
    case 2: j.k = J::num; j.s = std::to_string(s.range(-1000, 1000)); if (s.flip()) j.s += ".5e3"; break;
    case 3: j.k = J::str; j.s = gen_utf8(s, 8); break;
    case 4: j.k = J::arr; for (size_t n = s.below(4); n--;) j.a.push_back(any_json(s, depth + 1)); break;
    default: j.k = J::obj; for (size_t n = s.below(4); n--;) j.o.push_back({s.flip() ? "v" : gen_utf8(s, 4), any_json(s, depth + 1)});
    }
    return j;
}
// the same document spelled otherwise; objects may gain members named "\x01..." which no type has
void spell(pbt::Source& s, const J& j, bool shuffle, std::string& o) {
    o += gen_ws(s);
    switch (j.k) {
    case J::null: o += "null"; break;
    case J::boolean: o += j.b ? "true" : "false"; break;
    case J::num: if (s.chance(1, 4)) o += '"' + j.s + '"'; else o += j.s; break;
    case J::str: o += json_str_any(s, j.s); break;
    case J::arr:
        o += '[';
        for (size_t i = 0; i < j.a.size(); ++i) { if (i) o += ','; spell(s, j.a[i], shuffle, o); }
        o += gen_ws(s) + "]";
        break;
    default: {
        std::vector<std::pair<std::string, const J*>> m;
        std::vector<J> extra;
        extra.reserve(4);
        for (auto& [k, v] : j.o) m.push_back({k, &v});
        if (shuffle) {
            for (size_t n = s.chance(1, 3) ? 1 + s.below(3) : 0; n--;) {
                extra.push_back(any_json(s, 1));
                std::string k = "\x01zz";
                if (s.flip()) {  // almost a member's name
                    k = m.empty() ? "" : m[s.below(m.size())].first;
                    switch (s.below(6)) {
                    case 0: k += std::string(1, '\0'); break;
                    case 1: k += std::string("\0x", 2); break;
                    case 2: k += " "; break;
                    case 3: k = " " + k; break;
                    case 4: k = std::string(1, '\0') + k; break;
                    default: k += "\x02";
                    }
                }
                m.push_back({k, &extra.back()});
            }
            for (size_t i = m.size(); i > 1; --i) std::swap(m[i - 1], m[s.below(i)]);
        }
        o += '{';
        for (size_t i = 0; i < m.size(); ++i) {
            if (i) o += ',';
            o += gen_ws(s) + json_str_any(s, m[i].first) + gen_ws(s) + ":";
            bool unknown = !extra.empty() && m[i].second >= extra.data() && m[i].second < extra.data() + extra.size();
            std::string close;
            if (unknown && s.chance(1, 16)) {  // deep, around the depths at which a counter could wrap
                size_t d = s.flip() ? s.below(40) : s.pick({127, 128, 129, 254, 255, 256, 257, 258, 511, 512, 513, 768, 1025});
                bool tail = s.flip();
                unsigned objs = s.below(4);
                while (d--) {
                    if (d % 4 < objs) { o += "{\"v\":"; close += '}'; }
                    else { o += '['; close += tail ? "]1," : "]"; }  // reversed below
                }
            }
            spell(s, *m[i].second, shuffle && !unknown, o);
            o.append(close.rbegin(), close.rend());
        }
        o += gen_ws(s) + "}";
    }
    }
    o += gen_ws(s);
}
std::string plain(const J& j) {
    switch (j.k) {
    case J::null: return "null";
    case J::boolean: return j.b ? "true" : "false";
    case J::num: return j.s;
    case J::str: return json_str(j.s);
    case J::arr: { std::string o = "["; for (size_t i = 0; i < j.a.size(); ++i) o += (i ? "," : "") + plain(j.a[i]); return o + "]"; }
    default: { std::string o = "{"; for (size_t i = 0; i < j.o.size(); ++i) o += (i ? "," : "") + json_str(j.o[i].first) + ":" + plain(j.o[i].second); return o + "}"; }
    }
}
void collect(J& j, std::vector<J*>& v) {
    v.push_back(&j);
    for (auto& x : j.a) collect(x, v);
    for (auto& x : j.o) collect(x.second, v);
}
// put a value of the wrong kind at a random place; false when there is none
bool wrong_kind(pbt::Source& s, J& root) {
    std::vector<J*> all;
    collect(root, all);
    J& j = *all[s.below(all.size())];
    const char* t;
    switch (j.k) {
    case J::null: return false;
    case J::boolean: t = s.pick({"\"true\"", "1", "0", "\"\"", "{}", "[]", "[true]"}); break;
    case J::num: t = s.pick({"true", "false", "{}", "[]", "\"\"", "\"1x\"", "\"zz\"", "[1]", "{\"value\":1}"}); break;
    case J::str: t = s.pick({"true", "false", "{}", "[]", "[\"a\"]", "{\"value\":\"1\"}"}); break;
    case J::arr: t = s.pick({"{}", "\"x\"", "1", "true", "\"[]\""}); break;
    default: t = s.pick({"[]", "\"x\"", "1", "true", "[{}]", "\"{}\""}); break;
    }
    std::string e;
    J n;
    parse_json(t, n, e);
    j = n;
    return true;
}

template <class T> void partial(pbt::Case&, nat::G&, T&, const J&, std::enable_if_t<!nat::Desc<T>::ok>* = nullptr) {}
template <class T> void partial(pbt::Case& c, nat::G& g, T& v, const J& j, std::enable_if_t<nat::Desc<T>::ok>* = nullptr) {
    // members which are absent keep what the object held before
    T p{};
    nat::gen(g, p);
    J sub;
    sub.k = J::obj;
    T r = p;
    std::vector<bool> keep;
    for (auto& m : j.o) { keep.push_back(c.s.flip()); if (keep.back()) sub.o.push_back(m); }
    std::string text, err;
    spell(c.s, sub, true, text);
    if (!nat::read_json(r, text, &err)) c.fail("partial-rejected", err + ": " + text);
    auto tv = nat::Desc<T>::tie(v), tp = nat::Desc<T>::tie(p), tr = nat::Desc<T>::tie(r);
    size_t i = 0;
    std::vector<Bytes> ev, ep, er;
    std::apply([&](auto&... x) { (ev.push_back(nat::wire(x)), ...); }, tv);
    std::apply([&](auto&... x) { (ep.push_back(nat::wire(x)), ...); }, tp);
    std::apply([&](auto&... x) { (er.push_back(nat::wire(x)), ...); }, tr);
    for (; i < er.size(); ++i)
        if (keep[i] ? er[i] != ev[i] : er[i] != ep[i])
            c.fail(keep[i] ? "partial-present" : "partial-absent", "member " + nat::Desc<T>::names()[i] + " is " + pbt::hexs(er[i]) + ", expected " + pbt::hexs(keep[i] ? ev[i] : ep[i]) + " after " + text);
}

template <class T> void check(pbt::Case& c) {
    nat::G g(c.s);
    g.json = true;
    T v{};
    nat::gen(g, v);
    Bytes w = nat::wire(v);
    c.key(w);
    if (w.size() > 1) c.nontrivial();
    c.note("wire", [&] { return pbt::hexs(w); });
    std::string text = eosio::convert_to_json(v), e, err;
    c.note("json", [&] { return text; });
    J j, jp;
    if (!parse_json(text, j, e)) c.fail("malformed", e + " in " + text);
    e = nat::chk(v, j);
    if (!e.empty()) c.fail("value", e + " in " + text);
    // compact text has no whitespace outside strings
    if (plain(j).size() > text.size()) c.label("escapes");
    std::string pretty = eosio::format_json(v);
    if (!parse_json(pretty, jp, e)) c.fail("format-malformed", e + " in " + pretty);
    if (!same_json(j, jp)) c.fail("format", pretty + " is not " + text);
    std::vector<char> vs;
    eosio::vector_stream st{vs};
    to_json(v, st);
    if (nat::str(vs) != text) c.fail("vector_stream", nat::str(vs));
    auto reads = [&](const std::string& t, const char* tag) {
        T r{};
        if (c.s.flip()) { nat::G g2(c.s); g2.json = true; g2.budget = 8; nat::gen(g2, r); }
        if (!nat::read_json(r, t, &err)) c.fail(std::string(tag) + "-rejected", err + ": " + t);
        Bytes b = nat::wire(r);
        if (b != w) c.fail(std::string(tag) + "-value", "got " + pbt::hexs(b) + " expected " + pbt::hexs(w) + " from " + t);
    };
    reads(text, "read");
    {
        // the readers which return the value
        std::string copy = text + std::string(4, '\0');
        eosio::json_token_stream st(copy.data());
        T r = eosio::from_json<T>(st);
        if (nat::wire(r) != w) c.fail("returned-value", "got " + pbt::hexs(nat::wire(r)) + " from " + text);
    }
    reads(pretty, "read-pretty");
    std::string alt;
    spell(c.s, j, false, alt);
    reads(alt, "respelled");
    alt.clear();
    spell(c.s, j, true, alt);
    reads(alt, "permuted");
    partial(c, g, v, j);
    for (int i = 0; i < 3; ++i) {
        J k = j;
        if (!wrong_kind(c.s, k)) continue;
        T r{};
        std::string t = plain(k);
        if (nat::read_json(r, t)) c.fail("wrong-kind", "accepted " + t);
    }
    // cut short or followed by something else
    T r{};
    std::string t = text.substr(0, c.s.below(text.size()));
    bool complete = j.k == J::num && parse_json(t, jp, e);  // a shorter number is a number
    if (!complete && nat::read_json(r, t)) c.fail("cut", "accepted " + t);
    t = text + c.s.pick({"x", " 1", ",", "]", "}", "{}", "\"", " null"});
    if (!(j.k == J::num) && nat::read_json(r, t)) c.fail("trailing", "accepted " + t);
}
using variant3 = std::variant<nt::base1, nt::derived, std::optional<int8_t>, std::vector<uint32_t>, nat::variant1>;
#define JSON_TYPES_0(X) X(nt::node) X(bool) X(eosio::checksum160) X(double) X(nt::mixed) X(eosio::extended_symbol) X(int32_t) X(nt::signed_var)
#define JSON_TYPES_1(X) X(nt::deep) X(uint8_t) X(eosio::public_key) X(eosio::bytes) X(std::vector<std::string>) X(eosio::block_timestamp) X(unsigned __int128) X(std::vector<std::optional<nt::base1>>)
#define JSON_TYPES_2(X) X(nt::many) X(int64_t) X(nt::ints) X(eosio::symbol) X(nat::variant1) X(eosio::checksum512) X(eosio::varint32) X(std::vector<nat::variant1>)
#define JSON_TYPES_3(X) X(nt::optv) X(float) X(std::vector<uint8_t>) X(eosio::extended_asset) X(int16_t) X(eosio::signature) X(eosio::float128) X(std::optional<std::vector<uint8_t>>)
#define JSON_TYPES_4(X) X(variant3) X(std::string) X(std::optional<std::string>) X(eosio::time_point_sec) X(uint32_t) X(nt::leaf) X(eosio::microseconds)
#define JSON_TYPES_5(X) X(nt::chain) X(eosio::name) X(int8_t) X(eosio::checksum256) X(__int128) X(nt::only_base) X(nt::base1)
#define JSON_TYPES_6(X) X(nt::money) X(eosio::asset) X(uint16_t) X(eosio::private_key) X(eosio::varuint32) X(std::vector<nt::ints>) X(nt::derived)
#define JSON_TYPES_7(X) X(std::optional<nt::deep>) X(eosio::time_point) X(uint64_t) X(nt::flo) X(eosio::symbol_code) X(std::vector<std::vector<uint16_t>>) X(nt::tree)
#define ENTRY(...) {#__VA_ARGS__, check<__VA_ARGS__>},
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#ifndef SHARD
#define SHARD 0
#endif
const Entry table[] = {CAT(JSON_TYPES_, SHARD)(ENTRY)};
}  // namespace
PROP_(CAT(types, SHARD), 4) {
    auto& e = table[c.s.below(std::size(table))];
    c.key(e.name);
    c.label(e.name);
    c.note("type", [&] { return std::string(e.name); });
    e.fn(c);
}
#if SHARD == 0
PROP(type_names, 1) {
    using namespace eosio;
    struct NE { std::string (*lib)(); std::string (*ref)(); };
#define NM(...) {[]() -> std::string { return get_type_name((__VA_ARGS__*)nullptr); }, [] { return nat::tn<__VA_ARGS__>(); }},
    static const NE names[] = {NM(bool) NM(int8_t) NM(uint8_t) NM(int16_t) NM(uint16_t) NM(int32_t) NM(uint32_t) NM(int64_t) NM(uint64_t) NM(__int128) NM(unsigned __int128) NM(float) NM(double)
        NM(std::string) NM(eosio::bytes) NM(eosio::varuint32) NM(eosio::varint32) NM(eosio::name) NM(eosio::symbol) NM(eosio::symbol_code) NM(eosio::asset) NM(eosio::extended_asset)
        NM(eosio::extended_symbol) NM(eosio::microseconds) NM(eosio::time_point) NM(eosio::time_point_sec) NM(eosio::block_timestamp) NM(eosio::checksum160) NM(eosio::checksum256)
        NM(eosio::checksum512) NM(eosio::float128) NM(eosio::public_key) NM(eosio::private_key) NM(eosio::signature) NM(nt::ints) NM(nt::derived) NM(nt::deep) NM(nt::tree)
        NM(std::vector<uint8_t>) NM(std::vector<std::string>) NM(std::optional<float>) NM(std::vector<unsigned __int128>) NM(std::optional<std::string>) NM(nat::variant1)
        NM(std::variant<int8_t>) NM(std::variant<std::optional<std::string>, double, std::vector<int16_t>>)};
    size_t i = c.s.below(std::size(names));
    c.key(std::to_string(i));
    c.nontrivial();
    c.note("type", [&] { return names[i].ref(); });
    if (names[i].lib() != names[i].ref()) c.fail("type_name", "got " + names[i].lib() + " expected " + names[i].ref());
}
#endif

// State-history messages against the hand-written layout; opaque parts.
#ifndef SHARD
#define SHARD 0
#endif
#include "ship.hpp"
#include <eosio/abi.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <eosio/chain_types.hpp>
using namespace ref;
namespace sp = eosio::ship_protocol;

namespace {
Ctx* g_ctx;
Ctx& ctx(pbt::Case& c) {
    if (!g_ctx) {
        g_ctx = new Ctx;
        auto doc = make_doc(ship::model(), c.s);
        if (!g_ctx->set_abi(CONTRACT, doc_json(doc))) { std::string e = g_ctx->error(); delete g_ctx; g_ctx = nullptr; c.fail("abi", "the protocol's ABI is rejected: " + e); }
    }
    return *g_ctx;
}
std::vector<char> exact(const Bytes& b) {
    std::vector<char> x(b.begin(), b.end());
    x.shrink_to_fit();
    return x;
}
struct Msg { Bytes wire; Val v; };
Msg gen_msg(pbt::Case& c, const char* name, int budget = 60) {
    GenVal g{ship::model(), c.s};
    g.budget = budget;
    if (c.s.chance(1, 8)) { g.max_depth = 14; g.budget = 150; }
    Msg m;
    m.v = g.gen(ship::type(name), 0, true);
    ship::fix_status(m.v);
    encode(ship::model(), m.v, m.wire);
    label_val(c, g);
    return m;
}
template <class T> Bytes bin(const T& v) { auto b = eosio::convert_to_bin(v); return Bytes(b.begin(), b.end()); }

template <class T, bool JSON> void run(pbt::Case& c, const char* name) {
    auto& s = c.s;
    auto& m = ship::model();
    Msg g = gen_msg(c, name);
    c.note("type", [&] { return std::string(name); });
    c.note("wire", [&] { return pbt::hexs(g.wire); });
    c.key(name);
    c.key(g.wire);
    if (g.wire.size() > 1) c.nontrivial();
    Bytes tail = gen_bytes(s, 3);
    auto buf = exact(g.wire + tail);
    eosio::input_stream st(buf.data(), buf.size());
    T v{};
    std::vector<char> old;
    if (s.chance(1, 3)) {  // into an object in use
        c.label("into a used object");
        old = exact(gen_msg(c, name).wire);
        eosio::input_stream st2(old.data(), old.size());
        from_bin(v, st2);
    }
    try { from_bin(v, st); } catch (std::exception& e) { c.fail("rejected", std::string(name) + " " + pbt::hexs(g.wire) + ": " + e.what()); }
    if (st.remaining() != tail.size()) c.fail("length", std::string(name) + " takes " + std::to_string(buf.size() - st.remaining()) + " bytes of " + std::to_string(g.wire.size()));
    Bytes w = bin(v);
    if (w != g.wire) c.fail("reencode", std::string(name) + ": " + diff(w, g.wire));
    eosio::size_stream ss;
    to_bin(v, ss);
    if (ss.size != w.size()) c.fail("size", std::string(name) + " counts " + std::to_string(ss.size) + " of " + std::to_string(w.size()));
    std::vector<char> out(w.size());
    out.shrink_to_fit();
    eosio::fixed_buf_stream fs(out.data(), out.size());
    to_bin(v, fs);
    if (Bytes(out.begin(), out.end()) != w) c.fail("sink", std::string(name) + ": fixed buffer differs");
    // truncated
    for (int k = 0; k < 8 && !w.empty(); ++k) {
        size_t n = k == 0 ? w.size() - 1 : s.below(w.size());
        auto cut = exact(w.substr(0, n));
        eosio::input_stream cs(cut.data(), cut.size());
        T x{};
        bool t = false;
        try { from_bin(x, cs); } catch (std::exception&) { t = true; }
        if (!t) c.fail("truncated", std::string(name) + " accepts " + std::to_string(n) + " of " + std::to_string(w.size()) + " bytes");
    }
    // the ABI's view
    Ctx& k = ctx(c);
    std::string aj, ab;
    if (!k.b2j(CONTRACT, name, g.wire, aj)) c.fail("abi", std::string(name) + ": bin_to_json: " + k.error());
    if (!k.j2b(CONTRACT, name, aj, s.flip(), ab) || ab != g.wire) c.fail("abi", std::string(name) + ": json_to_bin of " + aj);
    if constexpr (JSON) {
        std::string t = s.chance(1, 4) ? eosio::format_json(v) : eosio::convert_to_json(v);
        c.note("json", [&] { return t; });
        J j;
        std::string e;
        if (!parse_json(t, j, e)) c.fail("json", std::string(name) + ": not JSON (" + e + "): " + t);
        bool st = ship::status_numbers(j);
        e = check_json(m, g.v, j, "$");
        if (!e.empty()) c.fail("json", std::string(name) + ": " + e + " in " + t);
        if (!st && t[t.size() - 1] != '\n') {
            if (!k.j2b(CONTRACT, name, t, s.flip(), ab)) c.fail("json", std::string(name) + ": ABI rejects " + t + ": " + k.error());
            if (ab != g.wire) c.fail("json", std::string(name) + ": " + diff(ab, g.wire) + " through " + t);
        }
    }
}

// opaque<T>
template <class T> void opaque_case(pbt::Case& c, const char* name) {
    auto& s = c.s;
    Msg g = gen_msg(c, name, 40);
    c.note("type", [&] { return "opaque " + std::string(name); });
    c.note("wire", [&] { return pbt::hexs(g.wire); });
    c.key(name);
    c.key(g.wire);
    c.nontrivial();
    Bytes framed, tail = gen_bytes(s, 4);
    put_varuint(framed, g.wire.size());
    framed += g.wire;
    auto check_one = [&](eosio::opaque<T> o, const char* how) {
        if (o.empty() != g.wire.empty()) c.fail("opaque", std::string(how) + ": empty() is wrong");
        Bytes w = bin(o);
        if (w != framed) c.fail("opaque", std::string(how) + ": encodes as " + pbt::hexs(w));
        eosio::opaque<T> o2 = o;
        T v{};
        if (s.flip()) o.unpack(v);
        else v = o.unpack();
        if (bin(v) != g.wire) c.fail("opaque", std::string(how) + ": unpacks to " + pbt::hexs(bin(v)));
        if (!o.empty()) c.fail("opaque", std::string(how) + ": not consumed");
        if (bin(o2.unpack()) != g.wire) c.fail("opaque", std::string(how) + ": copy unpacks differently");
    };
    auto in = exact(framed + tail);
    {
        eosio::input_stream st(in.data(), in.size());
        eosio::opaque<T> o;
        if (!o.empty()) c.fail("opaque", "default object is not empty");
        from_bin(o, st);
        if (st.remaining() != tail.size()) c.fail("opaque", "takes " + std::to_string(in.size() - st.remaining()) + " bytes of " + std::to_string(framed.size()));
        check_one(o, "from_bin");
    }
    check_one(eosio::opaque<T>(eosio::input_stream(in.data(), in.size())), "stream constructor");
    auto raw = exact(g.wire);
    check_one(eosio::opaque<T>(raw), "vector constructor");
    // cut: the frame is incomplete, or the frame is complete and its content is not
    size_t n = s.below(framed.size());
    auto cut = exact(framed.substr(0, n));
    {
        eosio::input_stream st(cut.data(), cut.size());
        eosio::opaque<T> o;
        bool t = false;
        try { from_bin(o, st); } catch (std::exception&) { t = true; }
        if (!t) c.fail("opaque-truncated", "accepts " + std::to_string(n) + " of " + std::to_string(framed.size()) + " bytes");
    }
    n = g.wire.empty() ? 0 : s.below(g.wire.size());
    Bytes inner;
    put_varuint(inner, n);
    inner += g.wire.substr(0, n);
    auto shortc = exact(inner + g.wire.substr(n));  // what follows the frame must not be used
    {
        eosio::input_stream st(shortc.data(), shortc.size());
        eosio::opaque<T> o;
        from_bin(o, st);
        bool t = false;
        try { o.unpack(); } catch (std::exception&) { t = true; }
        if (!t && !g.wire.empty()) c.fail("opaque-truncated", "unpacks a content of " + std::to_string(n) + " of " + std::to_string(g.wire.size()) + " bytes");
    }
}
template <class T> void opaque_vector(pbt::Case& c, const char* elem) {
    auto& s = c.s;
    size_t n = s.size(140);
    if (n > 6 && !s.chance(1, 6)) n = 6;
    std::vector<Msg> ms;
    Bytes wire, framed;
    put_varuint(wire, n);
    for (size_t i = 0; i < n; ++i) { ms.push_back(gen_msg(c, elem, n > 6 ? 4 : 20)); wire += ms.back().wire; }
    put_varuint(framed, wire.size());
    framed += wire;
    c.note("type", [&] { return "opaque vector of " + std::string(elem); });
    c.note("wire", [&] { return pbt::hexs(wire); });
    c.key(elem);
    c.key(wire);
    if (n) c.nontrivial();
    auto in = exact(framed);
    eosio::opaque<std::vector<T>> a, b;
    eosio::input_stream st(in.data(), in.size()), st2 = st;
    from_bin(a, st);
    from_bin(b, st2);
    if (bin(a) != framed) c.fail("opaque", "encodes as " + pbt::hexs(bin(a)));
    size_t got = a.unpack_size();
    if (got != n) c.fail("opaque", "unpack_size is " + std::to_string(got) + ", not " + std::to_string(n));
    for (size_t i = 0; i < n; ++i) {
        T v{};
        if (a.empty() != false) c.fail("opaque", "empty before element " + std::to_string(i));
        if (s.flip()) a.unpack_next(v);
        else v = a.unpack_next();
        if (bin(v) != ms[i].wire) c.fail("opaque", "element " + std::to_string(i) + " is " + pbt::hexs(bin(v)) + ", not " + pbt::hexs(ms[i].wire));
    }
    if (!a.empty()) c.fail("opaque", "not consumed after " + std::to_string(n) + " elements");
    bool t = false;
    try { a.unpack_next(); } catch (std::exception&) { t = true; }
    if (!t) c.fail("opaque", "an element after the last");
    auto all = b.unpack();
    if (bin(all) != wire) c.fail("opaque", "unpack differs");
}
}  // namespace

#define MSG(T) PROP(T, 2) { run<sp::T, true>(c, #T); }
#define MSG_BIN(T) PROP(T, 2) { run<sp::T, false>(c, #T); }
#if SHARD == 0
MSG(request)
MSG(table_delta)
MSG(get_blocks_result_v0)
MSG(get_status_result_v0)
PROP(block_info, 1) { run<chain_types::block_info, true>(c, "block_info"); }
PROP(opaque_delta, 2) { opaque_vector<sp::table_delta>(c, "table_delta"); }
PROP(opaque_block_position, 1) { opaque_case<sp::block_position>(c, "block_position"); }
PROP(opaque_action, 1) { opaque_case<sp::action>(c, "action"); }
PROP(opaque_level, 1) { opaque_vector<sp::permission_level>(c, "permission_level"); }
PROP(status, 1) {
    auto& s = c.s;
    int i = int(s.below(8));
    uint8_t n = i < 5 ? uint8_t(i) : uint8_t(s.byte());
    c.key(std::to_string(n));
    c.note("status", [&] { return std::to_string(n); });
    c.nontrivial();
    std::string t;
    bool threw = false;
    try { t = sp::to_string(sp::transaction_status(n)); } catch (std::exception&) { threw = true; }
    if (threw != (n > 4) || (n < 5 && t != ship::STATUS[n])) c.fail("status", std::to_string(n) + " is " + t);
    if (n < 5 && (uint8_t(sp::get_transaction_status(t)) != n || eosio::convert_to_json(sp::transaction_status(n)) != "\"" + t + "\"")) c.fail("status", t);
    std::string x = n < 5 ? std::string(ship::STATUS[n]) : gen_utf8(s, 10);
    if (!x.empty()) { if (s.flip()) x[s.below(x.size())] ^= char(1 << s.below(7)); else x += char(s.byte()); }
    bool known = false;
    for (auto k : ship::STATUS) known |= x == k;
    threw = false;
    try { sp::get_transaction_status(x); } catch (std::exception&) { threw = true; }
    if (threw == known) c.fail("status", "text " + pbt::quote(x));
}
#elif SHARD == 1
MSG(transaction_trace)
PROP(opaque_trace, 2) { opaque_vector<sp::transaction_trace>(c, "transaction_trace"); }
#elif SHARD == 2
MSG(signed_block_variant)
MSG(transaction)
MSG(prunable_data_type)
#elif SHARD == 3
MSG_BIN(result)
#elif SHARD == 4
MSG(account)
MSG(account_metadata)
MSG(code)
MSG(contract_table)
MSG(contract_row)
MSG(contract_index64)
MSG(contract_index128)
MSG(contract_index256)
MSG(contract_index_double)
MSG(contract_index_long_double)
#elif SHARD == 5
MSG(key_value)
MSG(global_property)
MSG(generated_transaction)
MSG(protocol_state)
MSG(permission)
MSG(permission_link)
MSG(resource_limits)
MSG(resource_usage)
MSG(resource_limits_state)
MSG(resource_limits_config)
#endif

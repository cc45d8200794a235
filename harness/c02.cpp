// binary -> JSON through a contract ABI: exact, well-formed, and re-encodes to the same bytes.
#include "capi.hpp"
using namespace ref;

static void expect_json(pbt::Case& c, Ctx& x, const Built& b) {
    std::string j;
    if (!x.b2j(CONTRACT, b.type, b.wire, j)) c.fail("rejected", "valid binary rejected (" + x.error() + ") for type " + b.type);
    c.note("json", [&] { return j; });
    J p;
    std::string e;
    if (!parse_json(j, p, e)) c.fail("malformed", "output is not JSON (" + e + "): " + j);
    e = check_json(b.m, b.v, p, "$");
    if (!e.empty()) c.fail("value", e + " in " + j);
    std::string h;
    if (!x.h2j(CONTRACT, b.type, hex_any(c.s, b.wire), h) || h != j) c.fail("hex", "hex input gives a different result");
    std::string out;
    if (!x.j2b(CONTRACT, b.type, j, false, out)) c.fail("reencode-rejected", "own output rejected (" + x.error() + "): " + j);
    if (out != b.wire) c.fail("reencode", diff(out, b.wire) + " via " + j);
    if (!x.j2b(CONTRACT, b.type, j, true, out)) c.fail("reencode-rejected-reorderable", "own output rejected (" + x.error() + "): " + j);
    if (out != b.wire) c.fail("reencode-reorderable", diff(out, b.wire) + " via " + j);
}
PROP(general, 10) {
    auto b = build_case(c);
    Ctx x;
    load(c, x, b);
    expect_json(c, x, b);
}
PROP(bulk, 1) {
    auto b = bulk_case(c);
    Ctx x;
    load(c, x, b);
    expect_json(c, x, b);
}
PROP(scalars, 4) {
    Built b;
    b.m = AbiModel();
    b.abi_json = "{\"version\":\"eosio::abi/1.0\"}";
    b.root.def = int(c.s.below(b.m.first_user));
    int w = int(c.s.below(4));
    b.root.suf = w == 2 ? Suf::opt : w == 3 ? Suf::arr : Suf::none;
    b.type = b.m.text(b.root);
    GenVal g{b.m, c.s};
    g.budget = 400;
    b.v = g.gen(b.root, 0, true);
    encode(b.m, b.v, b.wire);
    c.key(b.type);
    c.key(b.wire);
    c.nontrivial();
    c.note("type", [&] { return b.type; });
    c.note("wire", [&] { return pbt::hexs(b.wire); });
    Ctx x;
    load(c, x, b);
    expect_json(c, x, b);
}
// strings holding arbitrary bytes: the JSON stays well formed, ill-formed bytes become '?'
PROP(any_string, 2) {
    std::string v = gen_bytes(c.s, 200);
    if (c.s.flip()) v += gen_utf8(c.s, 20);
    Bytes w;
    put_varuint(w, v.size());
    w += v;
    Ctx x;
    x.set_abi(CONTRACT, "{\"version\":\"eosio::abi/1.0\"}");
    std::string j, e;
    c.key(w);
    if (!utf8_valid(v)) { c.nontrivial(); c.label("ill-formed-utf8"); }
    c.note("string", [&] { return pbt::quote(v); });
    if (!x.b2j(CONTRACT, "string", w, j)) c.fail("rejected", "string rejected: " + x.error());
    J p;
    if (!parse_json(j, p, e)) c.fail("malformed", e + " in " + pbt::quote(j));
    c.require(p.k == J::str && p.s == utf8_sanitize(v), "value", [&] { return "got " + pbt::quote(p.s) + " expected " + pbt::quote(utf8_sanitize(v)); });
}

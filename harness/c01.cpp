// JSON -> binary through a contract ABI produces the reference wire encoding.
#include "capi.hpp"
using namespace ref;

static void expect_wire(pbt::Case& c, Ctx& x, const Built& b, const std::string& json, bool reorder) {
    std::string out;
    if (!x.j2b(CONTRACT, b.type, json, reorder, out))
        c.fail(reorder ? "reorderable-rejected" : "ordered-rejected", "valid JSON rejected (" + x.error() + "): " + json);
    if (out != b.wire) c.fail(reorder ? "reorderable-wire" : "ordered-wire", diff(out, b.wire) + " for " + json);
    const char* h = abieos_get_bin_hex(x.c);
    c.require(h && h == pbt::hexs(b.wire), "bin-hex", "hex of the generated binary differs");
}

PROP(general, 10) {
    auto b = build_case(c);
    Ctx x;
    load(c, x, b);
    std::string j;
    write_json(b.m, b.v, c.s, JsonOpts{true}, j);
    c.note("json", [&] { return j; });
    expect_wire(c, x, b, j, false);
    expect_wire(c, x, b, j, true);
    std::string k;
    write_json(b.m, b.v, c.s, JsonOpts{true, true, true}, k);
    expect_wire(c, x, b, k, true);
}

// large arrays, structs, variants and strings
PROP(bulk, 1) {
    auto b = bulk_case(c);
    Ctx x;
    load(c, x, b);
    std::string j;
    write_json(b.m, b.v, c.s, JsonOpts{false}, j);
    expect_wire(c, x, b, j, false);
    expect_wire(c, x, b, j, true);
}

// one scalar type directly, and wrapped
PROP(scalars, 4) {
    Built b;
    b.m = AbiModel();
    b.abi_json = "{\"version\":\"eosio::abi/1.0\"}";
    b.root.def = int(c.s.below(b.m.first_user));
    int w = int(c.s.below(4));
    b.root.suf = w == 2 ? Suf::opt : w == 3 ? Suf::arr : Suf::none;
    b.type = b.m.text(b.root);
    GenVal g{b.m, c.s};
    g.budget = 400;
    b.v = g.gen(b.root, 0, true);
    encode(b.m, b.v, b.wire);
    Ctx x;
    load(c, x, b);
    std::string j;
    write_json(b.m, b.v, c.s, JsonOpts{true}, j);
    c.key(b.type);
    c.key(b.wire);
    c.nontrivial();
    c.note("type", [&] { return b.type; });
    c.note("json", [&] { return j; });
    expect_wire(c, x, b, j, false);
    expect_wire(c, x, b, j, true);
}

// deeply nested data
PROP(deep, 1) {
    Built b;
    b.m = AbiModel();
    int st;
    b.root = chain_type(b.m, st);
    b.abi_json = doc_json(make_doc(b.m, c.s));
    b.type = "chain_link";
    int n = 1 + int(c.s.below(100));
    Val cur;
    bool have = false;
    for (int i = 0; i < n; ++i) {
        Val l;
        l.t = TR{st};
        Val u;
        u.t = TR{int(Sc::u8)};
        u.wire = Bytes(1, char(i));
        Val o;
        o.t = TR{st, Suf::opt};
        o.present = have;
        if (have) o.kids.push_back(cur);
        l.kids = {u, o};
        cur = l;
        have = true;
    }
    b.v = cur;
    encode(b.m, b.v, b.wire);
    if (n > 5) c.nontrivial();
    c.key(std::to_string(n));
    c.note("depth", [&] { return std::to_string(n); });
    Ctx x;
    load(c, x, b);
    std::string j;
    write_json(b.m, b.v, c.s, JsonOpts{true}, j);
    expect_wire(c, x, b, j, false);
    expect_wire(c, x, b, j, true);
}

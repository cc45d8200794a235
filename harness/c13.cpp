// Native types and the ABI generated from them; ABIs exported and imported again.
#include "gt_types.hpp"

using namespace nat;

namespace {
using eosio::abi;
using eosio::abi_def;
std::vector<char> tight(const std::vector<char>& v) { std::vector<char> r(v.begin(), v.end()); r.shrink_to_fit(); return r; }
std::vector<char> tight(const Bytes& v) { std::vector<char> r(v.begin(), v.end()); r.shrink_to_fit(); return r; }
void import(abi_def& def, const Bytes& bin, pbt::Case& c) {
    auto w = tight(bin);
    eosio::input_stream st(w.data(), w.size());
    from_bin(def, st);
    c.require(st.remaining() == 0, "left-over", "reading a definition left bytes unread");
}
// export and import: through plain data or through the binary form
struct Round {
    abi_def def;
    abi back;
    Bytes bin;
    Round(pbt::Case& c, const abi& a, bool binary) {
        try {
            abi_def out;
            convert(a, out);
            bin = str(eosio::convert_to_bin(out));
            if (binary) import(def, bin, c);
            else def = out;
            convert(def, back);
        } catch (std::exception& e) { c.fail("reimport", std::string("exporting and importing an ABI: ") + e.what()); }
    }
};
const eosio::abi_type* get(pbt::Case& c, abi& a, const std::string& name, const char* which) {
    try { return a.get_type(name); } catch (std::exception& e) { c.fail("no-type", std::string(which) + " ABI: " + name + ": " + e.what()); }
    return nullptr;
}
std::string read(pbt::Case& c, const eosio::abi_type* t, const Bytes& bin, const char* which) {
    auto w = tight(bin);
    eosio::input_stream st(w.data(), w.size());
    std::string r;
    try { r = t->bin_to_json(st); } catch (std::exception& e) { c.fail("bin-rejected", std::string(which) + " ABI: " + e.what() + " for " + t->name + " " + pbt::hexs(bin)); }
    if (st.remaining()) c.fail("bytes-left", std::string(which) + " ABI leaves bytes of " + t->name);
    return r;
}
Bytes write(pbt::Case& c, const eosio::abi_type* t, const std::string& json, bool reorder, const char* which) {
    std::string j = json + std::string(4, '\0');
    try { return str(reorder ? t->json_to_bin_reorderable(std::string_view(j.data(), json.size())) : t->json_to_bin(std::string_view(j.data(), json.size()))); } catch (std::exception& e) { c.fail("json-rejected", std::string(which) + " ABI: " + e.what() + " for " + t->name + " " + json); }
    return {};
}
// the struct's fields, as its native description has them
template <class T, size_t... I> void fields_i(std::vector<std::string>& r, std::index_sequence<I...>) { (r.push_back(tn<std::decay_t<std::tuple_element_t<I, decltype(Desc<T>::tie(std::declval<T&>()))>>>()), ...); }
template <class T> void check_fields(pbt::Case& c, const eosio::abi_type* t, const char* which) {
    if constexpr (Desc<T>::ok) {
        auto* st = t->as_struct();
        if (!st) c.fail("not-a-struct", std::string(which) + " ABI: " + t->name);
        auto& n = Desc<T>::names();
        std::vector<std::string> ty;
        fields_i<T>(ty, std::make_index_sequence<std::tuple_size_v<decltype(Desc<T>::tie(std::declval<T&>()))>>());
        bool ok = st->fields.size() == n.size();
        for (size_t i = 0; ok && i < n.size(); ++i) ok = st->fields[i].name == n[i] && st->fields[i].type->name == ty[i];
        if (!ok) c.fail("fields", std::string(which) + " ABI: fields of " + t->name + " are not the reflected ones");
    }
}
using gt_outer_ = eosio::gt_derived;
using gt_var = std::variant<gt_leaf, std::vector<gt_derived>, std::optional<gt_leaf>, uint32_t, gt_tree>;
// two alternatives of one type: the text does not say which, the bytes do
using gt_twice = std::variant<uint16_t, gt_leaf, gt_leaf, std::string, uint16_t>;
template <class T> constexpr bool lossy = std::is_same_v<T, gt_twice>;
template <class T> void native(pbt::Case& c, abi& a) {
    auto& s = c.s;
    eosio::abi_type* added = nullptr;
    try { added = a.add_type<T>(); } catch (std::exception& e) { c.fail("add-type", tn<T>() + ": " + e.what()); }
    if (added->name != tn<T>()) c.fail("name", "type " + tn<T>() + " is called " + added->name);
    static const std::string label = tn<T>();
    c.label(label.c_str());
    G g{s};
    g.json = s.chance(2, 3);
    T v{};
    gen(g, v);
    Bytes w = wire(v);
    c.key(tn<T>() + w);
    if (w.size() > 2) c.nontrivial();
    c.note("type", [&] { return tn<T>(); });
    c.note("wire", [&] { return pbt::hexs(w); });
    if (str(eosio::convert_to_bin(v)) != w) c.fail("native-bin", tn<T>() + ": native binary is " + pbt::hexs(str(eosio::convert_to_bin(v))));
    std::string j = eosio::convert_to_json(v);
    Round r(c, a, s.flip());
    for (int k = 0; k < 2; ++k) {
        const char* which = k ? "re-imported" : "generated";
        auto* t = get(c, k ? r.back : a, tn<T>(), which);
        if (!k && t != added) c.fail("identity", "add_type and get_type give different types for " + tn<T>());
        check_fields<T>(c, t, which);
        std::string o = read(c, t, w, which);
        if (o != j) c.fail("bin-to-json", std::string(which) + " ABI gives " + o + " where the native writer gives " + j);
        if (!g.json || lossy<T>) continue;
        Bytes b = write(c, t, j, s.flip(), which);
        if (b != w) c.fail("json-to-bin", std::string(which) + " ABI gives " + pbt::hexs(b) + " for " + j);
    }
    if (a.add_type<T>() != added) c.fail("added-again", "adding " + tn<T>() + " again gives another type");
}
AbiModel user_abi(pbt::Source& s, abi_def& def, pbt::Case& c) {
    AbiOpts o;
    o.max_defs = 5;
    o.wide_variants = false;
    AbiModel m = gen_abi(s, o);
    import(def, doc_bin(make_doc(m, s), s.flip()), c);
    return m;
}
void empty_abi(abi_def& def) { def = {}; def.version = "eosio::abi/1.0"; }
#define TYPES(X) X(gt_twice) X(gt_ints) X(gt_chain) X(gt_leaf) X(gt_vecs) X(gt_base) X(gt_derived) X(gt_mixed) X(gt_tree) X(gt_node) X(gt_outer) X(std::vector<gt_node>) X(std::optional<gt_outer_>) X(gt_var) X(std::vector<gt_var>) X(std::vector<std::string>) X(std::optional<uint64_t>) X(bool) X(eosio::name) X(eosio::asset) X(eosio::extended_asset) X(std::string) X(unsigned __int128)
using Fn = void (*)(pbt::Case&, abi&);
const Fn fns[] = {
#define X(T) native<T>,
    TYPES(X)
#undef X
};
}  // namespace

PROP(generated, 6) {
    auto& s = c.s;
    abi_def def;
    abi a;
    if (s.chance(1, 4)) { user_abi(s, def, c); c.label("added to an ABI"); }
    else empty_abi(def);
    try { convert(def, a); } catch (std::exception& e) { c.fail("import", e.what()); }
    // a few other types first: adding must not depend on what is there
    constexpr size_t n = sizeof(fns) / sizeof(fns[0]);
    if (s.chance(1, 4)) { try { a.add_type<gt_node>(); a.add_type<gt_outer>(); } catch (std::exception& e) { c.fail("add-type", e.what()); } }
    fns[s.below(n)](c, a);
}
// trailing members which old data lacks
PROP(extensions, 2) {
    auto& s = c.s;
    abi_def def;
    empty_abi(def);
    abi a;
    convert(def, a);
    a.add_type<gt_ext>();
    Round r(c, a, s.flip());
    G g{s};
    g.json = true;
    gt_plain p;
    gen(g, p);
    int have = int(s.below(3));
    static const char* const members[] = {"2 members", "3 members", "4 members"};
    c.label(members[have]);
    Bytes w;
    std::string j;
    if (have == 2) { w = wire(p); j = eosio::convert_to_json(p); }
    else if (have == 1) { gt_mid m{p.a, p.b, p.c}; w = wire(m); j = eosio::convert_to_json(m); }
    else { gt_short m{p.a, p.b}; w = wire(m); j = eosio::convert_to_json(m); }
    c.key(w);
    c.note("wire", [&] { return pbt::hexs(w); });
    if (p.b.size()) c.nontrivial();
    for (int k = 0; k < 2; ++k) {
        const char* which = k ? "re-imported" : "generated";
        auto* t = get(c, k ? r.back : a, "gt_ext", which);
        std::string o = read(c, t, w, which);
        if (o != j) c.fail("extension-json", std::string(which) + " ABI gives " + o + " where the native writer gives " + j);
        Bytes b = write(c, t, j, s.flip(), which);
        if (b != w) c.fail("extension-bin", std::string(which) + " ABI gives " + pbt::hexs(b) + " for " + j);
    }
    // natively
    gt_ext x;
    x.c.value.x = 200;
    x.d.value = {7};
    auto buf = tight(w);
    eosio::input_stream st(buf.data(), buf.size());
    from_bin(x, st);
    if (st.remaining()) c.fail("extension-native", "bytes left");
    gt_plain q{x.a, x.b, x.c.value, x.d.value}, want = p;
    if (have < 1) { want.c = {}; want.c.x = 200; }
    if (have < 2) want.d = {7};
    if (!same(q, want)) c.fail("extension-native", "reads " + show(q) + " expected " + show(want));
    if (str(eosio::convert_to_bin(x)) != wire(want)) c.fail("extension-native", "writes other bytes");
}
// what an ABI cannot express is refused, whatever was added before
PROP(nesting, 1) {
    auto& s = c.s;
    abi_def def;
    abi a;
    if (s.flip()) user_abi(s, def, c);
    else empty_abi(def);
    convert(def, a);
    int k = int(s.below(7));
    c.key(std::to_string(k) + std::to_string(a.abi_types.size()));
    c.note("nesting", [&] { return std::to_string(k) + " in an ABI of " + std::to_string(a.abi_types.size()) + " types"; });
    c.nontrivial();
    if (s.flip()) a.add_type<gt_vecs>();
    std::string err;
    try {
        switch (k) {
        case 0: a.add_type<std::vector<std::vector<gt_leaf>>>(); break;
        case 1: a.add_type<std::vector<std::optional<gt_leaf>>>(); break;
        case 2: a.add_type<std::optional<std::vector<gt_leaf>>>(); break;
        case 3: a.add_type<std::optional<std::optional<gt_leaf>>>(); break;
        case 4: a.add_type<might_not_exist<might_not_exist<gt_leaf>>>(); break;
        case 5: a.add_type<std::variant<bool, std::vector<std::vector<gt_leaf>>>>(); break;
        default: a.add_type<std::variant<gt_leaf, std::optional<std::vector<gt_leaf>>>>(); break;
        }
    } catch (std::exception& e) { err = e.what(); }
    if (err.empty()) c.fail("nesting-accepted", "nesting " + std::to_string(k) + " is accepted");
    // and the ABI is usable afterwards
    native<gt_vecs>(c, a);
}
// any definition, exported and imported again
PROP(exported, 6) {
    auto& s = c.s;
    AbiOpts o;
    o.wide_variants = s.chance(1, 10);
    AbiModel m = gen_abi(s, o);
    Bytes doc = doc_bin(make_doc(m, s), s.flip());
    abi_def def;
    import(def, doc, c);
    abi a;
    try { convert(def, a); } catch (std::exception& e) { c.fail("import", e.what()); }
    // types used before the export must not change it
    std::vector<TR> roots;
    for (size_t n = 1 + s.below(3); n; --n) roots.push_back(gen_root(m, s));
    bool before = s.flip();
    if (before) for (auto& t : roots) get(c, a, m.text(t), "original");
    bool native_too = s.chance(1, 5);
    if (native_too) { try { a.add_type<gt_node>(); a.add_type<gt_derived>(); } catch (std::exception& e) { c.fail("add-type", e.what()); } }
    Round r(c, a, s.flip());
    c.key(doc);
    c.note("definition", [&] { return pbt::hexs(doc); });
    c.note("exported", [&] { return pbt::hexs(r.bin); });
    if (m.defs.size() > m.first_user) c.nontrivial();
    Round r2(c, r.back, s.flip());
    if (r2.bin != r.bin) c.fail("exported-again", "the re-imported ABI exports another definition: " + pbt::hexs(r2.bin));
    for (auto& root : roots) {
        GenVal g{m, s};
        g.budget = 30;
        Val v = g.gen(root, 0, true);
        Bytes w;
        encode(m, v, w);
        std::string type = m.text(root), in;
        c.note("type", [&] { return type; });
        c.note("wire", [&] { return pbt::hexs(w); });
        bool reorder = s.flip();
        JsonOpts jo;
        jo.reorder = reorder;
        jo.unknown = reorder && s.flip();
        write_json(m, v, s, jo, in);
        std::string first;
        abi* as[] = {&a, &r.back, &r2.back};
        const char* names[] = {"original", "re-imported", "twice re-imported"};
        for (int k = 0; k < 3; ++k) {
            auto* t = get(c, *as[k], type, names[k]);
            if (t->name != get(c, a, type, "original")->name) c.fail("type-name", type + " is " + t->name + " in the " + names[k] + " ABI");
            std::string o2 = read(c, t, w, names[k]);
            if (!k) first = o2;
            else if (o2 != first) c.fail("conversion", std::string(names[k]) + " ABI gives " + o2 + " instead of " + first);
            if (!k) {
                J j;
                std::string err;
                if (!parse_json(o2, j, err)) c.fail("json", "ill-formed JSON " + o2);
                err = check_json(m, v, j, "");
                if (!err.empty()) c.fail("json", err);
            }
            Bytes b = write(c, t, in, reorder, names[k]);
            if (b != w) c.fail("conversion", std::string(names[k]) + " ABI gives " + pbt::hexs(b) + " for " + in);
        }
    }
    if (native_too) { c.label("with native types"); native<gt_node>(c, r.back); native<gt_derived>(c, a); }
}

// Histories of C API calls on several contexts, against a model.
#include "capi.hpp"
#include <functional>
#include <map>
#include <memory>
using namespace ref;

struct Abi { AbiModel m; AbiDoc d; std::string json; Bytes bin; bool good = true; bool has_t = false; };
struct CtxModel {
    std::unique_ptr<Ctx> x;
    std::map<uint64_t, int> abis;   // contract -> index of the ABI in force
    bool has_bin = false;           // last conversion to binary succeeded with `bin`
    Bytes bin;
    const char* str = nullptr;      // last string result, must stay readable
    std::string str_want;
    std::string err;                // error text, only this context's own calls may change it
    std::map<std::pair<uint64_t, int>, int> dummy;
};
static Abi make_abi(pbt::Source& s) {
    Abi a;
    AbiOpts o;
    o.max_defs = 4;
    o.wide_variants = false;
    a.m = gen_abi(s, o);
    for (auto& d : a.m.defs) if (d.name == "T") throw pbt::Discard{};
    Def t;  // every ABI calls its root T, so that a stale one is noticed
    t.k = Def::alias;
    t.name = "T";
    t.target = gen_root(a.m, s);
    a.m.defs.push_back(t);
    static const uint64_t names[] = {0x5530ea0000000000ull, 0, 1, 0xffffffffffffffffull};
    for (auto n : names) {
        if (s.flip()) a.m.actions.push_back({n, s.chance(1, 5) ? gen_ident(s, *std::make_unique<std::set<std::string>>(), "q") : "T" + std::string(s.flip() ? "" : "?")});
        if (s.flip()) a.m.tables.push_back({n, s.chance(1, 5) ? "row" + std::to_string(s.below(9)) : a.m.text(gen_root(a.m, s))});
    }
    a.d = make_doc(a.m, s);
    if (s.chance(1, 3)) {
        a.good = false;
        switch (s.below(4)) {
        case 0: a.d.version = "eosio::abi/0.1"; break;
        case 1: a.d.structs.push_back({"zz_s", "T?", {}}); break;
        case 2: a.d.types.push_back({"zz_a", "zz_a"}); break;
        default: a.d.variants.push_back({"zz_v", {"no such type"}}); break;
        }
    }
    a.json = doc_json(a.d);
    a.bin = doc_bin(a.d);
    if (!a.good && a.d.version != "eosio::abi/0.1" && s.chance(1, 4)) { a.json.pop_back(); a.bin.pop_back(); }
    return a;
}
PROP(history, 10) {
    auto& s = c.s;
    std::vector<Abi> abis;
    for (size_t k = 2 + s.below(3); k--;) abis.push_back(make_abi(s));
    static const uint64_t contracts[] = {CONTRACT, 0, 1, 0xfffffffffffffff0ull, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13};
    bool crowd = s.chance(1, 4);  // many contracts in one context
    std::vector<CtxModel> cs(crowd ? 1 + s.below(2) : 1 + s.below(3));
    for (auto& m : cs) m.x = std::make_unique<Ctx>();
    int steps = 1 + int(s.below(crowd ? 100 : s.chance(1, 4) ? 60 : 20));
    std::string trace;
    auto log = [&](const std::string& t) { if (c.want_desc) trace += t + "; "; };
    int replaced = 0, failed_replace = 0, conv = 0;
    for (int st = 0; st < steps && !s.exhausted(); ++st) {
        size_t ci = s.below(cs.size());
        auto& m = cs[ci];
        Ctx& x = *m.x;
        uint64_t ct = contracts[s.below(crowd ? 16 : 4)];
        if (!crowd && s.chance(2, 3)) ct = contracts[s.below(2)];
        std::string where = "step " + std::to_string(st) + " ctx " + std::to_string(ci) + " contract " + name_text(ct) + " ";
        auto loaded = m.abis.find(ct);
        auto fail = [&](const char* tag, const std::string& t) { c.note("trace", [&] { return trace; }); c.fail(tag, where + t); };
        bool str_clobbered = false, failed = false;
        int op = int(s.below(14));
        if (loaded == m.abis.end() && op > 2 && op != 13 && s.chance(3, 4)) op = 0;
        int before = loaded == m.abis.end() ? -1 : loaded->second;
        std::function<void(abieos_context*)> again;  // the call, to be repeated on a fresh context when it fails
        if (op <= 2) {  // set an ABI
            int ai = int(s.below(abis.size()));
            auto& a = abis[ai];
            int form = int(s.below(3));
            log(where + "set " + std::to_string(ai) + (a.good ? "" : " (bad)") + " form " + std::to_string(form));
            std::string hx = form == 2 ? hex_any(s, a.bin) : "";
            std::vector<char> w(a.bin.begin(), a.bin.end());
            std::string js = a.json;
            bool good = a.good;
            if (s.chance(1, 6)) {  // text or bytes that are no ABI at all
                good = false;
                if (form == 0) js = js.substr(0, js.rfind('}'));
                else if (form == 1) w.resize(s.below(4));
                else if (hx.empty() || s.flip()) hx += s.flip() ? "0" : "x";
                else hx[s.below(hx.size())] = "gGx /:@`"[s.below(8)];
            }
            again = [js, ct, form, hx, w](abieos_context* y) { form == 0 ? abieos_set_abi(y, ct, js.c_str()) : form == 1 ? abieos_set_abi_bin(y, ct, w.data(), w.size()) : abieos_set_abi_hex(y, ct, hx.c_str()); };
            bool ok = form == 0 ? x.set_abi(ct, js) : form == 1 ? abieos_set_abi_bin(x.c, ct, w.data(), w.size()) : abieos_set_abi_hex(x.c, ct, hx.c_str());
            if (ok != good) fail("set-abi", std::string(good == a.good ? "setting ABI " : "setting damaged ABI ") + std::to_string(ai) + (ok ? " succeeded" : " failed: " + x.error()));
            if (ok) { if (m.abis.count(ct)) ++replaced; m.abis[ct] = ai; }
            else { failed = true; if (m.abis.count(ct)) ++failed_replace; }
        } else if (op <= 4) {  // lookups
            bool table = op == 4;
            uint64_t n = contracts[s.below(2)];
            if (s.chance(1, 3)) n = s.flip() ? 1 : ~0ull;
            log(where + (table ? "table " : "action ") + name_text(n));
            again = [=](abieos_context* y) { table ? abieos_get_type_for_table(y, ct, n) : abieos_get_type_for_action(y, ct, n); };
            const char* g = table ? abieos_get_type_for_table(x.c, ct, n) : abieos_get_type_for_action(x.c, ct, n);
            const std::string* want = nullptr;
            if (loaded != m.abis.end()) {
                if (table) { for (auto& t : abis[loaded->second].m.tables) if (t.name == n) want = &t.type; }
                else for (auto& t : abis[loaded->second].m.actions) if (t.name == n) want = &t.type;
            }
            if (!g != !want || (g && *want != g)) fail(table ? "table-type" : "action-type", "type of " + name_text(n) + " is " + (g ? g : "(none)") + " expected " + (want ? *want : "(none)"));
            failed = !g;
        } else if (op <= 8) {  // JSON to binary
            bool re = op & 1;
            if (loaded == m.abis.end()) {
                log(where + "json_to_bin without an ABI");
                std::string o;
                const char* ty = s.flip() ? "T" : "uint8";
                again = [=](abieos_context* y) { re ? abieos_json_to_bin_reorderable(y, ct, ty, "0") : abieos_json_to_bin(y, ct, ty, "0"); };
                if (x.j2b(ct, ty, "0", re, o)) fail("not-loaded", "conversion succeeded without an ABI");
                failed = true;
                m.has_bin = false;
            } else {
                auto& a = abis[loaded->second];
                GenVal g{a.m, s};
                g.budget = 15;
                TR t{int(a.m.defs.size()) - 1};
                Val v = g.gen(t, 0, true);
                Bytes w;
                encode(a.m, v, w);
                std::string j, o;
                JsonOpts jo;
                write_json(a.m, v, s, jo, j);
                int bad = int(s.below(8));  // 0..2: make it fail
                std::string type = "T";
                if (bad == 0) type = s.flip() ? "no_such" : "T$$";
                if (bad == 1) j += " ]";
                if (bad == 2) j = j.substr(0, j.size() - 1) + "\x01";
                log(where + "json_to_bin" + (re ? "_reorderable " : " ") + type + " " + j);
                again = [=](abieos_context* y) { re ? abieos_json_to_bin_reorderable(y, ct, type.c_str(), j.c_str()) : abieos_json_to_bin(y, ct, type.c_str(), j.c_str()); };
                bool ok = x.j2b(ct, type, j, re, o);
                if (ok != (bad > 2)) fail("json-to-bin", ok ? "accepted " + j : "rejected (" + x.error() + ") " + j);
                if (ok && o != w) fail("json-to-bin-wire", diff(o, w));
                failed = !ok;
                m.has_bin = ok;
                m.bin = w;
                ++conv;
            }
        } else if (op <= 11) {  // binary to JSON
            bool hx = op == 11;
            if (loaded == m.abis.end()) {
                log(where + "bin_to_json without an ABI");
                std::string o;
                again = [=](abieos_context* y) { hx ? abieos_hex_to_json(y, ct, "T", "00") : abieos_bin_to_json(y, ct, "T", "", 1); };
                bool ok = hx ? x.h2j(ct, "T", "00", o) : x.b2j(ct, "T", Bytes(1, 0), o);
                if (ok) fail("not-loaded", "conversion succeeded without an ABI");
                failed = true;
            } else {
                auto& a = abis[loaded->second];
                GenVal g{a.m, s};
                g.budget = 15;
                TR t{int(a.m.defs.size()) - 1};
                Val v = g.gen(t, 0, true);
                Bytes w;
                encode(a.m, v, w);
                int bad = int(s.below(8));
                std::string type = "T";
                if (bad == 0) type = "T??";
                Bytes in = w;
                bool want = bad != 0;
                if (bad == 1) { in += char(s.byte()); Val dv; want = ref_accepts(a.m, t, in, dv); if (want) { v = dv; } }
                std::vector<char> buf(in.begin(), in.end());
                std::string h = hx ? hex_any(s, in) : "";
                if (hx && s.chance(1, 4)) {  // not hex
                    size_t at = s.below(h.size() + 1);
                    if (s.flip() || h.empty()) h.insert(at, 1, "0gG/:@` "[s.below(8)]);
                    else h[std::min(at, h.size() - 1)] = "gG/:@`~\xff"[s.below(8)];
                    want = false;
                    bad = 1;
                }
                again = [=](abieos_context* y) { hx ? abieos_hex_to_json(y, ct, type.c_str(), h.c_str()) : abieos_bin_to_json(y, ct, type.c_str(), buf.data(), buf.size()); };
                log(where + (hx ? "hex_to_json " : "bin_to_json ") + type + " " + pbt::hexs(in));
                const char* r = hx ? abieos_hex_to_json(x.c, ct, type.c_str(), h.c_str()) : abieos_bin_to_json(x.c, ct, type.c_str(), buf.data(), buf.size());
                if (!r != !want) fail("bin-to-json", r ? std::string("accepted as ") + r : "rejected: " + x.error());
                str_clobbered = true;
                if (r) {
                    J p;
                    std::string e;
                    if (!parse_json(r, p, e)) fail("bin-to-json-malformed", e);
                    if (bad != 1) e = check_json(a.m, v, p, "$");
                    if (!e.empty()) fail("bin-to-json-value", e + " in " + r);
                    m.str = r;
                    m.str_want = r;
                } else failed = true;
                if (r) str_clobbered = false;
                ++conv;
            }
        } else if (op == 12) {  // reading results, names
            int k = int(s.below(3));
            log(where + "read " + std::to_string(k));
            if (k == 0) {
                const char* h = abieos_get_bin_hex(x.c);
                if (!h) fail("bin-hex", "no hex");
                if (m.has_bin && pbt::hexs(m.bin) != h) fail("bin-hex", std::string("hex of the result is ") + h + " expected " + pbt::hexs(m.bin));
                m.str = h;
                m.str_want = h;
            } else if (k == 1) {
                uint64_t n = gen_name(s);
                const char* r = abieos_name_to_string(x.c, n);
                if (!r || name_text(n) != r) fail("name", std::string("name ") + (r ? r : "(null)") + " expected " + name_text(n));
                m.str = r;
                m.str_want = r;
            } else {
                uint64_t n = gen_name(s);
                if (abieos_string_to_name(x.c, name_text(n).c_str()) != n) fail("name", "string_to_name " + name_text(n));
            }
        } else {  // null arguments, or a fresh context
            int k = int(s.below(8));
            log(where + "null/recreate " + std::to_string(k));
            bool ok = false;
            switch (k) {
            case 0: ok = abieos_set_abi(x.c, ct, nullptr); failed = true; break;
            case 1: ok = abieos_set_abi_bin(x.c, ct, nullptr, s.below(9)); failed = true; break;
            case 2: ok = abieos_set_abi_hex(x.c, ct, nullptr); failed = true; break;
            case 3: ok = abieos_json_to_bin(x.c, ct, nullptr, "{}"); failed = true; m.has_bin = false; break;
            case 4: ok = abieos_json_to_bin_reorderable(x.c, ct, "T", nullptr); failed = true; m.has_bin = false; break;
            case 5: ok = abieos_bin_to_json(x.c, ct, nullptr, "", 0); failed = true; str_clobbered = true; break;
            case 6: {  // null data counts as no data
                const char* r = abieos_bin_to_json(x.c, ct, "uint8", nullptr, 5);
                ok = r;
                failed = true;
                str_clobbered = true;
                break;
            }
            default:
                m = CtxModel();
                m.x = std::make_unique<Ctx>();
                break;
            }
            if (ok) fail("null-accepted", "a call with a null argument succeeded");
        }
        // after every call
        if (str_clobbered) m.str = nullptr;
        if (failed && m.x->error().empty()) fail("no-error-text", "a failed call left no error text");
        m.err = m.x->error();
        if (failed && again) {  // the error is about this call, whatever happened before it
            Ctx y;
            if (before >= 0 && !y.set_abi(ct, abis[before].json)) fail("set-abi", "a fresh context rejected ABI " + std::to_string(before) + ": " + y.error());
            again(y.c);
            if (y.error() != m.err) fail("stale-error", "error is \"" + m.err + "\", on a fresh context \"" + y.error() + "\"");
        }
        for (size_t k = 0; k < cs.size(); ++k) {
            auto& o = cs[k];
            if (o.x->error() != o.err) fail("error-leaked", "context " + std::to_string(k) + "'s error changed to " + o.x->error());
            if (o.has_bin && o.x->bin() != o.bin) fail("bin-lost", "context " + std::to_string(k) + "'s binary result changed");
            if (k != ci && o.str && o.str_want != o.str) fail("string-lost", "context " + std::to_string(k) + "'s string result changed");
        }
    }
    c.note("trace", [&] { return trace; });
    c.key(trace);
    for (auto& a : abis) c.key(a.json);
    c.key(std::to_string(steps) + "/" + std::to_string(conv) + "/" + std::to_string(replaced) + "/" + std::to_string(s.used()));
    if (replaced) c.label("replaced-abi");
    if (failed_replace) c.label("failed-replacement");
    if (conv >= 2) c.nontrivial();
}
// a null context is answered, never followed
PROP(null_context, 1) {
    auto& s = c.s;
    uint64_t ct = s.u64();
    c.key(std::to_string(ct));
    std::string t = gen_utf8(s, 10), d = gen_bytes(s, 10);
    bool bad = abieos_get_bin_size(nullptr) || abieos_get_bin_data(nullptr) || abieos_get_bin_hex(nullptr) || abieos_name_to_string(nullptr, ct) || abieos_set_abi(nullptr, ct, t.c_str()) ||
               abieos_set_abi_bin(nullptr, ct, d.data(), d.size()) || abieos_set_abi_hex(nullptr, ct, t.c_str()) || abieos_get_type_for_action(nullptr, ct, ct) || abieos_get_type_for_table(nullptr, ct, ct) ||
               abieos_json_to_bin(nullptr, ct, t.c_str(), t.c_str()) || abieos_json_to_bin_reorderable(nullptr, ct, t.c_str(), t.c_str()) || abieos_bin_to_json(nullptr, ct, t.c_str(), d.data(), d.size()) ||
               abieos_hex_to_json(nullptr, ct, t.c_str(), t.c_str());
    if (bad) c.fail("null-context", "a call on a null context succeeded");
    if (!abieos_get_error(nullptr) || !*abieos_get_error(nullptr)) c.fail("null-context", "no error text for a null context");
    if (abieos_string_to_name(nullptr, name_text(ct).c_str()) != ct) c.fail("null-context", "string_to_name without a context");
    if (abieos_string_to_name(nullptr, nullptr) != 0) c.fail("null-context", "string_to_name of null");
    abieos_destroy(nullptr);
}

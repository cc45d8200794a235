// JSON strings: escaping, decoding, ill-formed UTF-8, malformed text; as value, member name and variant tag.
#include "capi.hpp"
#include <eosio/types.hpp>
#include <eosio/from_json.hpp>
#include <eosio/reflection.hpp>
#include <eosio/to_json.hpp>
#include <map>
#include <optional>
#include <variant>
using namespace ref;

namespace sj {
struct holder {
    std::string a;
    std::vector<std::string> list;
    std::optional<std::string> opt;
    uint32_t n = 0;
};
EOSIO_REFLECT(holder, a, list, opt, n)
}  // namespace sj

namespace {
using SV = std::variant<uint32_t, std::string, std::vector<std::string>>;
// reads native JSON; false when it throws
template <class T> bool rd(const std::string& text, T& v) {
    std::vector<char> buf(text.begin(), text.end());
    buf.insert(buf.end(), 4, '\0');
    buf.shrink_to_fit();
    eosio::json_token_stream js(buf.data());
    try { from_json(v, js); js.get_end(); } catch (std::exception&) { return false; }
    return true;
}
// long runs, windows of multi-byte characters at every alignment, mixtures with ill-formed bytes
std::string gen_text(pbt::Source& s, bool valid) {
    std::string r;
    for (size_t k = 1 + s.below(3); k; --k) {
        if (s.flip()) r += std::string(s.below(5), 'q');
        r += gen_utf8(s, 24);
        if (!valid && s.chance(2, 3)) {
            switch (s.below(4)) {
            case 0: r += gen_bytes(s, 8); break;
            case 1: { std::string u = gen_utf8(s, 3); if (!u.empty()) u.resize(u.size() - 1); r += u; break; }  // cut character
            case 2: r += char(0x80 | s.below(128)); break;
            default: { static const char* bad[] = {"\xed\xa0\x80", "\xf4\x90\x80\x80", "\xc0\xaf", "\xe0\x80\x80", "\xf0\x80\x80\x80", "\xf8\x88\x80\x80\x80", "\xff", "\xf5\x80\x80\x80", "\xed\xbf\xbf", "\xe0\x9f\xbf", "\xf0\x8f\xbf\xbf", "\xc1\xbf"}; r += bad[s.below(12)]; }
            }
        }
    }
    return r;
}
template <class T> std::string print(pbt::Case& c, const T& v, bool pretty = false) {
    std::string t = eosio::convert_to_json(v);
    eosio::size_stream ss;
    to_json(v, ss);
    if (ss.size != t.size()) c.fail("sink", "size_stream counts " + std::to_string(ss.size) + " of " + std::to_string(t.size()));
    std::vector<char> d;
    eosio::vector_stream vs(d);
    to_json(v, vs);
    if (std::string(d.begin(), d.end()) != t) c.fail("sink", "vector_stream differs");
    return pretty ? eosio::format_json(v) : t;
}
J strict(pbt::Case& c, const std::string& t) {
    J j;
    std::string e;
    if (!parse_json(t, j, e)) c.fail("malformed-output", e + ": " + pbt::quote(t));
    return j;
}
void is(pbt::Case& c, const J& j, const std::string& v, const char* what) {
    if (j.k != J::str || j.s != utf8_sanitize(v)) c.fail("value", std::string(what) + ": " + pbt::quote(v) + " written as " + pbt::quote(j.s));
}
}  // namespace

PROP(write, 5) {
    auto& s = c.s;
    bool valid = s.flip();
    std::string v = gen_text(s, valid), w = gen_text(s, valid);
    valid = utf8_valid(v) && utf8_valid(w);
    c.key(v);
    c.key(w);
    c.note("strings", [&] { return pbt::quote(v) + " " + pbt::quote(w); });
    if (!v.empty()) c.nontrivial();
    c.label(valid ? "valid UTF-8" : "ill-formed UTF-8");
    // exact-size copy so that over-reads are visible
    std::vector<char> x(v.begin(), v.end());
    x.shrink_to_fit();
    std::string t = print(c, std::string_view(x.data(), x.size()));
    is(c, strict(c, t), v, "string_view");
    if (print(c, v) != t) c.fail("value", "std::string and std::string_view differ");
    if (v.find('\0') == v.npos && eosio::convert_to_json((const char*)v.c_str()) != t) c.fail("value", "const char* and std::string_view differ");
    for (unsigned char ch : t) if (ch < 32 || ch == 127) c.fail("value", "control character left in " + pbt::quote(t));
    sj::holder h{v, {w, v, ""}, w, 7};
    std::string ht = print(c, h, s.chance(1, 3));
    J j = strict(c, ht);
    if (j.k != J::obj || j.o.size() != 4) c.fail("value", "struct printed as " + ht);
    is(c, j.o[0].second, v, "member");
    is(c, j.o[1].second.a.at(0), w, "element");
    is(c, j.o[1].second.a.at(1), v, "element");
    is(c, j.o[2].second, w, "optional");
    SV va(v);
    std::string vt = print(c, va);
    is(c, strict(c, vt).a.at(1), v, "alternative");
    if (!valid) return;
    std::string r = "old";
    if (!rd(t, r) || r != v) c.fail("roundtrip", pbt::quote(v) + " read back as " + pbt::quote(r));
    sj::holder g{"x", {"y"}, "z", 1};
    if (!rd(ht, g) || g.a != v || g.list != h.list || g.opt != h.opt || g.n != 7) c.fail("roundtrip", "struct with " + pbt::quote(v) + " and " + pbt::quote(w));
    SV vb;
    if (!rd(vt, vb) || vb != va) c.fail("roundtrip", "variant with " + pbt::quote(v));
}
// any spelling, then edits: accepted exactly when the text is a JSON string, with the value it denotes
PROP(read, 5) {
    auto& s = c.s;
    std::string v = gen_text(s, true), t = json_str_any(s, v);
    bool edited = s.flip();
    if (edited) {
        for (size_t k = 1 + s.below(2); k && !t.empty(); --k) {
            size_t p = s.below(t.size());
            if (s.chance(1, 3)) p = t.size() - 1 - s.below(std::min<size_t>(t.size(), 3));
            switch (s.below(6)) {
            case 0: t.erase(p, 1 + s.below(2)); break;
            case 1: t[p] = char(1 + s.below(255)); break;
            case 2: t.insert(p, 1, "\"\\/bfnrtu0aAdD8cCFe{}[],: \t\n\x1f\x7f\x80\xc2\xed\xf4"[s.below(35)]); break;
            case 3: t.resize(p); break;
            case 4: t.insert(p, s.pick({std::string("\\ud800"), std::string("\\udbff\\udfff"), std::string("\\ud83d\\u0041"), std::string("\\u00e9"), std::string("\\x41"), std::string("\\u12"), std::string("\\u00zz"), std::string("\\uDBFF"), std::string("\\u0000"), std::string("\\'"), std::string("\n"), std::string("\xed\xa0\x80")})); break;
            default: t[p] ^= char(1 << s.below(8)); if (!t[p]) t[p] = 1; break;
            }
        }
    }
    for (auto& ch : t) if (!ch) ch = 1;  // the text is NUL-terminated
    c.key(t);
    c.note("text", [&] { return pbt::quote(t); });
    if (t.size() > 2) c.nontrivial();
    J j;
    std::string e;
    bool ok = parse_json(t, j, e);
    if (!ok && e.compare(0, 8, "lone low") == 0) return;  // left to RapidJSON, whose versions differ
    c.label(ok ? "well-formed" : "malformed");
    std::string r = "old";
    bool got = rd(t, r);
    if (!ok && got) c.fail("malformed", "accepts " + pbt::quote(t) + " (" + e + ")");
    if (ok && j.k == J::str && !got) c.fail("rejected", "rejects " + pbt::quote(t));
    if (ok && j.k == J::str && r != j.s) c.fail("decode", pbt::quote(t) + " read as " + pbt::quote(r));
    if (ok && j.k != J::str && j.k != J::num && got) c.fail("malformed", "reads a string from " + pbt::quote(t));
}
// whole documents with edits, read as an ignored member: accepted exactly when well-formed
PROP(document, 3) {
    auto& s = c.s;
    std::string t;
    std::function<void(int)> doc = [&](int d) {
        t += gen_ws(s);
        switch (s.below(d > 4 ? 5 : 8)) {
        case 0: t += s.pick({"null", "true", "false"}); break;
        case 1: t += std::to_string(s.range(-1000, 100000)); break;
        case 2: t += s.pick({"0", "-0", "1.5", "-0.25", "1e3", "2E-3", "0.5e+2", "123456789012345678901234567890"}); break;
        case 3: t += json_str_any(s, gen_utf8(s, 8)); break;
        case 4: t += "[]"; break;
        case 5: case 6: {
            t += '[';
            for (size_t n = s.below(4), i = 0; i < n; ++i) { if (i) t += ','; doc(d + 1); }
            t += ']';
            break;
        }
        default: {
            t += '{';
            for (size_t n = s.below(4), i = 0; i < n; ++i) { if (i) t += ','; t += gen_ws(s); t += json_str_any(s, gen_utf8(s, 5)); t += gen_ws(s); t += ':'; doc(d + 1); }
            t += '}';
        }
        }
        t += gen_ws(s);
    };
    doc(0);
    if (s.chance(2, 3)) {
        for (size_t k = 1 + s.below(2); k && !t.empty(); --k) {
            size_t p = s.below(t.size());
            switch (s.below(5)) {
            case 0: t.erase(p, 1); break;
            case 1: t.insert(p, 1, "{}[],:\"0-.+eEnt \\/x\x0b\x01"[s.below(22)]); break;
            case 2: t[p] = "{}[],:\"0-.+eEnt \\/x\x0b\x01"[s.below(22)]; break;
            case 3: t.resize(p); break;
            default: t.insert(p, s.pick({std::string(",,"), std::string("//"), std::string("/* */"), std::string("'a'"), std::string("NaN"), std::string("Infinity"), std::string("01"), std::string("1."), std::string(".5"), std::string("+1"), std::string("\xef\xbb\xbf"), std::string("\xc2\xa0")})); break;
            }
        }
    }
    std::string full = "{\"zz\":" + t + ",\"n\":41}";
    c.key(full);
    c.note("text", [&] { return pbt::quote(full); });
    J j;
    std::string e;
    bool ok = parse_json(full, j, e);
    if (t.size() > 4) c.nontrivial();
    c.label(ok ? "well-formed" : "malformed");
    if (full.find('\0') != full.npos || (!ok && e.compare(0, 8, "lone low") == 0)) return;
    if (ok)  // RapidJSON limits exponents
        for (size_t i = 0; i + 4 < full.size(); ++i)
            if ((full[i] == 'e' || full[i] == 'E') && isdigit((unsigned char)full[i + 2]) && isdigit((unsigned char)full[i + 3])) return;
    // ordinary members other than "zz" and "n" could be introduced by an edit; only the verdict on those kinds is left open
    if (ok && (j.k != J::obj || j.o.size() != 2 || j.o[0].first != "zz" || j.o[1].first != "n" || j.o[1].second.s != "41")) return;
    sj::holder h{"x", {"y"}, "z", 1};
    bool got = rd(full, h);
    if (ok != got) c.fail(ok ? "rejected" : "malformed", std::string(got ? "accepts " : "rejects ") + pbt::quote(full) + (ok ? "" : " (" + e + ")"));
    if (got && (h.n != 41 || h.a != "x" || h.list != std::vector<std::string>{"y"} || h.opt != "z")) c.fail("document", "an unknown member changes the value: " + pbt::quote(full));
}
// field names and variant tags of an ABI
PROP(names, 3) {
    auto& s = c.s;
    std::set<std::string> used{"", "vv", "rec", "uint8", "uint16", "uint32", "string"};
    auto fresh = [&] {
        for (;;) {
            std::string n = gen_text(s, true);
            if (n.size() > 40) n = gen_utf8(s, 8);
            while (used.count(n)) n += "_";
            char l = n.back();
            if (l == '?' || l == '$' || l == ']') n += 'x';
            if (used.insert(n).second) return n;
        }
    };
    std::string f1 = fresh(), f2 = fresh(), t1 = fresh(), t2 = fresh(), a1 = gen_text(s, true);
    auto q = [&](const std::string& x) { return json_str_any(s, x); };
    std::string abi = "{\"version\":\"eosio::abi/1.1\",\"types\":[{\"new_type_name\":" + q(t1) + ",\"type\":\"uint8\"},{\"new_type_name\":" + q(t2) + ",\"type\":\"string\"}],\"structs\":[{\"name\":\"rec\",\"base\":\"\",\"fields\":[{\"name\":" + q(f1) + ",\"type\":\"vv\"},{\"name\":" + q(f2) + ",\"type\":" + q(t2) + "}]}],\"variants\":[{\"name\":\"vv\",\"types\":[" + q(t1) + "," + q(t2) + "]}]}";
    c.note("names", [&] { return pbt::quote(f1) + " " + pbt::quote(f2) + " " + pbt::quote(t1) + " " + pbt::quote(t2) + " " + pbt::quote(a1); });
    c.key(f1); c.key(f2); c.key(t1); c.key(t2); c.key(a1);
    c.nontrivial();
    Ctx x;
    if (!x.set_abi(CONTRACT, abi)) c.fail("names", "ABI rejected: " + x.error() + " " + pbt::quote(abi));
    bool alt = s.flip();
    Bytes w;
    w += char(alt);
    if (alt) { put_varuint(w, a1.size()); w += a1; } else w += char(5);
    put_varuint(w, a1.size());
    w += a1;
    std::string t, out;
    if (!x.b2j(CONTRACT, "rec", w, t)) c.fail("names", "bin_to_json: " + x.error());
    J j = strict(c, t);
    if (j.k != J::obj || j.o.size() != 2 || j.o[0].first != f1 || j.o[1].first != f2) c.fail("names", "member names in " + pbt::quote(t));
    auto& v = j.o[0].second;
    if (v.k != J::arr || v.a.size() != 2 || v.a[0].s != (alt ? t2 : t1)) c.fail("names", "variant tag in " + pbt::quote(t));
    if (j.o[1].second.s != a1 || (alt && v.a[1].s != a1)) c.fail("names", "string value in " + pbt::quote(t));
    if (!x.j2b(CONTRACT, "rec", t, s.flip(), out) || out != w) c.fail("names", "own text not read back: " + pbt::quote(t) + " " + x.error());
    std::string m1 = q(f1) + ":[" + q(alt ? t2 : t1) + "," + (alt ? q(a1) : "5") + "]", m2 = q(f2) + ":" + q(a1);
    if (!x.j2b(CONTRACT, "rec", "{" + m1 + "," + m2 + "}", false, out) || out != w) c.fail("names", "respelled text: " + pbt::quote(m1 + "," + m2) + " " + x.error());
    if (!x.j2b(CONTRACT, "rec", "{" + m2 + "," + m1 + "}", true, out) || out != w) c.fail("names", "reordered text: " + pbt::quote(m2 + "," + m1) + " " + x.error());
    // a name that differs in one character names nothing
    std::string f3 = f2, t3 = alt ? t2 : t1, add = s.pick({"x", " ", "\x01"});
    bool name = s.flip();
    if (name) f3 += add; else t3 += add;
    if (f3 != f1 && (name || !used.count(t3))) {
        std::string bad = "{" + q(f1) + ":[" + q(t3) + "," + (alt ? q(a1) : "5") + "]," + q(f3) + ":" + q(a1) + "}";
        if (x.j2b(CONTRACT, "rec", bad, s.flip(), out)) c.fail("names", "a different name is accepted: " + pbt::quote(bad));
    }
}

// json_token_stream driven by random histories against the document's token list.
#include "ref.hpp"
#include <eosio/from_json.hpp>
#include <memory>
using namespace ref;
using TT = eosio::json_token_type;

namespace {
struct Tok { TT t; bool b = false; std::string s; size_t skip = 0; };  // skip: index after the value starting here
void toks(const J& j, std::vector<Tok>& o) {
    size_t at = o.size();
    switch (j.k) {
    case J::null: o.push_back({TT::type_null}); break;
    case J::boolean: o.push_back({TT::type_bool, j.b}); break;
    case J::num: case J::str: o.push_back({TT::type_string, false, j.s}); break;
    case J::arr:
        o.push_back({TT::type_start_array});
        for (auto& e : j.a) toks(e, o);
        o.push_back({TT::type_end_array});
        break;
    default:
        o.push_back({TT::type_start_object});
        for (auto& [k, v] : j.o) { o.push_back({TT::type_key, false, k}); toks(v, o); }
        o.push_back({TT::type_end_object});
    }
    o[at].skip = o.size();
}
std::string num(pbt::Source& s) {
    static const char* const odd[] = {"0", "-0", "0.0", "1e5", "-1.25E-3", "123456789012345678901234567890", "9007199254740993", "1E+2", "0.1", "-7"};
    if (s.chance(1, 3)) return s.pick(odd);
    std::string r = s.flip() ? "-" : "";
    r += char('1' + s.below(9));
    for (size_t n = s.below(s.chance(1, 6) ? 60 : 6); n; --n) r += char('0' + s.below(10));
    return r;
}
void gen(pbt::Source& s, int depth, std::string& r) {
    auto ws = [&] { r += gen_ws(s); };
    ws();
    size_t k = s.below(depth > 0 ? 8 : 5);
    switch (k) {
    case 0: r += "null"; break;
    case 1: r += s.flip() ? "true" : "false"; break;
    case 2: r += num(s); break;
    case 3: case 4: r += json_str_any(s, gen_utf8(s, 40)); break;
    case 5: case 6:
        r += '[';
        for (size_t n = s.size(12), i = 0; i < n; ++i) { if (i) r += ','; gen(s, depth - 1, r); }
        ws();
        r += ']';
        break;
    default:
        r += '{';
        for (size_t n = s.size(8), i = 0; i < n; ++i) { if (i) r += ','; ws(); r += json_str_any(s, gen_utf8(s, 20)); ws(); r += ':'; gen(s, depth - 1, r); }
        ws();
        r += '}';
    }
    ws();
}
std::string document(pbt::Source& s) {
    std::string t;
    size_t deep = s.chance(1, 20) ? s.below(400) : 0;
    std::string close;
    for (size_t i = 0; i < deep; ++i) { bool a = s.flip(); t += a ? "[" : "{\"k\":"; close.insert(close.begin(), a ? ']' : '}'); }
    gen(s, 4, t);
    return t + close;
}
const char* kind(TT t) {
    static const char* const n[] = {"nothing", "null", "bool", "string", "{", "key", "}", "[", "]"};
    return n[int(t)];
}
struct Held { std::string_view v; std::string want; };
// a call on the stream; returns: 0 read it, 1 declined (predicate false), 2 threw
struct Reply { int r = 0; bool b = false; std::optional<std::string_view> v; };
enum Op { null_pred, null_, bool_, string_, start_object, key, maybe_key, end_object_pred, end_object, start_array_pred, end_array_pred, start_array, end_array, OPS };
const char* const opn[] = {"get_null_pred", "get_null", "get_bool", "get_string", "get_start_object", "get_key", "maybe_get_key", "get_end_object_pred", "get_end_object", "get_start_array_pred", "get_end_array_pred", "get_start_array", "get_end_array"};
const TT opk[] = {TT::type_null, TT::type_null, TT::type_bool, TT::type_string, TT::type_start_object, TT::type_key, TT::type_key, TT::type_end_object, TT::type_end_object, TT::type_start_array, TT::type_end_array, TT::type_start_array, TT::type_end_array};
Reply call(eosio::json_token_stream& js, Op op) {
    Reply r;
    try {
        switch (op) {
        case null_pred: r.r = !js.get_null_pred(); break;
        case null_: js.get_null(); break;
        case bool_: r.b = js.get_bool(); break;
        case string_: r.v = js.get_string(); break;
        case start_object: js.get_start_object(); break;
        case key: r.v = js.get_key(); break;
        case maybe_key: { auto k = js.maybe_get_key(); if (k) r.v = *k; else r.r = 1; break; }
        case end_object_pred: r.r = !js.get_end_object_pred(); break;
        case end_object: js.get_end_object(); break;
        case start_array_pred: r.r = !js.get_start_array_pred(); break;
        case end_array_pred: r.r = !js.get_end_array_pred(); break;
        case start_array: js.get_start_array(); break;
        default: js.get_end_array(); break;
        }
    } catch (std::runtime_error&) { r.r = 2; }
    return r;
}
bool is_pred(Op o) { return o == null_pred || o == maybe_key || o == end_object_pred || o == start_array_pred || o == end_array_pred; }
}  // namespace

PROP(history, 6) {
    auto& s = c.s;
    std::string text = document(s);
    J j;
    std::string err;
    if (!parse_json(text, j, err)) c.fail("harness", err);
    std::vector<Tok> ts;
    toks(j, ts);
    c.note("json", [&] { return pbt::quote(text); });
    c.key(text);
    if (ts.size() > 2) c.nontrivial();
    std::vector<char> buf(text.begin(), text.end());
    buf.insert(buf.end(), 3, 0);  // the padding the library's own callers give the parser
    buf.shrink_to_fit();
    eosio::json_token_stream js(buf.data());
    std::vector<Held> held;
    std::string log;
    c.note("calls", [&] { return std::string(""); });
    bool lively = s.chance(3, 4);
    size_t i = 0;
    auto where = [&] { return " at token " + std::to_string(i) + " of " + std::to_string(ts.size()) + (i < ts.size() ? std::string(" (") + kind(ts[i].t) + ")" : "") + " after" + log; };
    auto tolog = [&](const std::string& w) { log += " " + w; if (log.size() > 300) log.erase(0, log.size() - 300); };
    while (i < ts.size()) {
        const Tok& t = ts[i];
        // looks that must not consume
        for (size_t n = lively ? s.below(4) : 0; n; --n) {
            switch (s.below(6)) {
            case 0: case 1: {
                tolog("peek");
                const eosio::json_token* p = nullptr;
                try { p = &js.peek_token().get(); } catch (std::runtime_error& e) { c.fail("peek", e.what() + where()); }
                if (p->type != t.t) c.fail("peek", std::string(kind(p->type)) + where());
                if (t.t == TT::type_bool && p->value_bool != t.b) c.fail("peek", "wrong bool" + where());
                if (t.t == TT::type_string && p->value_string != t.s) c.fail("peek", pbt::quote(p->value_string) + where());
                if (t.t == TT::type_key && p->key != t.s) c.fail("peek", pbt::quote(p->key) + where());
                break;
            }
            case 2: {
                tolog("end");
                bool threw = false;
                try { js.get_end(); } catch (std::runtime_error&) { threw = true; }
                if (!threw) c.fail("end", "get_end passes" + where());
                break;
            }
            default: {
                Op o = Op(s.below(OPS));
                if (opk[o] == t.t) break;
                tolog(std::string("!") + opn[o]);
                Reply r = call(js, o);
                if (r.r == 0) c.fail("wrong kind", std::string(opn[o]) + " reads" + where());
                if (is_pred(o) != (r.r == 1)) c.fail("wrong kind", std::string(opn[o]) + (r.r == 2 ? " throws" : " returns") + where());
                break;
            }
            }
        }
        if (i + 1 < ts.size() && s.chance(1, 10) && js.current_token.type == TT::type_unread && js.complete()) c.fail("complete", "complete() too early" + where());
        // now read
        if (t.skip && s.chance(1, t.skip - i > 1 ? 12 : 20)) {
            tolog("skip");
            try { eosio::from_json_skip_value(js); } catch (std::runtime_error& e) { c.fail("skip", e.what() + where()); }
            i = t.skip;
            continue;
        }
        if (t.t == TT::type_start_object && s.chance(1, 6)) {
            tolog("object");
            size_t end = t.skip;
            ++i;
            try {
                eosio::from_json_object(js, [&](std::string_view k) {
                    if (i >= end || ts[i].t != TT::type_key || k != ts[i].s) c.fail("object", "member " + pbt::quote(k) + where());
                    held.push_back({k, ts[i].s});
                    ++i;
                    const Tok& v = ts[i];
                    if (v.t == TT::type_string && s.flip()) {
                        auto x = js.get_string();
                        if (x != v.s) c.fail("object", pbt::quote(x) + where());
                        held.push_back({x, v.s});
                        ++i;
                    } else {
                        eosio::from_json_skip_value(js);
                        i = v.skip;
                    }
                });
            } catch (std::runtime_error& e) { c.fail("object", e.what() + where()); }
            if (i != end - 1) c.fail("object", "members missing" + where());
            ++i;
            continue;
        }
        if (s.chance(1, 10)) {  // peek and drop
            tolog("eat");
            try { if (js.peek_token().get().type != t.t) c.fail("peek", where()); } catch (std::runtime_error& e) { c.fail("peek", e.what() + where()); }
            js.eat_token();
            ++i;
            continue;
        }
        Op os[3];
        size_t no = 0;
        for (int o = 0; o < OPS; ++o) if (opk[o] == t.t) os[no++] = Op(o);
        Op o = os[no > 1 ? s.below(no) : 0];
        tolog(opn[o]);
        Reply r = call(js, o);
        if (r.r) c.fail("read", std::string(opn[o]) + (r.r == 2 ? " throws" : " declines") + where());
        if (o == bool_ && r.b != t.b) c.fail("read", "wrong bool" + where());
        if (r.v) {
            if (*r.v != t.s) c.fail("read", std::string(opn[o]) + " gives " + pbt::quote(*r.v) + " instead of " + pbt::quote(t.s) + where());
            held.push_back({*r.v, t.s});
        }
        ++i;
    }
    // past the end nothing is read
    for (size_t n = s.below(3); n; --n) {
        Op o = Op(s.below(OPS));
        Reply r = call(js, o);
        if (r.r == 0) c.fail("past the end", std::string(opn[o]) + " reads");
    }
    if (s.flip() && js.peek_token().get().type != TT::type_unread) c.fail("past the end", "peek_token finds a token");
    if (!js.complete()) c.fail("complete", "not complete after the last token" + where());
    try { js.get_end(); } catch (std::runtime_error& e) { c.fail("end", e.what() + where()); }
    for (auto& h : held)
        if (h.v != h.want) c.fail("held", "a string handed out earlier, " + pbt::quote(h.want) + ", now reads " + pbt::quote(h.v));
    c.label(lively ? "with looks between" : "straight");
}

// text that is no document is refused before get_end passes, and what was read until then belongs to it
PROP(malformed, 3) {
    auto& s = c.s;
    std::string text = document(s);
    J j;
    std::string err;
    if (!parse_json(text, j, err)) c.fail("harness", err);
    std::vector<Tok> ts;
    toks(j, ts);
    bool cut = s.flip();
    std::string t = text;
    if (cut) t.resize(s.below(t.size() + 1));
    else {
        for (size_t n = 1 + s.below(2); n; --n) {
            size_t p = s.below(t.size() + 1);
            static const char* const ins[] = {",", "]", "}", "[", "{", "\"", ":", "1", "x", "null", "\\", "-", " ", "tru", ".", "\x80", "\n", "//", "'", "nul", "[]", "e"};
            switch (s.below(3)) {
            case 0: t.insert(p, s.pick(ins)); break;
            case 1: if (p < t.size()) t.erase(p, 1); break;
            default: if (p < t.size()) t[p] = s.pick(ins)[0]; break;
            }
        }
    }
    if (t.find('\0') != std::string::npos) throw pbt::Discard{};
    // left to RapidJSON: lone low surrogates and extreme exponents
    J j2;
    bool good = parse_json(t, j2, err);
    if (!good && err.find("surrogate") != std::string::npos) throw pbt::Discard{};
    if (good) for (size_t p = 0; p + 1 < t.size(); ++p) if ((t[p] == 'e' || t[p] == 'E') && p && (isdigit(uint8_t(t[p - 1])) || t[p - 1] == '.')) {
        size_t d = p + 1, n = 0;
        if (d < t.size() && (t[d] == '+' || t[d] == '-')) ++d;
        while (d < t.size() && isdigit(uint8_t(t[d]))) ++d, ++n;
        if (n > 2) throw pbt::Discard{};
    }
    std::vector<Tok> want;
    if (good) toks(j2, want);
    c.note("json", [&] { return pbt::quote(t); });
    c.key(t);
    if (t.size() > 2) c.nontrivial();
    c.label(good ? "still well-formed" : cut ? "cut" : "edited");
    std::vector<char> buf(t.begin(), t.end());
    buf.insert(buf.end(), 3, 0);  // the padding the library's own callers give the parser
    buf.shrink_to_fit();
    eosio::json_token_stream js(buf.data());
    size_t i = 0;
    bool ok = true;
    const std::vector<Tok>& ref = good ? want : ts;
    try {
        for (;; ++i) {
            const auto& k = js.peek_token().get();
            if (k.type == TT::type_unread) break;
            if (good ? i >= ref.size() : i > t.size() + 1) c.fail("extra token", kind(k.type) + std::string(" at ") + std::to_string(i));
            if (good || cut) {
                // a cut number is still a number: shorter, and the last token
                bool same = i < ref.size() && k.type == ref[i].t && (k.type != TT::type_bool || k.value_bool == ref[i].b) && (k.type != TT::type_key || k.key == ref[i].s);
                if (same && k.type == TT::type_string) same = k.value_string == ref[i].s || (!good && ref[i].s.substr(0, k.value_string.size()) == k.value_string);
                if (!same) c.fail("token", std::string(kind(k.type)) + " as token " + std::to_string(i));
            }
            js.eat_token();
        }
        js.get_end();
    } catch (std::runtime_error& e) { ok = false; if (!*e.what()) c.fail("message", "empty error text"); err = e.what(); }
    if (ok != good) c.fail(good ? "refused" : "accepted", (good ? "well-formed text refused: " + err : std::string("text that is no document passes")) + ": " + pbt::quote(t));
    if (good && i != want.size()) c.fail("tokens", std::to_string(i) + " of " + std::to_string(want.size()));
}

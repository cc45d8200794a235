// Keys, signatures and checksummed text; base58; RIPEMD-160.
#include "capi.hpp"
#include <eosio/abieos_ripemd160.hpp>
#include <eosio/crypto.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <memory>
using namespace ref;

namespace {
bool unbase58(std::string_view t, Bytes& out) {
    static const std::string al = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    size_t z = 0;
    while (z < t.size() && t[z] == '1') ++z;
    std::vector<uint8_t> n;  // little endian
    for (char ch : t) {
        size_t d = al.find(ch);
        if (d == al.npos) return false;
        unsigned carry = unsigned(d);
        for (auto& b : n) { carry += b * 58u; b = uint8_t(carry); carry >>= 8; }
        while (carry) { n.push_back(uint8_t(carry)); carry >>= 8; }
    }
    out.assign(z, '\0');
    out.append(n.rbegin(), n.rend());
    return true;
}
Bytes sha256(std::string_view msg) {
    auto rt = [](double x) { return uint32_t(uint64_t(x * 4294967296.0)); };
    (void)rt;
    static uint32_t K[64], H[8];
    static bool init = [] {
        int n = 0;
        for (int p = 2; n < 64; ++p) {
            bool pr = true;
            for (int d = 2; d * d <= p; ++d) pr = pr && p % d;
            if (!pr) continue;
            auto frac = [](long double v) { return uint32_t((v - floorl(v)) * 4294967296.0L); };
            if (n < 8) H[n] = frac(sqrtl((long double)p));
            K[n++] = frac(cbrtl((long double)p));
        }
        return true;
    }();
    (void)init;
    auto ror = [](uint32_t x, int n) { return x >> n | x << (32 - n); };
    Bytes m(msg);
    m += char(0x80);
    while (m.size() % 64 != 56) m += '\0';
    for (int i = 7; i >= 0; --i) m += char(uint64_t(msg.size()) * 8 >> (8 * i));
    uint32_t h[8];
    memcpy(h, H, sizeof h);
    for (size_t b = 0; b < m.size(); b += 64) {
        uint32_t w[64];
        for (int i = 0; i < 16; ++i) w[i] = uint32_t(uint8_t(m[b + 4 * i])) << 24 | uint32_t(uint8_t(m[b + 4 * i + 1])) << 16 | uint32_t(uint8_t(m[b + 4 * i + 2])) << 8 | uint8_t(m[b + 4 * i + 3]);
        for (int i = 16; i < 64; ++i) w[i] = w[i - 16] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ w[i - 15] >> 3) + w[i - 7] + (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ w[i - 2] >> 10);
        uint32_t a[8];
        memcpy(a, h, sizeof h);
        for (int i = 0; i < 64; ++i) {
            uint32_t t1 = a[7] + (ror(a[4], 6) ^ ror(a[4], 11) ^ ror(a[4], 25)) + ((a[4] & a[5]) ^ (~a[4] & a[6])) + K[i] + w[i];
            uint32_t t2 = (ror(a[0], 2) ^ ror(a[0], 13) ^ ror(a[0], 22)) + ((a[0] & a[1]) ^ (a[0] & a[2]) ^ (a[1] & a[2]));
            for (int k = 7; k > 0; --k) a[k] = a[k - 1];
            a[4] += t1;
            a[0] = t1 + t2;
        }
        for (int i = 0; i < 8; ++i) h[i] += a[i];
    }
    Bytes out;
    for (uint32_t v : h) for (int i = 3; i >= 0; --i) out += char(v >> (8 * i));
    return out;
}
const KeyKind kinds[] = {KeyKind::pub, KeyKind::pvt, KeyKind::sig};
const char* type_name(KeyKind k) { return k == KeyKind::pub ? "public_key" : k == KeyKind::pvt ? "private_key" : "signature"; }
// is the payload exactly one value of the kind
bool layout_ok(KeyKind k, int t, const Bytes& p) {
    auto var = [&](size_t& pos, uint64_t& n) {
        n = 0;
        for (int i = 0;; ++i) {
            if (i == 5 || pos >= p.size()) return false;
            n |= uint64_t(uint8_t(p[pos]) & 127) << (7 * i);
            if (!(uint8_t(p[pos++]) & 128)) break;
        }
        n &= 0xffffffff;
        return true;
    };
    size_t pos = k == KeyKind::pub ? 33 : k == KeyKind::pvt ? 32 : 65;
    if (t < 2) return p.size() == pos;
    uint64_t n;
    if (k == KeyKind::pub) {
        pos += 1;
        if (pos > p.size() || !var(pos, n)) return false;
        return p.size() - pos == n;
    }
    if (pos > p.size() || !var(pos, n) || p.size() - pos < n) return false;
    pos += n;
    if (!var(pos, n)) return false;
    return p.size() - pos == n;
}
bool accept(KeyKind k, const std::string& t, Bytes& wire) {
    static const char* pre[] = {"PUB_", "PVT_", "SIG_"};
    std::string suf, body;
    int type = -1;
    if (k == KeyKind::pub && t.substr(0, 3) == "EOS") { type = 0; body = t.substr(3); }
    else if (t.substr(0, 4) == pre[int(k)]) {
        const char* s[] = {"K1_", "R1_", "WA_"};
        for (int i = 0; i < (k == KeyKind::pvt ? 2 : 3); ++i)
            if (t.substr(4, 3) == s[i]) { type = i; suf = std::string(s[i]).substr(0, 2); body = t.substr(7); }
    }
    if (type < 0) return false;
    Bytes b;
    if (!unbase58(body, b) || b.size() < 5) return false;
    Bytes pay = b.substr(0, b.size() - 4);
    if (ripemd160(pay + suf).substr(0, 4) != b.substr(b.size() - 4)) return false;
    if (!layout_ok(k, type, pay)) return false;
    wire = std::string(1, char(type)) + pay;
    return true;
}
Ctx& ctx() {
    static Ctx x;
    static bool once = x.set_abi(CONTRACT, R"({"version":"eosio::abi/1.1","types":[],"structs":[]})");
    if (!once) abort();
    return x;
}
template <class T> T from_w(const Bytes& w) {
    std::vector<char> v(w.begin(), w.end());
    T t;
    eosio::convert_from_bin(t, v);
    return t;
}
template <class T> Bytes to_w(const T& t) {
    auto v = eosio::convert_to_bin(t);
    return Bytes(v.begin(), v.end());
}
// print `wire` with the library
std::string lib_print(KeyKind k, const Bytes& w) {
    switch (k) {
    case KeyKind::pub: return eosio::public_key_to_string(from_w<eosio::public_key>(w));
    case KeyKind::pvt: return eosio::private_key_to_string(from_w<eosio::private_key>(w));
    default: return eosio::signature_to_string(from_w<eosio::signature>(w));
    }
}
std::string lib_print_json(KeyKind k, const Bytes& w) {
    switch (k) {
    case KeyKind::pub: return eosio::convert_to_json(from_w<eosio::public_key>(w));
    case KeyKind::pvt: return eosio::convert_to_json(from_w<eosio::private_key>(w));
    default: return eosio::convert_to_json(from_w<eosio::signature>(w));
    }
}
bool lib_parse(KeyKind k, std::string_view t, Bytes& w) {
    try {
        switch (k) {
        case KeyKind::pub: w = to_w(eosio::public_key_from_string(t)); break;
        case KeyKind::pvt: w = to_w(eosio::private_key_from_string(t)); break;
        default: w = to_w(eosio::signature_from_string(t));
        }
    } catch (std::exception&) { return false; }
    return true;
}
template <class T> bool rd(const std::string& json, Bytes& w) {
    std::string buf = json + std::string(4, '\0');
    T t;
    try {
        eosio::json_token_stream js(buf.data());
        eosio::from_json(t, js);
    } catch (std::exception&) { return false; }
    w = to_w(t);
    return true;
}
bool lib_parse_json(KeyKind k, const std::string& j, Bytes& w) {
    return k == KeyKind::pub ? rd<eosio::public_key>(j, w) : k == KeyKind::pvt ? rd<eosio::private_key>(j, w) : rd<eosio::signature>(j, w);
}
// all ways to read text must accept/reject as the reference says
void judge(pbt::Case& c, KeyKind k, const std::string& t, bool skip_accept = false) {
    Bytes want, got;
    bool ok = accept(k, t, want);
    c.label(ok ? "accepted" : "rejected");
    std::string what = std::string(type_name(k)) + " from " + pbt::quote(t);
    std::vector<char> x(t.begin(), t.end());
    x.shrink_to_fit();
    auto verdict = [&](const char* how, bool g) {
        if (skip_accept && !ok) return;
        if (g != ok) c.fail(g ? "bad text accepted" : "good text rejected", std::string(how) + ": " + what + (g ? " gives " + pbt::hexs(got) : " is rejected"));
        if (ok && got != want) c.fail("wrong value read", std::string(how) + ": " + what + " gives " + pbt::hexs(got) + " instead of " + pbt::hexs(want));
    };
    verdict("from_string", lib_parse(k, std::string_view(x.data(), x.size()), got));
    if (utf8_valid(t)) {
        if (c.s.chance(1, 3)) verdict("from_json", lib_parse_json(k, json_str_any(c.s, t), got));
        if (c.s.chance(1, 3) && t.find('\0') == t.npos) verdict("json_to_bin", ctx().j2b(CONTRACT, type_name(k), json_str_any(c.s, t), c.s.flip(), got));
    }
}
std::string edit(pbt::Source& s, std::string t) {
    static const std::string al = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    for (size_t n = 1 + (s.chance(1, 4) ? s.below(2) : 0); n--;) {
        size_t p = s.flip() ? s.below(t.size() + 1) : s.below(std::min<size_t>(t.size() + 1, 9));
        char ch = s.chance(1, 3) ? "0OIl+/ \0\n_-\x7f\xc3"[s.below(13)] : al[s.below(58)];
        switch (s.below(8)) {
        case 0: if (p < t.size()) t[p] = ch; break;
        case 1: t.insert(p, 1, ch); break;
        case 2: if (p < t.size()) t.erase(p, 1); break;
        case 3: if (p + 1 < t.size()) std::swap(t[p], t[p + 1]); break;
        case 4: if (p < t.size()) t[p] = char(isupper((unsigned char)t[p]) ? tolower(t[p]) : toupper(t[p])); break;
        case 5: t.resize(p); break;
        case 6: t += std::string(1 + s.below(3), ch); break;
        default: if (p < t.size()) t[p] = char(t[p] ^ (1 << s.below(8)));
        }
    }
    return t;
}
}  // namespace

PROP(round_trip, 4) {
    auto& s = c.s;
    KeyKind k = kinds[s.below(3)];
    Bytes w = gen_key(s, k);
    std::string t = key_text(k, w);
    c.note("key", [&] { return t; });
    c.key(t);
    c.nontrivial();
    c.label(type_name(k));
    if (w[0] == 2) c.label("WebAuthn");
    if (lib_print(k, w) != t) c.fail("text", std::string(type_name(k)) + " " + pbt::hexs(w) + " prints as " + lib_print(k, w) + " instead of " + t);
    if (s.chance(1, 3) && lib_print_json(k, w) != "\"" + t + "\"") c.fail("JSON text", lib_print_json(k, w));
    if (s.chance(1, 3)) {
        std::string o;
        if (!ctx().b2j(CONTRACT, type_name(k), w, o) || o != "\"" + t + "\"") c.fail("ABI text", o + " " + ctx().error());
    }
    judge(c, k, t);
    if (k == KeyKind::pub && w[0] == 0) {
        std::string l = legacy_pub_text(w.substr(1));
        c.label("legacy");
        judge(c, k, l);
    }
    // as another kind of key
    KeyKind other = kinds[s.below(3)];
    if (other != k && !(other == KeyKind::pvt)) judge(c, other, t);
}
PROP(corrupted, 6) {
    auto& s = c.s;
    KeyKind k = kinds[s.below(3)];
    Bytes w = gen_key(s, k), pay = w.substr(1);
    static const char* pre[] = {"PUB_", "PVT_", "SIG_"};
    static const char* suf[] = {"K1", "R1", "WA"};
    std::string t, sx = suf[int(w[0])];
    bool legacy = k == KeyKind::pub && w[0] == 0 && s.flip();
    switch (s.below(5)) {
    case 4: {  // another spelling of the prefix
        std::string head = legacy ? "EOS" : pre[int(k)] + sx + "_", body = (legacy ? legacy_pub_text(pay) : key_text(k, w)).substr(head.size());
        static const char* const heads[] = {"", "EOS", "eos", "Eos", "EOS_", "EOSIO", "FIO", "SUB", "PUB", "PUB_", "pub_", "PVT_", "SIG_", "K1_", "_", "E", "EO", "1"};
        static const char* const algs[] = {"k1", "r1", "wa", "K1", "R1", "WA", "K2", "R2", "K", "", "R1_K1", "EM", "WEBAUTHN"};
        switch (s.below(4)) {
        case 0: for (char& ch : head) if (ch >= 'A' && ch <= 'Z' && (s.below(3))) ch = char(ch + 32); break;
        case 1: head = s.pick(heads); break;
        case 2: head = std::string(s.flip() ? pre[int(k)] : s.pick(pre)) + s.pick(algs) + (s.chance(1, 4) ? "-" : s.chance(1, 4) ? "" : "_"); break;
        default: head = (s.flip() ? head.substr(0, s.below(head.size())) : s.flip() ? " " + head : head + head); break;
        }
        t = head + body;
        break;
    }
    case 0: case 1:  // edited text
        t = edit(s, legacy ? legacy_pub_text(pay) : key_text(k, w));
        break;
    case 2: {  // correct checksum, wrong payload or prefix
        switch (s.below(4)) {
        case 0: pay.resize(s.flip() ? pay.size() - 1 : s.below(pay.size())); break;
        case 1: pay += std::string(1 + s.below(3), char(s.byte())); break;
        case 2: sx = suf[s.below(3)]; break;  // payload of one algorithm under another's name
        default: if (!pay.empty()) pay[s.below(pay.size())] ^= char(1 << s.below(8));  // still well formed, or a wrong WebAuthn length
        }
        if (k == KeyKind::pvt && sx == "WA") sx = "R1";
        std::string head = legacy ? "EOS" : pre[int(k)] + sx + "_";
        t = head + base58(pay + ripemd160(pay + (legacy ? "" : sx)).substr(0, 4));
        break;
    }
    default: {  // checksum of another algorithm, damaged checksum, extra zero digits
        Bytes sum = ripemd160(pay + (s.flip() ? suf[s.below(3)] : "")).substr(0, 4);
        if (s.flip()) sum[s.below(4)] ^= char(1 << s.below(8));
        t = (legacy ? "EOS" : pre[int(k)] + sx + "_") + std::string(s.chance(1, 3) ? 1 + s.below(2) : 0, '1') + base58(pay + sum);
    }
    }
    if (k == KeyKind::pvt && t.substr(0, 4) != "PVT_") { c.label("not judged: legacy private key"); Bytes g; lib_parse(k, t, g); throw pbt::Discard{}; }
    c.note("text", [&] { return pbt::quote(t); });
    c.key(t);
    c.nontrivial();
    judge(c, k, t);
}
PROP(legacy_private, 1) {  // WIF text is read (its checksum is a recorded finding: not verified)
    auto& s = c.s;
    Bytes w;
    do w = gen_key(s, KeyKind::pvt); while (w[0] && !s.exhausted());
    w[0] = 0;
    Bytes body = "\x80" + w.substr(1);
    std::string t = base58(body + sha256(sha256(body)).substr(0, 4));
    c.note("WIF", [&] { return t; });
    c.key(t);
    c.nontrivial();
    static bool self = [] {  // published example
        Bytes b;
        return unbase58("5KQwrPbwdL6PhXujxW37FSSQZ1JiwsST4cqQzDeyXtP79zkvFD3", b) && sha256(sha256(b.substr(0, 33))).substr(0, 4) == b.substr(33);
    }();
    if (!self) c.fail("harness", "SHA-256");
    Bytes got;
    if (!lib_parse(KeyKind::pvt, t, got) || got != w) c.fail("legacy private key", t + " gives " + pbt::hexs(got));
    if (!lib_parse_json(KeyKind::pvt, "\"" + t + "\"", got) || got != w) c.fail("legacy private key", t);
    std::string bad = t;
    bad[s.below(bad.size())] = "0OIl _-"[s.below(7)];
    if (lib_parse(KeyKind::pvt, bad, got)) c.fail("bad digit accepted", bad);
    bad = t.substr(0, s.below(43));
    if (lib_parse(KeyKind::pvt, bad, got)) c.fail("short key accepted", bad);
}
PROP(base58_text, 4) {
    auto& s = c.s;
    Bytes b = gen_bytes(s, 150);
    if (s.chance(1, 3)) b.insert(0, std::string(s.below(6), '\0'));
    std::string t = base58(b);
    c.note("bytes", [&] { return pbt::hexs(b); });
    c.key(b);
    if (!b.empty()) c.nontrivial();
    std::vector<char> x(b.begin(), b.end());
    x.shrink_to_fit();
    if (eosio::to_base58(x.data(), x.size()) != t) c.fail("to_base58", pbt::hexs(b) + " gives " + eosio::to_base58(x.data(), x.size()));
    auto r = eosio::from_base58(t);
    if (Bytes(r.begin(), r.end()) != b) c.fail("from_base58", t + " gives " + pbt::hexs(r));
    std::string e = edit(s, t);
    Bytes want;
    bool ok = unbase58(e, want), g = true;
    std::vector<char> y(e.begin(), e.end());
    y.shrink_to_fit();
    try { r = eosio::from_base58(std::string_view(y.data(), y.size())); } catch (std::exception&) { g = false; }
    if (g != ok || (ok && Bytes(r.begin(), r.end()) != want)) c.fail("from_base58 edited", pbt::quote(e) + (g ? " gives " + pbt::hexs(r) : " is rejected"));
    c.label(ok ? "valid digits" : "invalid digit");
}
PROP(ripemd, 4) {
    auto& s = c.s;
    Bytes b;
    size_t n = s.chance(1, 3) ? 50 + s.below(20) : s.chance(1, 8) ? s.below(3000) : s.below(200);
    if (s.flip()) for (size_t i = 0; i < n; ++i) b += char(s.byte());
    else b = std::string(n, char(s.byte()));
    c.note("length", [&] { return std::to_string(n); });
    c.key(b);
    if (n) c.nontrivial();
    namespace rm = abieos_ripemd160;
    std::vector<unsigned char> x(b.begin(), b.end());
    x.reserve(1);
    rm::ripemd160_state st;
    rm::ripemd160_init(&st);
    size_t pos = 0;
    unsigned char out[20], again[20];
    int pieces = 0;
    while (pos < n) {
        size_t m = s.flip() ? n - pos : 1 + s.below(std::min<size_t>(n - pos, 130));
        std::unique_ptr<unsigned char[]> piece(new unsigned char[m]);
        memcpy(piece.get(), b.data() + pos, m);
        rm::ripemd160_update(&st, piece.get(), int(m));
        pos += m;
        ++pieces;
        if (s.chance(1, 8)) {  // a digest in the middle does not disturb the state
            rm::ripemd160_digest(&st, again);
            if (Bytes((char*)again, 20) != ripemd160(std::string_view(b).substr(0, pos))) c.fail("intermediate digest", std::to_string(pos) + " of " + std::to_string(n) + " bytes");
        }
        if (s.chance(1, 8)) { rm::ripemd160_state copy; rm::ripemd160_copy(&st, &copy); st = copy; }
    }
    if (pieces > 1) c.label("several pieces");
    if (rm::ripemd160_digest(&st, out) != 1) c.fail("ripemd160 status", "");
    if (Bytes((char*)out, 20) != ripemd160(b)) c.fail("ripemd160", std::to_string(n) + " bytes " + pbt::hexs(b) + " gives " + pbt::hexs(out, 20));
}

// Floating-point text denotes the same number: printing, reading (exact nearest-value oracle), float128.
#include "capi.hpp"
#include <cerrno>
#include <eosio/float.hpp>
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/fpconv.h>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
#include <memory>
using namespace ref;

namespace {
// ---------------------------------------------------------------- exact integers
struct Big {
    std::vector<uint32_t> w;
    explicit Big(uint64_t v = 0) { while (v) { w.push_back(uint32_t(v)); v >>= 32; } }
    void muladd(uint32_t m, uint32_t a) {
        uint64_t c = a;
        for (auto& x : w) { c += uint64_t(x) * m; x = uint32_t(c); c >>= 32; }
        while (c) { w.push_back(uint32_t(c)); c >>= 32; }
        trim();
    }
    void trim() { while (!w.empty() && !w.back()) w.pop_back(); }
    void pow(uint32_t base, int e) {
        uint32_t p9 = 1; int n9 = 0;
        while (uint64_t(p9) * base < (1ull << 32)) { p9 *= base; ++n9; }
        for (; e >= n9; e -= n9) muladd(p9, 0);
        for (; e > 0; --e) muladd(base, 0);
    }
    void shl(int n) {
        if (w.empty()) return;
        w.insert(w.begin(), n / 32, 0u);
        if (n % 32) muladd(1u << (n % 32), 0);
    }
    int cmp(const Big& o) const {
        if (w.size() != o.w.size()) return w.size() < o.w.size() ? -1 : 1;
        for (size_t i = w.size(); i--;) if (w[i] != o.w[i]) return w[i] < o.w[i] ? -1 : 1;
        return 0;
    }
    std::string dec() const {
        Big t = *this;
        std::string r;
        while (!t.w.empty()) {
            uint64_t rem = 0;
            for (size_t i = t.w.size(); i--;) { rem = rem << 32 | t.w[i]; t.w[i] = uint32_t(rem / 1000000000); rem %= 1000000000; }
            t.trim();
            for (int k = 0; k < 9; ++k) { r += char('0' + rem % 10); rem /= 10; if (t.w.empty() && !rem) break; }
        }
        std::reverse(r.begin(), r.end());
        return r.empty() ? "0" : r;
    }
};
// decimal number: (-1)^neg * d * 10^e
struct Dec { bool neg = false; Big d; int e = 0; bool ok = false; };
Dec parse_dec(const std::string& t) {  // [-]digits[.digits][e[+-]digits] with at least one mantissa digit
    Dec r;
    size_t i = 0;
    if (i < t.size() && t[i] == '-') { r.neg = true; ++i; }
    std::string digits;
    int frac = 0;
    size_t nd = 0;
    for (; i < t.size() && isdigit((unsigned char)t[i]); ++i, ++nd) digits += t[i];
    if (i < t.size() && t[i] == '.') for (++i; i < t.size() && isdigit((unsigned char)t[i]); ++i, ++nd) { digits += t[i]; ++frac; }
    if (!nd) return r;
    long e = 0;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
        ++i;
        bool en = false;
        if (i < t.size() && (t[i] == '+' || t[i] == '-')) en = t[i++] == '-';
        if (i >= t.size()) return r;
        for (; i < t.size() && isdigit((unsigned char)t[i]); ++i) e = std::min(e * 10 + (t[i] - '0'), 100000l);
        if (en) e = -e;
    }
    if (i != t.size()) return r;
    for (char ch : digits) r.d.muladd(10, ch - '0');
    r.e = int(e) - frac;
    r.ok = true;
    return r;
}
// sign of |t| - m*2^k
int cmp_dec(const Dec& t, uint64_t m, int k) {
    Big a = t.d, b(m);
    if (a.w.empty() || !m) return int(!a.w.empty()) - int(m != 0);
    // avoid huge powers when the magnitudes are far apart
    double la = (double(a.w.size()) * 32) * 0.30103 + t.e, lb = (64 + k) * 0.30103;
    if (la - 10 > lb + 20) return 1;
    if (la + 1 < lb - 20 - 20) return -1;
    if (t.e >= 0) a.pow(10, t.e); else b.pow(10, -t.e);
    if (k >= 0) b.shl(k); else a.shl(-k);
    return a.cmp(b);
}
template <class F> struct Fmt;
template <> struct Fmt<double> { using U = uint64_t; static constexpr int mant = 52, emax = 2047; static const char* name() { return "float64"; } };
template <> struct Fmt<float> { using U = uint32_t; static constexpr int mant = 23, emax = 255; static const char* name() { return "float32"; } };
template <class F> typename Fmt<F>::U bits(F f) { typename Fmt<F>::U u; memcpy(&u, &f, sizeof f); return u; }
template <class F> F from_bits(typename Fmt<F>::U u) { F f; memcpy(&f, &u, sizeof f); return f; }
// value of the magnitude bits as m * 2^k
template <class F> void split(typename Fmt<F>::U mag, uint64_t& m, int& k) {
    using L = Fmt<F>;
    const int bias = L::emax / 2;
    int e = int(mag >> L::mant);
    m = mag & ((uint64_t(1) << L::mant) - 1);
    if (e) m |= uint64_t(1) << L::mant; else e = 1;
    k = e - bias - L::mant;
}
// sign of |t| - midpoint of the magnitudes mag and mag+1
template <class F> int cmp_mid(const Dec& t, typename Fmt<F>::U mag) {
    uint64_t m; int k;
    split<F>(mag, m, k);
    return cmp_dec(t, 2 * m + 1, k - 1);
}
// what reading t must give: 0 = in range with nearest magnitude `mag`, 1 = overflow, -1 = nonzero but nearest is zero
template <class F> bool is_nearest(const Dec& t, typename Fmt<F>::U mag) {
    int up = cmp_mid<F>(t, mag);
    if (up > 0 || (up == 0 && (mag & 1))) return false;
    if (mag) {
        int lo = cmp_mid<F>(t, mag - 1);
        if (lo < 0 || (lo == 0 && (mag & 1))) return false;
    }
    return true;
}
template <class F> int range_class(const Dec& t) {
    using L = Fmt<F>;
    typename L::U max = (typename L::U(L::emax) << L::mant) - 1;
    if (t.d.w.empty()) return 0;
    if (cmp_mid<F>(t, max) >= 0) return 1;  // max is odd: ties go up
    if (cmp_mid<F>(t, 0) <= 0) return -1;
    return 0;
}
template <class F> F gen_fp(pbt::Source& s) {
    using L = Fmt<F>;
    using U = typename L::U;
    U sign = s.chance(1, 3) ? U(1) << (sizeof(F) * 8 - 1) : 0, mag = 0;
    const U top = U(L::emax) << L::mant;
    switch (s.below(8)) {
    case 0: mag = U(s.raw(sizeof(F))) & (top | ((U(1) << L::mant) - 1)); break;
    case 1: mag = bits<F>(F(s.uint_bits(L::mant + 1))); break;                       // integers
    case 2: mag = U(s.below(L::emax + 1)) << L::mant; mag += U(s.range(-3, 3)); break;  // near powers of two
    case 3: {                                                                          // near powers of ten
        char b[40];
        snprintf(b, sizeof b, "%de%d", int(1 + s.below(9)), int(s.range(sizeof(F) == 8 ? -324 : -46, sizeof(F) == 8 ? 308 : 38)));
        mag = bits<F>(sizeof(F) == 8 ? F(strtod(b, nullptr)) : F(strtof(b, nullptr)));
        if (s.flip()) mag += U(s.range(-3, 3));
        break;
    }
    case 4: mag = bits<F>(F(double(s.below(1000000)) / std::pow(10, s.below(9)))); break;  // short decimals
    case 5: mag = U(s.uint_bits(L::mant)); break;                                            // subnormal
    case 6: mag = top - 1 - U(s.below(4)); break;                                            // largest
    default: mag = U(s.below(3)); if (s.flip()) mag = top + U(s.below(2)); break;            // zeros, specials
    }
    mag &= ~(U(1) << (sizeof(F) * 8 - 1));
    return from_bits<F>(sign | mag);
}
template <class F> bool read(F& out, const std::string& json) {
    std::string buf = json + std::string(4, '\0');
    try {
        eosio::json_token_stream js(buf.data());
        eosio::from_json(out, js);
        js.get_end();
    } catch (std::exception&) { return false; }
    return true;
}
Ctx& ctx() {
    static Ctx x;
    static bool once = x.set_abi(CONTRACT, R"({"version":"eosio::abi/1.1","types":[],"structs":[]})");
    if (!once) abort();
    return x;
}
template <class F> std::string le(F f) { std::string b; put_le(b, bits(f), sizeof f); return b; }
template <class F> std::string show(F f) {
    char b[64];
    snprintf(b, sizeof b, "%.17g (bits %0*llx)", double(f), int(sizeof(F) * 2), (unsigned long long)bits(f));
    return b;
}

template <class F> std::string print_one(pbt::Case& c, F f) {
    std::string t = eosio::convert_to_json(f);
    auto bad = [&](const char* tag, const std::string& m) { c.fail(tag, std::string(Fmt<F>::name()) + " " + show(f) + " prints as " + t + ": " + m); };
    if (std::isnan(f) || std::isinf(f)) {
        const char* e = std::isnan(f) ? "\"NaN\"" : f > 0 ? "\"Infinity\"" : "\"-Infinity\"";
        if (t != e) bad("special text", e);
        F g{};
        if (!read(g, t)) bad("special rejected", "not read back");
        if (std::isnan(f) ? !std::isnan(g) : bits(g) != bits(f)) bad("special reads differently", show(g));
        return t;
    }
    J j;
    std::string err;
    if (!parse_json(t, j, err) || j.k != J::num) bad("not a JSON number", err);
    Dec d = parse_dec(t);
    if (!d.ok) bad("not a decimal number", "");
    using U = typename Fmt<F>::U;
    U u = bits(f);
    bool neg = u >> (sizeof(F) * 8 - 1);
    U mag = u & ~(U(1) << (sizeof(F) * 8 - 1));
    if (d.neg != neg) bad("sign", "wrong sign");
    if (!is_nearest<F>(d, mag)) bad("denotes another number", "nearest value differs");
    if (sizeof(F) == 4) {  // a float prints as the double of the same value
        uint64_t m64 = bits(double(f)) & ~(1ull << 63);
        if (!is_nearest<double>(d, m64)) bad("denotes another double", "as double");
    }
    F g{};
    if (!read(g, t)) bad("rejected on reading", "");
    if (bits(g) != u) bad("reads as another number", show(g));
    return t;
}
template <class F> void print_prop(pbt::Case& c) {
    F f = gen_fp<F>(c.s);
    c.note(Fmt<F>::name(), [&] { return show(f); });
    c.key(le(f));
    c.nontrivial();
    c.label(std::isnan(f) || std::isinf(f) ? "special" : f == 0 ? "zero" : std::isnormal(f) ? "normal" : "subnormal");
    std::string t = print_one(c, f);
    if (c.s.chance(1, 4)) {  // through an ABI
        std::string j, b;
        if (!ctx().b2j(CONTRACT, Fmt<F>::name(), le(f), j)) c.fail("bin_to_json", ctx().error());
        if (j != t) c.fail("bin_to_json text", "bin_to_json of " + show(f) + " gives " + j + ", native " + t);
        if (!ctx().j2b(CONTRACT, Fmt<F>::name(), c.s.flip() || t[0] == '"' ? t : "\"" + t + "\"", c.s.flip(), b)) c.fail("json_to_bin", ctx().error());
        if (!std::isnan(f) && b != le(f)) c.fail("json_to_bin value", "json_to_bin of " + t + " gives " + pbt::hexs(b));
    }
    if (c.s.chance(1, 4)) {  // a run of consecutive values
        using U = typename Fmt<F>::U;
        for (int i = 0; i < 24; ++i) print_one(c, from_bits<F>(U(bits(f) + i)));
    }
    if (sizeof(F) == 8) {  // the printer's documented buffer
        std::unique_ptr<char[]> b(new char[24]);
        int n = fpconv_dtoa(double(f), b.get());
        if (n < 1 || n > 24) c.fail("fpconv_dtoa length", std::to_string(n));
        if (std::isfinite(f) && std::string(b.get(), n) != t) c.fail("fpconv_dtoa text", std::string(b.get(), n) + " instead of " + t);
    }
}
// ---------------------------------------------------------------- reading
std::string layout(pbt::Source& s, bool neg, std::string digits, int e, bool json) {
    // write digits*10^e with a random point position and exponent spelling
    std::string r = neg ? "-" : "";
    if (!json && s.chance(1, 8)) digits.insert(0, std::string(s.below(4), '0'));
    int point = int(digits.size());
    bool want_point = s.chance(1, 2);
    if (want_point) {
        point = int(s.below(digits.size() + 1));
        if (!point) { digits.insert(0, "0"); point = 1; }
        if (point == int(digits.size())) digits += "0", --e;
        e += int(digits.size()) - point;
    }
    if (json) {
        size_t lead = 0;
        while (int(lead) + 1 < point && digits[lead] == '0') ++lead;
        digits.erase(0, lead);
        point -= int(lead);
    }
    r += digits.substr(0, point);
    if (point < int(digits.size())) r += "." + digits.substr(point);
    if (e || s.chance(1, 8)) {
        r += s.flip() ? 'e' : 'E';
        r += e < 0 ? "-" : s.flip() ? "+" : "";
        if (s.chance(1, 8)) r += "0";
        r += std::to_string(std::abs(e));
    }
    return r;
}
template <class F> void read_prop(pbt::Case& c) {
    using L = Fmt<F>;
    using U = typename L::U;
    pbt::Source& s = c.s;
    bool neg = s.chance(1, 3), json = s.flip();
    std::string digits;
    int e = 0;
    switch (s.below(5)) {
    case 0:  // few digits
        for (size_t n = 1 + s.below(6); n--;) digits += char('0' + s.below(10));
        e = int(s.range(-12, 12));
        break;
    case 1:  // many digits, any exponent
        for (size_t n = 1 + s.below(40); n--;) digits += char('0' + s.below(10));
        e = int(s.range(sizeof(F) == 8 ? -400 : -90, sizeof(F) == 8 ? 330 : 45)) ;
        break;
    case 2: {  // exactly a representable value, or exactly halfway, or a hair beside it
        U mag = bits(gen_fp<F>(s)) & ~(U(1) << (sizeof(F) * 8 - 1));
        U top = U(L::emax) << L::mant;
        if (mag >= top) mag = top - 1;
        uint64_t m; int k;
        split<F>(mag, m, k);
        bool mid = !s.chance(1, 4);
        if (mid) { m = 2 * m + 1; --k; c.label("halfway"); }
        Big b(m);
        if (k >= 0) b.shl(k); else { b.pow(5, -k); e = k; }
        digits = b.dec();
        int side = int(s.below(3));
        if (side) {
            size_t extra = s.below(30);
            if (side == 1) { digits += std::string(extra, '0') + "1"; e -= int(extra) + 1; }
            else {  // one unit less in an extra decimal place
                Big x = b;
                x.muladd(10, 0);
                digits = x.dec();
                size_t p = digits.find_last_not_of('0');
                if (p != digits.npos) { --digits[p]; for (size_t q = p + 1; q < digits.size(); ++q) digits[q] = '9'; }
                --e;
            }
            c.label("beside halfway");
        }
        break;
    }
    case 3: {  // near the limits
        digits = sizeof(F) == 8 ? "179769313486231570814527423731704356798" : "340282346638528859811704183484516925440";
        digits.resize(1 + s.below(39));
        if (s.flip()) digits.back() = char('0' + s.below(10));
        e = (sizeof(F) == 8 ? 309 : 39) - int(digits.size());
        if (s.flip()) {
            digits = sizeof(F) == 8 ? "24703282292062327208299439634110864" : "7006492321624085354618647916449580";
            digits.resize(1 + s.below(34));
            if (s.flip()) digits.back() = char('0' + s.below(10));
            e = (sizeof(F) == 8 ? -323 : -45) - int(digits.size());
        }
        if (s.chance(1, 4)) e += int(s.range(-1, 1));
        c.label("near limit");
        break;
    }
    default:  // zeros and very long text
        digits = std::string(s.below(400), s.flip() ? '0' : char('0' + s.below(10))) + char('0' + s.below(10));
        e = s.flip() ? -int(digits.size()) : int(s.range(-700, 300));
    }
    std::string t = layout(s, neg, digits, e, json);
    Dec d = parse_dec(t);
    if (!d.ok) c.fail("harness", t);
    int cls = range_class<F>(d);
    c.note("text", [&] { return std::string(L::name()) + " " + t; });
    c.key(std::string(L::name()) + t);
    if (t.size() > 1) c.nontrivial();
    c.label(cls ? (cls > 0 ? "overflow" : "underflow") : "in range");
    // (RapidJSON itself limits the integer part and exponent of unquoted numbers)
    size_t ipart = t.find_first_of(".eE"), ep = t.find_first_of("eE");
    bool plain = std::min(ipart, t.size()) < 300 && (ep == t.npos || atoi(t.c_str() + ep + 1) < 300);
    std::string txt = json && plain && s.flip() ? t : "\"" + t + "\"";
    if (json) { J j; std::string err; if (!parse_json(t, j, err)) c.fail("harness", t + err); }
    auto verdict = [&](const char* how, bool ok, F f) {
        std::string what = std::string(how) + " " + L::name() + " of " + txt;
        if (cls) { if (ok) c.fail("out of range accepted", what + " gives " + show(f)); return; }
        if (!ok) c.fail("rejected", what + " is rejected");
        U u = bits(f), sb = U(1) << (sizeof(F) * 8 - 1);
        if (bool(u & sb) != d.neg) c.fail("read sign", what + " gives " + show(f));
        if ((u & ~sb) >= (U(L::emax) << L::mant) || !is_nearest<F>(d, u & ~sb)) c.fail("not nearest", what + " gives " + show(f));
    };
    F f = 5;
    bool ok = read(f, txt);
    verdict("from_json", ok, f);
    std::string b;
    if (s.chance(1, 4)) {
        ok = ctx().j2b(CONTRACT, L::name(), txt, s.flip(), b);
        if (ok && b.size() != sizeof(F)) c.fail("json_to_bin size", pbt::hexs(b));
        verdict("json_to_bin", ok, ok ? from_bits<F>(U(get_le(b, 0, sizeof(F)))) : F(0));
    }
    // malformed neighbours
    std::string m = t;
    static const char* tails[] = {"x", " ", ",", "e", "..", "e+", "-", "1e5e5", "_", "\\u0000", "\\u0000" "1", "f", "+", "e1.5"};
    switch (s.below(3)) {
    case 0: m += tails[s.below(std::size(tails))]; break;
    case 1: m.insert(m.size() - 1, "-"); break;
    default: m = s.flip() ? "" : s.flip() ? "-" : "--" + m;
    }
    if (m == t) return;
    if (parse_dec(m).ok) return;
    if (read(f, "\"" + m + "\"")) c.fail("malformed accepted", std::string("from_json ") + L::name() + " accepts \"" + m + "\" as " + show(f));
}
}  // namespace
PROP(print_double, 4) { print_prop<double>(c); }
PROP(print_float, 3) { print_prop<float>(c); }
PROP(read_double, 4) { read_prop<double>(c); }
PROP(read_float, 3) { read_prop<float>(c); }

PROP(float128, 2) {
    std::string b;
    int mode = int(c.s.below(3));
    for (int i = 0; i < 16; ++i) b += mode == 0 ? char(c.s.byte()) : mode == 1 ? char(0x11 * i) : char(i < 8 ? 0xff : c.s.below(2));
    std::string h = pbt::hexs(b), up, any;
    for (char ch : h) { up += char(toupper(ch)); any += c.s.flip() ? char(toupper(ch)) : char(tolower(ch)); }
    c.note("float128", [&] { return up; });
    c.key(b);
    c.nontrivial();
    std::string j, out;
    if (!ctx().b2j(CONTRACT, "float128", b, j)) c.fail("bin_to_json float128", ctx().error());
    if (j != "\"" + up + "\"") c.fail("float128 text", j + " instead of " + up);
    if (!ctx().j2b(CONTRACT, "float128", "\"" + any + "\"", c.s.flip(), out)) c.fail("json_to_bin float128", ctx().error());
    if (out != b) c.fail("float128 bytes", pbt::hexs(out) + " instead of " + h);
    eosio::float128 f;
    std::vector<char> vb(b.begin(), b.end());
    eosio::convert_from_bin(f, vb);
    if (eosio::convert_to_json(f) != j) c.fail("native float128 text", eosio::convert_to_json(f));
    eosio::float128 g;
    if (!read(g, "\"" + any + "\"") || !(f == g)) c.fail("native float128 reading", any);
    if (eosio::convert_to_bin(g) != vb) c.fail("native float128 bytes", pbt::hexs(eosio::convert_to_bin(g)));
    // wrong text
    std::string w = any;
    switch (c.s.below(3)) {
    case 0: w.resize(c.s.below(32)); break;
    case 1: w += std::string(1 + c.s.below(3), '0'); break;
    default: w[c.s.below(32)] = "gG-x /:@`"[c.s.below(9)];
    }
    if (read(g, "\"" + w + "\"")) c.fail("bad float128 accepted", w);
    if (ctx().j2b(CONTRACT, "float128", "\"" + w + "\"", false, out)) c.fail("bad float128 accepted", w);
}

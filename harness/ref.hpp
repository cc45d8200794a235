// Independent reference implementations (no code of the repository is used here).
#pragma once
#include "pbt.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <string>
#include <utility>
#include <vector>

namespace ref {
using u128 = unsigned __int128;
using i128 = __int128;
using Bytes = std::string;  // raw bytes

// ---------------------------------------------------------------- little endian / LEB128
inline void put_le(Bytes& b, u128 v, int n) {
    for (int i = 0; i < n; ++i) { b += char(uint8_t(v)); v >>= 8; }
}
inline u128 get_le(std::string_view b, size_t pos, int n) {
    u128 v = 0;
    for (int i = n - 1; i >= 0; --i) v = (v << 8) | uint8_t(b[pos + i]);
    return v;
}
inline void put_varuint(Bytes& b, uint64_t v) {
    for (;;) {
        if (v < 128) { b += char(v); return; }
        b += char(0x80 | (v & 127));
        v >>= 7;
    }
}
inline uint32_t zigzag(int32_t v) { return v < 0 ? uint32_t(2 * (-(int64_t(v) + 1)) + 1) : uint32_t(2 * int64_t(v)); }

// ---------------------------------------------------------------- UTF-8
// length of a well-formed sequence at s[i] (RFC 3629), 0 if ill-formed
inline int utf8_len(std::string_view s, size_t i) {
    auto at = [&](size_t k) -> int { return k < s.size() ? uint8_t(s[k]) : -1; };
    auto cont = [&](size_t k) { int c = at(k); return c >= 0x80 && c <= 0xBF; };
    int c = at(i);
    if (c < 0x80) return 1;
    if (c >= 0xC2 && c <= 0xDF) return cont(i + 1) ? 2 : 0;
    if (c >= 0xE0 && c <= 0xEF) {
        if (!cont(i + 1) || !cont(i + 2)) return 0;
        if (c == 0xE0 && at(i + 1) < 0xA0) return 0;
        if (c == 0xED && at(i + 1) > 0x9F) return 0;
        return 3;
    }
    if (c >= 0xF0 && c <= 0xF4) {
        if (!cont(i + 1) || !cont(i + 2) || !cont(i + 3)) return 0;
        if (c == 0xF0 && at(i + 1) < 0x90) return 0;
        if (c == 0xF4 && at(i + 1) > 0x8F) return 0;
        return 4;
    }
    return 0;
}
inline bool utf8_valid(std::string_view s) {
    for (size_t i = 0; i < s.size();) {
        int n = utf8_len(s, i);
        if (!n) return false;
        i += n;
    }
    return true;
}
inline std::string utf8_sanitize(std::string_view s) {  // each ill-formed byte becomes '?'
    std::string r;
    for (size_t i = 0; i < s.size();) {
        int n = utf8_len(s, i);
        if (!n) { r += '?'; ++i; }
        else { r.append(s.substr(i, n)); i += n; }
    }
    return r;
}
inline void utf8_put(std::string& r, uint32_t cp) {
    if (cp < 0x80) r += char(cp);
    else if (cp < 0x800) { r += char(0xC0 | cp >> 6); r += char(0x80 | (cp & 63)); }
    else if (cp < 0x10000) { r += char(0xE0 | cp >> 12); r += char(0x80 | (cp >> 6 & 63)); r += char(0x80 | (cp & 63)); }
    else { r += char(0xF0 | cp >> 18); r += char(0x80 | (cp >> 12 & 63)); r += char(0x80 | (cp >> 6 & 63)); r += char(0x80 | (cp & 63)); }
}

// ---------------------------------------------------------------- strict JSON (RFC 8259)
struct J {
    enum K { null, boolean, num, str, arr, obj } k = null;
    bool b = false;
    std::string s;  // number text or string value
    std::vector<J> a;
    std::vector<std::pair<std::string, J>> o;
};
class JParser {
  public:
    JParser(std::string_view t) : t(t) {}
    std::string err;
    bool parse(J& j) {
        if (!utf8_valid(t)) { err = "invalid UTF-8"; return false; }
        ws();
        if (!value(j, 0)) return false;
        ws();
        if (p != t.size()) return bad("trailing characters");
        return true;
    }

  private:
    std::string_view t;
    size_t p = 0;
    bool bad(const char* m) { if (err.empty()) err = std::string(m) + " at offset " + std::to_string(p); return false; }
    void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) ++p; }
    bool lit(const char* l) {
        size_t n = strlen(l);
        if (t.substr(p, n) != l) return bad("bad literal");
        p += n;
        return true;
    }
    bool value(J& j, int depth) {
        if (depth > 2000) return bad("too deep");
        if (p >= t.size()) return bad("unexpected end");
        switch (t[p]) {
        case 'n': j.k = J::null; return lit("null");
        case 't': j.k = J::boolean; j.b = true; return lit("true");
        case 'f': j.k = J::boolean; j.b = false; return lit("false");
        case '"': j.k = J::str; return string(j.s);
        case '[':
            j.k = J::arr; ++p; ws();
            if (p < t.size() && t[p] == ']') { ++p; return true; }
            for (;;) {
                ws();
                j.a.emplace_back();
                if (!value(j.a.back(), depth + 1)) return false;
                ws();
                if (p < t.size() && t[p] == ',') { ++p; continue; }
                if (p < t.size() && t[p] == ']') { ++p; return true; }
                return bad("expected , or ]");
            }
        case '{':
            j.k = J::obj; ++p; ws();
            if (p < t.size() && t[p] == '}') { ++p; return true; }
            for (;;) {
                ws();
                j.o.emplace_back();
                if (p >= t.size() || t[p] != '"') return bad("expected key");
                if (!string(j.o.back().first)) return false;
                ws();
                if (p >= t.size() || t[p] != ':') return bad("expected :");
                ++p; ws();
                if (!value(j.o.back().second, depth + 1)) return false;
                ws();
                if (p < t.size() && t[p] == ',') { ++p; continue; }
                if (p < t.size() && t[p] == '}') { ++p; return true; }
                return bad("expected , or }");
            }
        default: j.k = J::num; return number(j.s);
        }
    }
    bool dig() { return p < t.size() && t[p] >= '0' && t[p] <= '9'; }
    bool number(std::string& out) {
        size_t st = p;
        if (p < t.size() && t[p] == '-') ++p;
        if (!dig()) return bad("bad number");
        if (t[p] == '0') ++p;
        else while (dig()) ++p;
        if (p < t.size() && t[p] == '.') { ++p; if (!dig()) return bad("bad fraction"); while (dig()) ++p; }
        if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) {
            ++p;
            if (p < t.size() && (t[p] == '+' || t[p] == '-')) ++p;
            if (!dig()) return bad("bad exponent");
            while (dig()) ++p;
        }
        out = std::string(t.substr(st, p - st));
        return true;
    }
    bool hex4(uint32_t& v) {
        v = 0;
        for (int i = 0; i < 4; ++i, ++p) {
            if (p >= t.size()) return bad("bad \\u");
            char c = t[p];
            int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
            if (d < 0) return bad("bad \\u");
            v = v * 16 + d;
        }
        return true;
    }
    bool string(std::string& out) {
        ++p;
        out.clear();
        for (;;) {
            if (p >= t.size()) return bad("unterminated string");
            unsigned char c = t[p];
            if (c == '"') { ++p; return true; }
            if (c < 32) return bad("raw control character");
            if (c != '\\') { out += char(c); ++p; continue; }
            ++p;
            if (p >= t.size()) return bad("unterminated escape");
            char e = t[p++];
            switch (e) {
            case '"': out += '"'; break;
            case '\\': out += '\\'; break;
            case '/': out += '/'; break;
            case 'b': out += '\b'; break;
            case 'f': out += '\f'; break;
            case 'n': out += '\n'; break;
            case 'r': out += '\r'; break;
            case 't': out += '\t'; break;
            case 'u': {
                uint32_t v, w;
                if (!hex4(v)) return false;
                if (v >= 0xD800 && v < 0xDC00) {
                    if (t.substr(p, 2) != "\\u") return bad("lone surrogate");
                    p += 2;
                    if (!hex4(w)) return false;
                    if (w < 0xDC00 || w > 0xDFFF) return bad("lone surrogate");
                    v = 0x10000 + ((v - 0xD800) << 10) + (w - 0xDC00);
                } else if (v >= 0xDC00 && v <= 0xDFFF) return bad("lone low surrogate");
                utf8_put(out, v);
                break;
            }
            default: return bad("bad escape");
            }
        }
    }
};
inline bool parse_json(std::string_view t, J& j, std::string& err) {
    JParser p(t);
    j = J{};
    if (p.parse(j)) return true;
    err = p.err;
    return false;
}
inline bool same_json(const J& a, const J& b) {
    if (a.k != b.k) return false;
    switch (a.k) {
    case J::null: return true;
    case J::boolean: return a.b == b.b;
    case J::num: case J::str: return a.s == b.s;
    case J::arr:
        if (a.a.size() != b.a.size()) return false;
        for (size_t i = 0; i < a.a.size(); ++i) if (!same_json(a.a[i], b.a[i])) return false;
        return true;
    default:
        if (a.o.size() != b.o.size()) return false;
        for (size_t i = 0; i < a.o.size(); ++i)
            if (a.o[i].first != b.o[i].first || !same_json(a.o[i].second, b.o[i].second)) return false;
        return true;
    }
}
// plain escaping writer
inline std::string json_str(std::string_view s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char c : s) {
        if (c == '"') r += "\\\"";
        else if (c == '\\') r += "\\\\";
        else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}
// a random but equivalent spelling of a (valid UTF-8) string
inline std::string json_str_any(pbt::Source& s, std::string_view v) {
    if (!s.chance(1, 3)) return json_str(v);
    std::string r = "\"";
    char b[16];
    for (size_t i = 0; i < v.size();) {
        int n = utf8_len(v, i);
        if (!n) n = 1;
        unsigned char c = v[i];
        uint32_t cp = c;
        if (n == 2) cp = (c & 31) << 6 | (v[i + 1] & 63);
        if (n == 3) cp = (c & 15) << 12 | (v[i + 1] & 63) << 6 | (v[i + 2] & 63);
        if (n == 4) cp = (c & 7) << 18 | (v[i + 1] & 63) << 12 | (v[i + 2] & 63) << 6 | (v[i + 3] & 63);
        bool esc = s.chance(1, 4);
        if (c == '"' || c == '\\' || c < 32) esc = true;
        if (!esc) { r.append(v.substr(i, n)); i += n; continue; }
        const char* shortf = nullptr;
        switch (cp) {
        case '"': shortf = "\\\""; break;
        case '\\': shortf = "\\\\"; break;
        case '/': shortf = "\\/"; break;
        case '\b': shortf = "\\b"; break;
        case '\f': shortf = "\\f"; break;
        case '\n': shortf = "\\n"; break;
        case '\r': shortf = "\\r"; break;
        case '\t': shortf = "\\t"; break;
        }
        if (shortf && !s.chance(1, 3)) r += shortf;
        else if (cp < 0x10000) { snprintf(b, sizeof b, s.flip() ? "\\u%04X" : "\\u%04x", cp); r += b; }
        else {
            uint32_t x = cp - 0x10000;
            snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xD800 + (x >> 10), 0xDC00 + (x & 1023));
            r += b;
        }
        i += n;
    }
    return r + "\"";
}
inline std::string gen_ws(pbt::Source& s) {
    if (!s.chance(1, 8)) return "";
    std::string r;
    for (size_t n = s.below(3) + 1; n--;) r += " \t\n\r"[s.below(4)];
    return r;
}

// ---------------------------------------------------------------- generators of text
inline std::string gen_utf8(pbt::Source& s, size_t maxlen) {
    size_t n = s.size(maxlen);
    std::string r;
    int mode = int(s.below(4));
    for (size_t i = 0; i < n; ++i) {
        int m = mode == 3 ? int(s.below(6)) : mode;
        switch (m) {
        case 0: r += char('a' + s.below(26)); break;
        case 1: r += char(32 + s.below(95)); break;
        case 2: r += "\"\\/\b\f\n\r\t\x7f\x01\x1f {}[],:"[s.below(19)]; break;
        case 3: r += char(s.below(128)); break;
        default: {
            static const uint32_t cps[] = {0x80, 0x7ff, 0x800, 0xfff, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, 0xe9, 0x20ac, 0x1f600, 0x2028};
            uint32_t cp = s.flip() ? cps[s.below(14)] : uint32_t(s.below(0x110000));
            if (cp >= 0xd800 && cp <= 0xdfff) cp = 0xfffd;
            utf8_put(r, cp);
        }
        }
    }
    return r;
}
inline std::string gen_bytes(pbt::Source& s, size_t maxlen) {
    size_t n = s.size(maxlen);
    std::string r;
    int mode = int(s.below(3));
    for (size_t i = 0; i < n; ++i) r += mode == 0 ? char(s.byte()) : mode == 1 ? char(i * 7 + 1) : "\x00\xff\x80\x7f\xc2\xa0\xed\xf4"[s.below(8)];
    return r;
}

// ---------------------------------------------------------------- names
inline std::string name_text(uint64_t v) {
    static const char m[] = ".12345abcdefghijklmnopqrstuvwxyz";
    std::string r;
    for (int i = 0; i < 12; ++i) r += m[(v >> (59 - 5 * i)) & 31];
    r += m[v & 15];
    while (!r.empty() && r.back() == '.') r.pop_back();
    return r;
}
// strict parse; false when the text is not a valid name
inline bool name_value(std::string_view t, uint64_t& v) {
    v = 0;
    if (t.size() > 13) return false;
    for (size_t i = 0; i < t.size(); ++i) {
        char c = t[i];
        uint64_t d;
        if (c == '.') d = 0;
        else if (c >= '1' && c <= '5') d = c - '1' + 1;
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 6;
        else return false;
        if (i < 12) v |= d << (59 - 5 * i);
        else { if (d > 15) return false; v |= d; }
    }
    return true;
}
inline uint64_t gen_name(pbt::Source& s) {
    static const char* common[] = {"eosio", "eosio.token", "alice", "a", "z", "zzzzzzzzzzzzj", "1", "5", "a.b", "aaaaaaaaaaaaa", "eosio.msig", "zzzzzzzzzzzz"};
    uint64_t v = 0;
    switch (s.below(4)) {
    case 0: name_value(common[s.below(12)], v); return v;
    case 1: {
        std::string t;
        size_t n = s.below(14);
        for (size_t i = 0; i < n; ++i) t += i < 12 ? ".12345abcdefghijklmnopqrstuvwxyz"[s.below(32)] : ".12345abcdefghij"[s.below(16)];
        name_value(t, v);
        return v;
    }
    case 2: return uint64_t(s.uint_bits(64));
    default: return s.u64();
    }
}

// ---------------------------------------------------------------- dates (proleptic Gregorian, by counting)
inline bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int dim(int64_t y, int m) {
    static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
    return m == 2 && leap(y) ? 29 : d[m - 1];
}
inline int64_t days_before_year(int64_t y) {  // days from 1970-01-01 to y-01-01 (y >= 1)
    int64_t n = y - 1;
    return 365 * n + n / 4 - n / 100 + n / 400 - 719162;
}
inline int64_t to_days(int64_t y, int m, int d) {
    int64_t r = days_before_year(y);
    for (int i = 1; i < m; ++i) r += dim(y, i);
    return r + d - 1;
}
inline std::string time_text_ms(uint64_t ms) {  // from 1970, year <= 9999
    uint64_t sec = ms / 1000;
    int64_t day = int64_t(sec / 86400);
    int64_t y = 1970 + day / 366;
    while (days_before_year(y + 1) <= day) ++y;
    int64_t rem = day - days_before_year(y);
    int m = 1;
    while (rem >= dim(y, m)) { rem -= dim(y, m); ++m; }
    char b[64];
    snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%03d", int(y), m, int(rem + 1), int(sec / 3600 % 24), int(sec / 60 % 60), int(sec % 60), int(ms % 1000));
    return b;
}
inline std::string time_text_s(uint64_t sec) { return time_text_ms(sec * 1000).substr(0, 19); }

// ---------------------------------------------------------------- symbols and assets
inline std::string gen_code(pbt::Source& s) {
    if (s.chance(1, 3)) { static const char* c[] = {"SYS", "EOS", "A", "ZZZZZZZ", "AAAAAAA", "Z", "USDT"}; return c[s.below(7)]; }
    std::string r;
    for (size_t n = 1 + s.below(7); n--;) r += char('A' + s.below(26));
    return r;
}
inline uint64_t code_value(std::string_view c) {
    uint64_t v = 0;
    for (size_t i = 0; i < c.size(); ++i) v |= uint64_t(uint8_t(c[i])) << (8 * i);
    return v;
}
inline std::string asset_amount_text(int64_t amount, unsigned precision) {
    u128 u = amount < 0 ? -(u128)(i128)amount : (u128)amount;
    std::string d = pbt::to_s(u);
    while (d.size() < precision + 1) d.insert(d.begin(), '0');
    if (precision) d.insert(d.size() - precision, ".");
    return (amount < 0 ? "-" : "") + d;
}
inline std::string asset_text(int64_t amount, unsigned precision, const std::string& code) { return asset_amount_text(amount, precision) + " " + code; }

// ---------------------------------------------------------------- RIPEMD-160
inline Bytes ripemd160(std::string_view msg) {
    static const int r1[80] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8, 1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6, 15, 13};
    static const int r2[80] = {5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6, 9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3, 9, 11};
    static const int s1[80] = {11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9, 13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13, 14, 11, 8, 5, 6};
    static const int s2[80] = {8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6, 6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5, 15, 13, 11, 11};
    static const uint32_t k1[5] = {0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E}, k2[5] = {0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0};
    auto rol = [](uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    auto f = [](int j, uint32_t x, uint32_t y, uint32_t z) -> uint32_t {
        switch (j / 16) { case 0: return x ^ y ^ z; case 1: return (x & y) | (~x & z); case 2: return (x | ~y) ^ z; case 3: return (x & z) | (y & ~z); default: return x ^ (y | ~z); }
    };
    Bytes m(msg);
    m += char(0x80);
    while (m.size() % 64 != 56) m += char(0);
    put_le(m, uint64_t(msg.size()) * 8, 8);
    uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0};
    for (size_t blk = 0; blk < m.size(); blk += 64) {
        uint32_t x[16];
        for (int i = 0; i < 16; ++i) x[i] = uint32_t(get_le(m, blk + 4 * i, 4));
        uint32_t a[5], b[5];
        memcpy(a, h, sizeof h);
        memcpy(b, h, sizeof h);
        for (int j = 0; j < 80; ++j) {
            uint32_t t = rol(a[0] + f(j, a[1], a[2], a[3]) + x[r1[j]] + k1[j / 16], s1[j]) + a[4];
            a[0] = a[4]; a[4] = a[3]; a[3] = rol(a[2], 10); a[2] = a[1]; a[1] = t;
            t = rol(b[0] + f(79 - j, b[1], b[2], b[3]) + x[r2[j]] + k2[j / 16], s2[j]) + b[4];
            b[0] = b[4]; b[4] = b[3]; b[3] = rol(b[2], 10); b[2] = b[1]; b[1] = t;
        }
        uint32_t t = h[1] + a[2] + b[3];
        h[1] = h[2] + a[3] + b[4]; h[2] = h[3] + a[4] + b[0]; h[3] = h[4] + a[0] + b[1]; h[4] = h[0] + a[1] + b[2]; h[0] = t;
    }
    Bytes out;
    for (uint32_t w : h) put_le(out, w, 4);
    return out;
}

// ---------------------------------------------------------------- base58
inline std::string base58(std::string_view bin) {
    static const char al[] = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
    size_t z = 0;
    while (z < bin.size() && bin[z] == 0) ++z;
    std::vector<uint8_t> num(bin.begin(), bin.end());
    std::string r;
    size_t st = z;
    while (st < num.size()) {
        int rem = 0;
        for (size_t i = st; i < num.size(); ++i) {
            int v = rem * 256 + num[i];
            num[i] = uint8_t(v / 58);
            rem = v % 58;
        }
        r += al[rem];
        while (st < num.size() && num[st] == 0) ++st;
    }
    r.append(z, '1');
    std::reverse(r.begin(), r.end());
    return r;
}

// Keys and signatures: `wire` is the binary form (variant index, then payload).
enum class KeyKind { pub, pvt, sig };
inline std::string key_text(KeyKind kind, const Bytes& wire) {
    static const char* pre[] = {"PUB_", "PVT_", "SIG_"};
    static const char* suf[] = {"K1", "R1", "WA"};
    const char* sx = suf[uint8_t(wire[0])];
    Bytes payload = wire.substr(1);
    Bytes sum = ripemd160(payload + sx).substr(0, 4);
    return std::string(pre[int(kind)]) + sx + "_" + base58(payload + sum);
}
inline std::string legacy_pub_text(const Bytes& payload) { return "EOS" + base58(payload + ripemd160(payload).substr(0, 4)); }
inline Bytes gen_key(pbt::Source& s, KeyKind kind) {
    Bytes w;
    auto fill = [&](int n) {
        int mode = int(s.below(4));
        for (int i = 0; i < n; ++i) w += mode == 0 ? char(0) : mode == 1 ? char(0xff) : mode == 2 && i < 3 ? char(0) : char(s.byte());
    };
    if (kind == KeyKind::pvt) { w += char(s.below(2)); fill(32); return w; }
    int t = int(s.below(3));
    w += char(t);
    if (kind == KeyKind::pub) {
        fill(33);
        if (t == 2) { w += char(s.below(3)); std::string r = gen_utf8(s, 200); put_varuint(w, r.size()); w += r; }
    } else {
        fill(65);
        if (t == 2) {
            std::string a = gen_bytes(s, 200), c = gen_utf8(s, 200);
            put_varuint(w, a.size()); w += a;
            put_varuint(w, c.size()); w += c;
        }
    }
    return w;
}

// ---------------------------------------------------------------- hex
inline std::string hex_any(pbt::Source& s, std::string_view b) {
    static const char* u = "0123456789ABCDEF";
    static const char* l = "0123456789abcdef";
    int mode = int(s.below(3));
    std::string r;
    for (unsigned char c : b) {
        const char* d = mode == 0 ? u : mode == 1 ? l : (s.flip() ? u : l);
        r += d[c >> 4];
        r += (mode == 2 && s.flip() ? l : d)[c & 15];
    }
    return r;
}
inline bool unhex(std::string_view t, Bytes& out) {
    auto d = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; };
    out.clear();
    if (t.size() & 1) return false;
    for (size_t i = 0; i < t.size(); i += 2) {
        int a = d(t[i]), b = d(t[i + 1]);
        if (a < 0 || b < 0) return false;
        out += char(a * 16 + b);
    }
    return true;
}
}  // namespace ref

// Times: text agrees with the calendar, malformed text is rejected, arithmetic and conversions are exact.
#include "capi.hpp"
#include <eosio/from_bin.hpp>
#include <eosio/from_json.hpp>
#include <eosio/time.hpp>
#include <eosio/to_bin.hpp>
#include <eosio/to_json.hpp>
using namespace ref;

namespace {
constexpr int64_t EPOCH_MS = 946684800000ll, MAX_SEC = 0xffffffffll;
constexpr int64_t US_YEAR0 = -62167219200ll * 1000000, US_END = 253402300800ll * 1000000;
int64_t fdiv(int64_t a, int64_t b) { return a / b - (a % b < 0); }
std::string text_us(int64_t us) {  // year 0000..9999
    int64_t ms = fdiv(us, 1000), sec = fdiv(ms, 1000), day = fdiv(sec, 86400), tod = sec - day * 86400;
    int64_t y = 1970 + fdiv(day, 366);
    auto start = [](int64_t yr) { return yr ? days_before_year(yr) : days_before_year(1) - 366; };
    if (y < 0) y = 0;
    while (y > 0 && start(y) > day) --y;
    while (start(y + 1) <= day) ++y;
    int64_t rem = day - start(y);
    int m = 1;
    while (rem >= dim(y, m)) { rem -= dim(y, m); ++m; }
    char b[64];
    snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d.%03d", int(y), m, int(rem + 1), int(tod / 3600), int(tod / 60 % 60), int(tod % 60), int(ms - sec * 1000));
    return b;
}
// longest prefix "YYYY-MM-DDTHH:MM:SS" naming an existing time in the 32-bit second range
bool ref_seconds(std::string_view t, int64_t& sec) {
    static const char pat[] = "dddd-dd-ddTdd:dd:dd";
    if (t.size() < 19) return false;
    for (int i = 0; i < 19; ++i)
        if (pat[i] == 'd' ? !(t[i] >= '0' && t[i] <= '9') : t[i] != pat[i]) return false;
    auto num = [&](int p, int n) { int r = 0; while (n--) r = r * 10 + (t[p++] - '0'); return r; };
    int y = num(0, 4), m = num(5, 2), d = num(8, 2), h = num(11, 2), mi = num(14, 2), s = num(17, 2);
    if (m < 1 || m > 12 || d < 1 || d > dim(y, m) || h > 23 || mi > 59 || s > 59) return false;
    if (y < 1) return false;
    sec = to_days(y, m, d) * 86400 + h * 3600 + mi * 60 + s;
    return sec >= 0 && sec <= MAX_SEC;
}
enum V { no, yes, unjudged };
V ref_micro(std::string_view t, int64_t& us) {  // whole text
    int64_t sec;
    if (!ref_seconds(t, sec)) return no;
    us = sec * 1000000;
    if (t.size() == 19) return yes;
    if (t[19] != '.') return no;
    if (t.size() == 20) return unjudged;
    int64_t scale = 100000;
    for (size_t i = 20; i < t.size(); ++i) {
        if (!(t[i] >= '0' && t[i] <= '9') || !scale) return no;
        us += (t[i] - '0') * scale;
        scale /= 10;
    }
    return yes;
}
V ref_sec(std::string_view t, int64_t& sec) {
    if (!ref_seconds(t, sec)) return no;
    if (t.size() == 19) return yes;
    if (t[19] != '.') return no;
    if (t.size() == 20) return unjudged;
    for (size_t i = 20; i < t.size(); ++i) if (!(t[i] >= '0' && t[i] <= '9')) return no;
    return yes;
}
int64_t gen_sec(pbt::Source& s) {
    switch (s.below(5)) {
    case 0: return int64_t(s.uint_bits(32));
    case 1: {  // near the end or start of a month
        int64_t y = 1970 + s.below(136);
        int m = 1 + int(s.below(12));
        int64_t v = to_days(y, m, 1) * 86400 + s.range(-2, 2) * (s.flip() ? 1 : 86400);
        return std::max<int64_t>(0, std::min(v, MAX_SEC));
    }
    case 2: {  // around leap days
        int64_t y = 1972 + 4 * int64_t(s.below(34));
        return std::min(MAX_SEC, to_days(y, 2, 27) * 86400 + int64_t(s.below(4 * 86400)));
    }
    case 3: return MAX_SEC - int64_t(s.below(3));
    default: return int64_t(s.raw(4));
    }
}
int64_t gen_us(pbt::Source& s) {  // any representable time
    switch (s.below(6)) {
    case 0: return gen_sec(s) * 1000000 + int64_t(s.below(1000000));
    case 1: return gen_sec(s) * 1000000 + int64_t(s.below(3)) * 999999 / 2;
    case 2: return s.range(US_YEAR0, US_END - 1);
    case 3: return (s.flip() ? US_YEAR0 : US_END - 1 - 4000000) + int64_t(s.below(4000000));
    case 4: return s.range(-3000000, 3000000);
    default: return int64_t(s.int_bits(64));
    }
}
template <class T> bool read(T& out, const std::string& json) {
    std::string buf = json + std::string(4, '\0');
    try {
        eosio::json_token_stream js(buf.data());
        eosio::from_json(out, js);
        js.get_end();
    } catch (std::exception&) { return false; }
    return true;
}
Ctx& ctx() {
    static Ctx x;
    static bool once = x.set_abi(CONTRACT, R"({"version":"eosio::abi/1.1","types":[],"structs":[]})");
    if (!once) abort();
    return x;
}
std::string le(uint64_t v, int n) { std::string b; put_le(b, v, n); return b; }
std::string q(const std::string& s) { return "\"" + s + "\""; }
// text -> value through JSON natively and through the ABI; nullopt = rejected
template <class T> struct Acc;
template <> struct Acc<eosio::time_point> { static constexpr const char* n = "time_point"; static constexpr int w = 8; static int64_t v(const eosio::time_point& t) { return t.elapsed._count; } };
template <> struct Acc<eosio::time_point_sec> { static constexpr const char* n = "time_point_sec"; static constexpr int w = 4; static int64_t v(const eosio::time_point_sec& t) { return t.utc_seconds; } };
template <> struct Acc<eosio::block_timestamp> { static constexpr const char* n = "block_timestamp_type"; static constexpr int w = 4; static int64_t v(const eosio::block_timestamp& t) { return t.slot; } };
template <class T> void expect_read(pbt::Case& c, const std::string& text, V valid, int64_t v) {
    if (valid == unjudged) return;
    T t{};
    std::string j = json_str_any(c.s, text), what = std::string(Acc<T>::n) + " from " + pbt::quote(text);
    bool ok = read(t, j);
    if (ok != (valid == yes)) c.fail(ok ? "bad time accepted" : "good time rejected", what + (ok ? " gives " + std::to_string(Acc<T>::v(t)) : " is rejected"));
    if (ok && Acc<T>::v(t) != v) c.fail("wrong time read", what + " gives " + std::to_string(Acc<T>::v(t)) + " instead of " + std::to_string(v));
    if (c.s.chance(1, 4) && text.find('\0') == text.npos) {
        std::string b;
        bool ok2 = ctx().j2b(CONTRACT, Acc<T>::n, j, c.s.flip(), b);
        if (ok2 != ok) c.fail("ABI disagrees", what + (ok2 ? " accepted" : " rejected"));
        if (ok2 && b != le(uint64_t(v), Acc<T>::w)) c.fail("ABI reads another time", what + " gives " + pbt::hexs(b));
    }
}
template <class T> void expect_print(pbt::Case& c, const T& t, const std::string& text) {
    std::string j = eosio::convert_to_json(t), what = std::string(Acc<T>::n) + " " + std::to_string(Acc<T>::v(t));
    if (j != q(text)) c.fail("text", what + " prints as " + j + " instead of " + text);
    if (c.s.chance(1, 4)) {
        std::string j2;
        if (!ctx().b2j(CONTRACT, Acc<T>::n, le(uint64_t(Acc<T>::v(t)), Acc<T>::w), j2)) c.fail("bin_to_json", ctx().error());
        if (j2 != j) c.fail("ABI text", what + " prints as " + j2);
    }
}
}  // namespace

PROP(print_points, 4) {
    int64_t us = gen_us(c.s);
    c.note("microseconds", [&] { return std::to_string(us); });
    c.key(le(us, 8));
    c.nontrivial();
    if (us < US_YEAR0 || us >= US_END) {  // no four-digit year: only required to be well behaved
        c.label("beyond year 9999");
        std::string t = eosio::microseconds_to_str(us);
        if (t.size() != 23) c.fail("text length", t);
        return;
    }
    std::string t = text_us(us);
    c.label(us < 0 ? "before 1970" : us / 1000000 > MAX_SEC ? "after 2106" : "1970-2106");
    if (eosio::microseconds_to_str(uint64_t(us)) != t) c.fail("microseconds_to_str", std::to_string(us) + " prints as " + eosio::microseconds_to_str(us) + " instead of " + t);
    expect_print(c, eosio::time_point(eosio::microseconds(us)), t);
    if (us >= 0 && us / 1000000 <= MAX_SEC) expect_read<eosio::time_point>(c, t, yes, us / 1000 * 1000);
}
PROP(print_seconds, 2) {
    int64_t sec = gen_sec(c.s);
    c.note("seconds", [&] { return std::to_string(sec); });
    c.key(le(sec, 4));
    c.nontrivial();
    std::string t = text_us(sec * 1000000);
    expect_print(c, eosio::time_point_sec(uint32_t(sec)), t);
    expect_read<eosio::time_point_sec>(c, t, yes, sec);
}
PROP(print_blocks, 2) {
    uint32_t slot = uint32_t(c.s.uint_bits(32));
    c.note("slot", [&] { return std::to_string(slot); });
    c.key(le(slot, 4));
    c.nontrivial();
    std::string t = text_us((int64_t(slot) * 500 + EPOCH_MS) * 1000);
    expect_print(c, eosio::block_timestamp(slot), t);
    expect_read<eosio::block_timestamp>(c, t, yes, slot);
}
PROP(read, 6) {
    auto& s = c.s;
    std::string t;
    switch (s.below(4)) {
    case 0: t = text_us(gen_sec(s) * 1000000); t.resize(19); break;
    case 1: {  // fields independently near their limits
        static const int ys[] = {1970, 1969, 1972, 2000, 2100, 2106, 1, 0, 9999, 2024, 2023, 1900, 2105, 2107};
        int y = s.flip() ? ys[s.below(14)] : 1970 + int(s.below(136)), m = int(s.below(14));
        int d = s.flip() ? 27 + int(s.below(6)) : int(s.below(33));
        char b[64];
        snprintf(b, sizeof b, "%04d-%02d-%02dT%02d:%02d:%02d", y, m, d, int(s.chance(1, 4) ? 23 + s.below(3) : s.below(24)), int(s.chance(1, 4) ? 59 + s.below(4) : s.below(60)), int(s.chance(1, 4) ? 59 + s.below(4) : s.below(60)));
        t = b;
        break;
    }
    case 2: {  // last representable second
        int64_t sec = MAX_SEC + s.range(-2, 2);
        t = text_us(sec * 1000000);
        t.resize(19);
        break;
    }
    default: t = text_us((int64_t(s.uint_bits(32)) * 500 + (s.flip() ? EPOCH_MS : 0)) * 1000);
    }
    if (t.size() == 19 && s.flip()) {
        t += '.';
        for (size_t n = s.below(9); n--;) t += char('0' + s.below(10));
    }
    for (size_t n = s.chance(1, 3) ? 1 + s.below(2) : 0; n--;) {
        size_t p = s.below(t.size() + 1);
        char ch = "0123456789-:.TtZ +/\0z"[s.below(21)];
        switch (s.below(5)) {
        case 0: t.insert(p, 1, ch); break;
        case 1: if (p < t.size()) t[p] = ch; break;
        case 2: if (p < t.size()) t.erase(p, 1); break;
        case 3: t.resize(p); break;
        default: t += ch;
        }
    }
    c.note("text", [&] { return pbt::quote(t); });
    c.key(t);
    int64_t us = 0, sec = 0;
    V vm = ref_micro(t, us), vs = ref_sec(t, sec);
    c.label(vm == yes ? "valid" : vm == no ? "invalid" : "unjudged");
    if (t.size() >= 10) c.nontrivial();
    expect_read<eosio::time_point>(c, t, vm, us);
    expect_read<eosio::time_point_sec>(c, t, vs, sec);
    // a block time counts half seconds from 2000 in 32 bits
    int64_t ms = us / 1000 - EPOCH_MS;
    V vb = vm;
    if (vb == yes && (ms < 0 || ms / 500 > MAX_SEC)) { vb = no; c.label("no block time"); }
    expect_read<eosio::block_timestamp>(c, t, vb, ms / 500);
    // the parsing functions, on exactly sized text
    std::vector<char> x(t.begin(), t.end());
    x.shrink_to_fit();
    const char *b = x.data(), *e = b + x.size();
    uint32_t rs = 7;
    uint64_t ru = 7;
    bool ok;
    if (vs != unjudged) {
        ok = eosio::string_to_utc_seconds(rs, b, e);
        if (ok != (vs == yes) || (ok && rs != sec)) c.fail("string_to_utc_seconds", pbt::quote(t));
    }
    if (vm != unjudged) {
        ok = eosio::string_to_utc_microseconds(ru, b, e);
        if (ok != (vm == yes) || (ok && ru != uint64_t(us))) c.fail("string_to_utc_microseconds", pbt::quote(t));
    }
    int64_t psec = 0;
    bool pv = ref_seconds(t, psec);
    if (!pv) psec = 0;
    const char* p = b;
    ok = eosio::string_to_utc_seconds(rs, p, e, false, false);
    if (ok != pv || (ok && (rs != psec || p != b + 19))) c.fail("string_to_utc_seconds prefix", pbt::quote(t));
    p = b;
    ok = eosio::string_to_utc_seconds(rs, p, e, true, false);
    size_t stop = 19;
    if (stop < t.size() && t[stop] == '.') { ++stop; while (stop < t.size() && isdigit((unsigned char)t[stop])) ++stop; }
    if (ok != pv || (ok && (rs != psec || p != b + stop))) c.fail("string_to_utc_seconds prefix", pbt::quote(t));
    p = b;
    ok = eosio::string_to_utc_microseconds(ru, p, e, false);
    int64_t pus = psec * 1000000, scale = 100000;
    stop = 19;
    if (stop < t.size() && t[stop] == '.') { ++stop; while (stop < t.size() && scale && isdigit((unsigned char)t[stop])) { pus += (t[stop++] - '0') * scale; scale /= 10; } }
    if (ok != pv || (ok && (ru != uint64_t(pus) || p != b + stop))) c.fail("string_to_utc_microseconds prefix", pbt::quote(t));
}
PROP(arithmetic, 4) {
    auto& s = c.s;
    auto small = [&] { return int64_t(s.int_bits(62)); };
    int64_t a = small(), b = small();
    c.note("operands", [&] { return std::to_string(a) + " " + std::to_string(b); });
    c.key(le(a, 8) + le(b, 8));
    if (a && b) c.nontrivial();
    auto eq = [&](const char* tag, int64_t got, int64_t want) {
        if (got != want) c.fail(tag, std::string(tag) + " of " + std::to_string(a) + " and " + std::to_string(b) + " is " + std::to_string(got) + " instead of " + std::to_string(want));
    };
    using namespace eosio;
    using us = eosio::microseconds;
    us x(a), y(b), z = x;
    eq("us+us", (x + y).count(), a + b);
    eq("us-us", (x - y).count(), a - b);
    eq("us+=us", (z += y).count(), a + b);
    eq("us+=us value", z.count(), a + b);
    z = x;
    eq("us-=us", (z -= y)._count, a - b);
    eq("to_seconds", x.to_seconds(), a / 1000000);
    eq("default us", us().count(), 0);
    eq("us max", us::maximum().count(), INT64_MAX);
    int64_t k = a % 9000000000ll;
    eq("seconds()", eosio::seconds(k).count(), k * 1000000);
    eq("milliseconds()", eosio::milliseconds(k).count(), k * 1000);
    eq("minutes()", eosio::minutes(k).count(), k * 60000000);
    k %= 2000000000;
    eq("hours()", eosio::hours(k).count(), k * 3600000000ll);
    k %= 100000000;
    eq("days()", eosio::days(k).count(), k * 86400000000ll);
    time_point p(x), r(y), w = p;
    eq("time_since_epoch", p.time_since_epoch().count(), a);
    eq("tp+us", (p + y).elapsed.count(), a + b);
    eq("tp+tp", (p + r).elapsed.count(), a + b);
    eq("tp-us", (p - y).elapsed.count(), a - b);
    eq("tp-tp", (p - r).count(), a - b);
    eq("tp+=us", (w += y).elapsed.count(), a + b);
    w = p;
    eq("tp-=us", (w -= y).elapsed.count(), a - b);
    eq("tp max", time_point::max().elapsed.count(), INT64_MAX);
    bool o = (p == r) == (a == b) && (p != r) == (a != b) && (p < r) == (a < b) && (p > r) == (a > b) && (p <= r) == (a <= b) && (p >= r) == (a >= b) &&
             (x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b);
    if (!o) c.fail("order", std::to_string(a) + " and " + std::to_string(b));
}
PROP(conversions, 4) {
    auto& s = c.s;
    int64_t a = gen_sec(s), b = gen_sec(s), frac = int64_t(s.below(1000000));
    if (s.flip()) b = a + s.range(-2, 2);
    if (b < 0 || b > MAX_SEC) b = a;
    c.note("operands", [&] { return std::to_string(a) + "." + std::to_string(frac) + " " + std::to_string(b); });
    c.key(le(a, 4) + le(b, 4) + le(frac, 4));
    c.nontrivial();
    auto eq = [&](const char* tag, int64_t got, int64_t want) {
        if (got != want) c.fail(tag, std::string(tag) + " of " + std::to_string(a) + "." + std::to_string(frac) + " and " + std::to_string(b) + " is " + std::to_string(got) + " instead of " + std::to_string(want));
    };
    using namespace eosio;
    time_point p{microseconds(a * 1000000 + frac)};
    time_point_sec u{uint32_t(a)}, v{uint32_t(b)}, w;
    eq("tp sec_since_epoch", p.sec_since_epoch(), a);
    eq("tps(tp)", time_point_sec(p).utc_seconds, a);
    w = p;
    eq("tps=tp", w.utc_seconds, a);
    eq("tp(tps)", time_point(u).elapsed.count(), a * 1000000);
    eq("tps sec_since_epoch", u.sec_since_epoch(), a);
    eq("tps max", time_point_sec::maximum().utc_seconds, MAX_SEC);
    eq("tps min", time_point_sec::min().utc_seconds, 0);
    eq("tps default", time_point_sec().utc_seconds, 0);
    eq("tps-tps", (u - v).count(), (a - b) * 1000000);
    eq("tp-tps", (p - v).count(), a * 1000000 + frac - b * 1000000);
    int64_t d = int64_t(s.int_bits(60));
    eq("tps+us", (u + microseconds(d)).elapsed.count(), a * 1000000 + d);
    eq("tps-us", (u - microseconds(d)).elapsed.count(), a * 1000000 - d);
    if (a + b <= MAX_SEC) {
        w = u; eq("tps+=n", (w += uint32_t(b)).utc_seconds, a + b);
        w = u; eq("tps+=tps", (w += v).utc_seconds, a + b);
        w = u; eq("tps+=us", (w += microseconds(b * 1000000 + frac)).utc_seconds, a + b);
        eq("tps+n", (u + uint32_t(b)).utc_seconds, a + b);
    }
    if (a >= b) {
        w = u; eq("tps-=n", (w -= uint32_t(b)).utc_seconds, a - b);
        w = u; eq("tps-=tps", (w -= v).utc_seconds, a - b);
        w = u; eq("tps-=us", (w -= microseconds(b * 1000000 + frac)).utc_seconds, a - b);
        eq("tps-n", (u - uint32_t(b)).utc_seconds, a - b);
        w = u; eq("tps+=-us", (w += microseconds(-(b * 1000000 + frac))).utc_seconds, a - b);
    }
    bool o = (u == v) == (a == b) && (u != v) == (a != b) && (u < v) == (a < b) && (u > v) == (a > b) && (u <= v) == (a <= b) && (u >= v) == (a >= b);
    if (!o) c.fail("order of seconds", std::to_string(a) + " and " + std::to_string(b));
    // block time stamps
    uint32_t sl = uint32_t(s.uint_bits(32)), sm = s.flip() ? uint32_t(s.uint_bits(32)) : sl + uint32_t(s.range(-1, 1));
    block_timestamp bt(sl), bu(sm), bv;
    int64_t bus = (int64_t(sl) * 500 + EPOCH_MS) * 1000;
    eq("bt.to_time_point", bt.to_time_point().elapsed.count(), bus);
    eq("tp(bt)", time_point(bt).elapsed.count(), bus);
    int64_t off = int64_t(s.below(500000));
    eq("bt(tp)", block_timestamp(time_point(microseconds(bus + off))).slot, sl);
    bv = time_point(microseconds(bus + off));
    eq("bt=tp", bv.slot, sl);
    if (bus / 1000000 <= MAX_SEC) {
        time_point_sec ts{uint32_t(bus / 1000000)};
        eq("bt(tps)", block_timestamp(ts).slot, int64_t(sl) - (sl & 1));
    }
    bool threw = false;
    try { eq("next", bt.next().slot, int64_t(sl) + 1); } catch (std::exception&) { threw = true; }
    if (threw != (sl == UINT32_MAX)) c.fail("next overflow", std::to_string(sl));
    eq("bt min", block_timestamp::min().slot, 0);
    eq("bt default", block_timestamp().slot, 0);
    eq("bt interval", block_timestamp::block_interval_ms, 500);
    eq("bt epoch", block_timestamp::block_timestamp_epoch, EPOCH_MS);
    o = (bt == bu) == (sl == sm) && (bt != bu) == (sl != sm) && (bt < bu) == (sl < sm) && (bt > bu) == (sl > sm) && (bt <= bu) == (sl <= sm) && (bt >= bu) == (sl >= sm);
    if (!o) c.fail("order of block times", std::to_string(sl) + " and " + std::to_string(sm));
}

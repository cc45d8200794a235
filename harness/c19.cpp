// Asset arithmetic: histories of operations on a few assets against a wide-integer model.
#include "pbt.hpp"
#include "ref.hpp"
#include <eosio/asset.hpp>
#include <optional>
using namespace ref;

namespace {
constexpr int64_t MAXA = (int64_t(1) << 62) - 1;
struct M { int64_t a; int sym; int con; };  // model of one (extended) asset
const char* syms[] = {"EOS", "SYS", "EOS", "A"};
const uint8_t precs[] = {4, 4, 3, 0};
eosio::symbol sym(int i) { return eosio::symbol(std::string_view(syms[i]), precs[i]); }
bool in_range(i128 v) { return v >= -MAXA && v <= MAXA; }
int64_t gen_amount(pbt::Source& s) {
    switch (s.below(6)) {
    case 0: return s.range(-5, 5);
    case 1: { int64_t v = MAXA - int64_t(s.below(3)); return s.flip() ? v : -v; }
    case 2: { int64_t v = MAXA / 2 + s.range(-2, 2); return s.flip() ? v : -v; }
    case 3: { int64_t v = int64_t(s.uint_bits(62)) & MAXA; return s.flip() ? v : -v; }
    case 4: { int64_t v = 3037000499ll + s.range(-3, 3); return s.flip() ? v : -v; }  // sqrt of the limits
    default: return s.range(-1000000, 1000000);
    }
}
int64_t gen_factor(pbt::Source& s, int64_t a) {
    switch (s.below(6)) {
    case 0: return s.range(-4, 4);
    case 1: return int64_t(s.int_bits(64));
    case 2: return s.flip() ? INT64_MIN + int64_t(s.below(2)) : INT64_MAX - int64_t(s.below(2));
    case 3: { int64_t q = a ? MAXA / a : 0; q += s.range(-1, 1); return s.flip() ? q : -q; }  // product near the limit
    case 4: { i128 q = a ? ((i128(1) << 64) + s.range(-3, 3)) / a : 1; return int64_t(q); }    // product near 2^64
    default: return s.range(-1000, 1000);
    }
}
std::string show(int64_t a, int s) { return std::to_string(a) + " " + syms[s] + "/" + std::to_string(precs[s]); }
}  // namespace

PROP(history, 6) {
    auto& s = c.s;
    bool wild = s.chance(1, 5);  // also amounts outside the permitted range (as read from text or binary)
    const int N = 4;
    M m[N];
    eosio::asset v[N];
    eosio::extended_asset x[N];
    std::string log;
    auto set = [&](int i, int64_t a, int sy, int con) {
        m[i] = {a, sy, con};
        v[i].amount = a;
        v[i].symbol = sym(sy);
        x[i].quantity = v[i];
        x[i].contract = eosio::name(uint64_t(con));
    };
    for (int i = 0; i < N; ++i) {
        int64_t a = wild && s.flip() ? int64_t(s.int_bits(64)) : gen_amount(s);
        set(i, a, s.chance(1, 4) ? int(s.below(4)) : 0, s.chance(1, 4) ? 1 : 0);
        log += show(a, m[i].sym) + "@" + std::to_string(m[i].con) + "; ";
    }
    bool extended = s.flip();
    auto bad = [&](const std::string& tag, const std::string& what) { c.fail(tag, what + " | " + log); };
    auto same = [&](int i) {
        if (v[i].amount != m[i].a || !(v[i].symbol == sym(m[i].sym))) bad("operand changed", "asset " + std::to_string(i) + " is " + std::to_string(v[i].amount) + " instead of " + show(m[i].a, m[i].sym));
        if (x[i].quantity.amount != m[i].a || !(x[i].quantity.symbol == sym(m[i].sym)) || x[i].contract.value != uint64_t(m[i].con)) bad("operand changed", "extended asset " + std::to_string(i));
    };
    // what an operation may do: nullopt = must throw, value = must give it; loose = may also throw
    struct Want { bool can_value, can_throw; i128 v; };
    auto arith = [&](i128 r, bool operands_ok) {  // result must be in range
        if (operands_ok) return Want{in_range(r), !in_range(r), r};
        return Want{in_range(r), true, r};
    };
    int steps = 1 + int(s.below(12)), failures = 0, done = 0;
    for (int st = 0; st < steps; ++st) {
        int i = int(s.below(N)), j = int(s.below(N));
        int op = int(s.below(13));
        int64_t k = 0;
        bool okc = m[i].con == m[j].con || !extended, oks = m[i].sym == m[j].sym;
        bool ri = in_range(m[i].a), rj = in_range(m[j].a);
        Want w{};
        int64_t got = 0;
        bool threw = false, assign = false, has_sym = true;
        std::string text;
        auto run = [&](auto&& f) { try { f(); } catch (std::exception&) { threw = true; } };
        auto take = [&](const eosio::asset& r, int sy) { got = r.amount; if (!(r.symbol == sym(sy))) bad("symbol changed", text); };
        auto takex = [&](const eosio::extended_asset& r) { take(r.quantity, m[i].sym); if (r.contract.value != uint64_t(m[i].con)) bad("contract changed", text); };
        switch (op) {
        case 0: case 1:  // + and +=
            text = "[" + std::to_string(i) + "]" + (op ? "+=" : "+") + "[" + std::to_string(j) + "]";
            w = arith(i128(m[i].a) + m[j].a, ri && rj);
            if (!oks || !okc) w = {false, true, 0};
            assign = op == 1;
            if (extended) run([&] { if (op) { auto* p = &(x[i] += x[j]); if (p != &x[i]) bad("result of +=", text); takex(x[i]); } else takex(x[i] + x[j]); });
            else run([&] { if (op) { auto* p = &(v[i] += v[j]); if (p != &v[i]) bad("result of +=", text); take(v[i], m[i].sym); } else take(v[i] + v[j], m[i].sym); });
            break;
        case 2: case 3:
            text = "[" + std::to_string(i) + "]" + (op == 3 ? "-=" : "-") + "[" + std::to_string(j) + "]";
            w = arith(i128(m[i].a) - m[j].a, ri && rj);
            if (!oks || !okc) w = {false, true, 0};
            assign = op == 3;
            if (extended) run([&] { if (op == 3) { auto* p = &(x[i] -= x[j]); if (p != &x[i]) bad("result of -=", text); takex(x[i]); } else takex(x[i] - x[j]); });
            else run([&] { if (op == 3) { auto* p = &(v[i] -= v[j]); if (p != &v[i]) bad("result of -=", text); take(v[i], m[i].sym); } else take(v[i] - v[j], m[i].sym); });
            break;
        case 4: case 5: case 6:
            k = gen_factor(s, m[i].a);
            text = "[" + std::to_string(i) + "]" + (op == 6 ? "*=" : "*") + std::to_string(k);
            w = arith(i128(m[i].a) * k, ri);
            assign = op == 6;
            run([&] { if (op == 6) { auto& r = extended ? x[i].quantity : v[i]; auto* p = &(r *= k); if (p != &r) bad("result of *=", text); take(r, m[i].sym); } else take(op == 4 ? v[i] * k : k * v[i], m[i].sym); });
            break;
        case 7: case 8:
            k = s.chance(1, 6) ? 0 : s.flip() ? s.range(-3, 3) : gen_factor(s, m[i].a);
            text = "[" + std::to_string(i) + "]" + (op == 8 ? "/=" : "/") + std::to_string(k);
            if (!k) w = {false, true, 0};
            else {
                i128 r = i128(m[i].a) / k;
                bool fits = r >= INT64_MIN && r <= INT64_MAX;
                w = {fits, !ri || !fits, r};
            }
            assign = op == 8;
            run([&] { if (op == 8) { auto& r = extended ? x[i].quantity : v[i]; auto* p = &(r /= k); if (p != &r) bad("result of /=", text); take(r, m[i].sym); } else take(v[i] / k, m[i].sym); });
            break;
        case 9:
            text = "[" + std::to_string(i) + "]/[" + std::to_string(j) + "]";
            if (!m[j].a || !oks) w = {false, true, 0};
            else {
                i128 r = i128(m[i].a) / m[j].a;
                bool fits = r <= INT64_MAX;
                w = {fits, !fits || !ri || !rj, r};
            }
            has_sym = false;
            run([&] { got = v[i] / v[j]; });
            break;
        case 10: {
            text = "-[" + std::to_string(i) + "]";
            i128 r = -i128(m[i].a);
            w = {r <= INT64_MAX, !ri, r};
            if (extended) run([&] { try { takex(-x[i]); } catch (std::exception&) { if (ri) bad("negation failed", text); throw; } });
            else run([&] { take(-v[i], m[i].sym); });
            break;
        }
        case 11: {
            k = gen_amount(s) + (s.chance(1, 4) ? (s.flip() ? 2 : -2) * (s.flip() ? 1 : MAXA / 2) : 0);
            text = "[" + std::to_string(i) + "].set_amount(" + std::to_string(k) + ")";
            w = {in_range(k), !in_range(k), k};
            assign = true;
            run([&] { (extended ? x[i].quantity : v[i]).set_amount(k); got = (extended ? x[i].quantity : v[i]).amount; });
            break;
        }
        default: {  // comparisons
            text = "[" + std::to_string(i) + "]<=>[" + std::to_string(j) + "]";
            log += text + "; ";
            int64_t a = m[i].a, b = m[j].a;
            auto cmp = [&](const char* n, bool must_throw, bool want, auto&& f) {
                bool r = false, t = false;
                try { r = f(); } catch (std::exception&) { t = true; }
                if (t != must_throw) bad(std::string("comparison ") + n, t ? "throws" : "does not throw");
                if (!t && r != want) bad(std::string("comparison ") + n, "gives the wrong answer");
            };
            if (!extended) {
                cmp("==", !oks, a == b, [&] { return v[i] == v[j]; });
                cmp("!=", !oks, a != b, [&] { return v[i] != v[j]; });
                cmp("<", !oks, a < b, [&] { return v[i] < v[j]; });
                cmp("<=", !oks, a <= b, [&] { return v[i] <= v[j]; });
                cmp(">", !oks, a > b, [&] { return v[i] > v[j]; });
                cmp(">=", !oks, a >= b, [&] { return v[i] >= v[j]; });
            } else {
                bool sc = m[i].con == m[j].con;
                cmp("x==", !oks, a == b && sc, [&] { return x[i] == x[j]; });
                cmp("x!=", !oks, !(a == b && sc), [&] { return x[i] != x[j]; });
                cmp("x<", !oks || !sc, a < b, [&] { return x[i] < x[j]; });
                cmp("x<=", !oks || !sc, a <= b, [&] { return x[i] <= x[j]; });
                cmp("x>=", !oks || !sc, a >= b, [&] { return x[i] >= x[j]; });
            }
            for (int q = 0; q < N; ++q) same(q);
            ++done;
            continue;
        }
        }
        log += text + (threw ? " throws; " : " = " + std::to_string(got) + "; ");
        if (threw && !w.can_throw) bad("unexpected failure", text + " should be " + pbt::to_s(w.v));
        if (!threw && !w.can_value) bad("should have failed", text + " gives " + std::to_string(got));
        if (!threw && got != int64_t(w.v)) bad("wrong result", text + " gives " + std::to_string(got) + " instead of " + pbt::to_s(w.v));
        (void)has_sym;
        if (!threw && assign) set(i, int64_t(w.v), m[i].sym, m[i].con);
        if (threw) ++failures; else ++done;
        for (int q = 0; q < N; ++q) same(q);
    }
    c.note("history", [&] { return log; });
    c.key(log);
    if (done >= 2) c.nontrivial();
    if (failures) c.label("with failed operations");
    if (wild) c.label("amounts out of range");
    if (extended) c.label("extended");
}
PROP(order, 2) {  // total order on one symbol, consistent with construction
    auto& s = c.s;
    int64_t a[3];
    int sy = int(s.below(4));
    for (auto& v : a) v = gen_amount(s);
    if (s.flip()) a[1] = std::max(-MAXA, std::min(MAXA, a[0] + s.range(-1, 1)));
    c.note("amounts", [&] { return std::to_string(a[0]) + " " + std::to_string(a[1]) + " " + std::to_string(a[2]); });
    c.key(std::to_string(a[0]) + "," + std::to_string(a[1]) + "," + std::to_string(a[2]));
    if (a[0] != a[1]) c.nontrivial();
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            eosio::asset p(a[i], sym(sy)), q(a[j], sym(sy));
            bool o = (p == q) == (a[i] == a[j]) && (p != q) == (a[i] != a[j]) && (p < q) == (a[i] < a[j]) && (p > q) == (a[i] > a[j]) && (p <= q) == (a[i] <= a[j]) && (p >= q) == (a[i] >= a[j]);
            if (!o) c.fail("order", show(a[i], sy) + " and " + show(a[j], sy));
            if (in_range(i128(a[i]) + a[j]) && !((p + q) - q == p)) c.fail("add then subtract", show(a[i], sy));
            if (!(-(-p) == p)) c.fail("negate twice", show(a[i], sy));
        }
}

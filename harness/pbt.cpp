// Driver: random phase, coverage-guided phase (libFuzzer), shrinking, replay.
#include "pbt.hpp"
#include <algorithm>
#include <chrono>
#include <fcntl.h>
#include <fstream>
#include <malloc.h>
#include <map>
#include <new>
#include <sstream>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <csignal>
#include <unistd.h>
#include <unordered_set>

namespace pbt {
std::vector<Property>& registry() {
    static std::vector<Property> r;
    return r;
}

int attempts = 1;
static size_t g_cur = 0, g_peak = 0, g_limit = size_t(1) << 29;
static bool g_meter = false;
void mem_reset() { g_cur = 0; g_peak = 0; g_meter = true; }
size_t mem_live() { g_meter = false; return g_cur; }
size_t mem_peak() { g_meter = false; return g_peak; }
void mem_limit(size_t v) { g_limit = v; }
static int g_fill = -1;
void mem_fill(int byte) { g_fill = byte; }
static size_t g_fail_at = 0, g_allocs = 0, g_failures = 0;  // per process: harnesses that use them allocate in one thread
static bool g_fail_on = false, g_fail_all = false;
void mem_fail(size_t nth, bool all) { g_fail_at = nth; g_fail_all = all; g_allocs = g_failures = 0; g_fail_on = true; }
MemFailed mem_fail_end() { g_fail_on = false; return {g_allocs, g_failures}; }

std::string hexs(const void* p, size_t n) {
    static const char* d = "0123456789ABCDEF";
    std::string r;
    auto* b = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { r += d[b[i] >> 4]; r += d[b[i] & 15]; }
    return r;
}
std::string quote(std::string_view s) {
    std::string r = "'";
    char buf[8];
    for (unsigned char ch : s) {
        if (ch < 32 || ch >= 127) { snprintf(buf, sizeof buf, "\\x%02x", ch); r += buf; }
        else r += char(ch);
    }
    return r + "'";
}
std::string to_s(unsigned __int128 v) {
    if (!v) return "0";
    std::string r;
    while (v) { r += char('0' + int(v % 10)); v /= 10; }
    std::reverse(r.begin(), r.end());
    return r;
}
std::string to_s(__int128 v) {
    if (v < 0) return "-" + to_s(-(unsigned __int128)v);
    return to_s((unsigned __int128)v);
}
}  // namespace pbt

using namespace pbt;

#if defined(__has_feature)
#if __has_feature(thread_sanitizer)
#define PBT_OWN_NEW 0  // the runtime defines these itself
#endif
#endif
#ifndef PBT_OWN_NEW
#define PBT_OWN_NEW 1
#endif
#if PBT_OWN_NEW
static void* do_new(size_t n) {
    if (n > g_limit) { if (g_meter && n > g_peak) g_peak = n; throw std::bad_alloc(); }
    if (g_fail_on && ++g_allocs >= g_fail_at && g_fail_at && (g_fail_all || g_allocs == g_fail_at)) { ++g_failures; throw std::bad_alloc(); }
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    if (g_fill >= 0) memset(p, g_fill, n);
    if (g_meter) { g_cur += malloc_usable_size(p); if (g_cur > g_peak) g_peak = g_cur; }
    return p;
}
static void do_delete(void* p) {
    if (!p) return;
    if (g_meter) { size_t u = malloc_usable_size(p); g_cur = g_cur > u ? g_cur - u : 0; }
    free(p);
}
void* operator new(size_t n) { return do_new(n); }
void* operator new[](size_t n) { return do_new(n); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
#endif

namespace {
constexpr size_t CAP = 1 << 18;
struct Shared {  // mmapped: survives a crash of the worker
    uint32_t len;
    uint32_t running;
    uint8_t data[CAP];
};
Shared* g_shared = nullptr;

struct Stats {
    uint64_t evals = 0, discards = 0, nontriv = 0, fuzz_evals = 0;
    std::unordered_set<uint64_t> sigs;
    std::map<std::string, uint64_t> labels;
    std::map<std::string, std::vector<std::string>> samples;
    std::map<std::string, uint64_t> perprop;
} g_st;
std::string g_out;
std::string g_only;  // restrict to one named property

const Property& select(Source& s) {
    auto& r = registry();
    if (!g_only.empty())
        for (auto& p : r) if (g_only == p.name) { s.raw(2); return p; }
    unsigned tot = 0;
    for (auto& p : r) tot += p.weight;
    unsigned v = unsigned(s.raw(2)) % tot;
    for (auto& p : r) { if (v < p.weight) return p; v -= p.weight; }
    return r[0];
}

enum class Res { ok, discard, fail };
struct Outcome { Res res; Failure f; std::string prop; std::string desc; };

Outcome run_src(Source& s, bool desc, bool stats, const uint8_t* rec) {
    auto& p = select(s);
    Case c(s);
    c.want_desc = desc;
    try {
        try {
            p.fn(c);
        } catch (const std::exception& e) {
            throw Failure{"unexpected-exception", std::string("unexpected exception: ") + e.what()};
        }
    } catch (Failure& f) {
        return {Res::fail, f, p.name, c.desc};
    } catch (Discard&) {
        if (stats) { ++g_st.evals; ++g_st.discards; }
        return {Res::discard, {}, p.name, c.desc};
    }
    if (stats) {
        ++g_st.evals;
        ++g_st.perprop[p.name];
        for (auto l : c.labels) ++g_st.labels[l];
        if (c.nt) {
            uint64_t h = c.sig;
            if (!c.keyed && rec)
                for (size_t i = 0; i < std::min(s.used(), CAP); ++i) { h ^= rec[i]; h *= 1099511628211ull; }
            for (const char* q = p.name; *q; ++q) { h ^= (unsigned char)*q; h *= 1099511628211ull; }
            ++g_st.nontriv;
            if (g_st.sigs.size() < 3000000) g_st.sigs.insert(h);
        }
    }
    return {c.nt ? Res::ok : Res::ok, {}, p.name, c.nt ? c.desc : std::string()};
}
Outcome run_buf(const std::vector<uint8_t>& b, bool desc) {
    Source s(b.data(), b.size());
    return run_src(s, desc, false, nullptr);
}

std::string jstr(const std::string& s) {
    std::string r = "\"";
    char buf[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += char(ch); }
        else if (ch < 32 || ch >= 127) { snprintf(buf, sizeof buf, "\\u%04x", ch); r += buf; }
        else r += char(ch);
    }
    return r + "\"";
}

void write_stats() {
    if (g_out.empty()) return;
    std::ofstream o(g_out + ".tmp");
    o << "{\"evaluations\":" << g_st.evals << ",\"fuzz_evaluations\":" << g_st.fuzz_evals << ",\"discards\":" << g_st.discards
      << ",\"nontrivial\":" << g_st.nontriv << ",\"labels\":{";
    bool first = true;
    for (auto& [k, v] : g_st.labels) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
    o << "},\"perprop\":{";
    first = true;
    for (auto& [k, v] : g_st.perprop) { o << (first ? "" : ",") << jstr(k) << ":" << v; first = false; }
    o << "},\"samples\":[";
    first = true;
    for (auto& [k, v] : g_st.samples)
        for (auto& x : v) { o << (first ? "" : ",") << jstr(k + ": " + x); first = false; }
    o << "]}";
    o.close();
    rename((g_out + ".tmp").c_str(), g_out.c_str());
    std::ofstream h(g_out + ".sigs", std::ios::binary);
    for (uint64_t x : g_st.sigs) h.write((const char*)&x, 8);
}

void arm(int secs) {
    itimerval t{};
    t.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &t, nullptr);
}
volatile bool g_shrinking = false;
void save(const std::string& path, const std::vector<uint8_t>& b);

std::vector<uint8_t> shrink(std::vector<uint8_t> b, const Outcome& first, double budget) {
    auto t0 = std::chrono::steady_clock::now();
    auto left = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() < budget; };
    g_shrinking = true;
    pbt::attempts = 8;
    struct Off { ~Off() { arm(0); g_shrinking = false; pbt::attempts = 1; } } off;
    auto bad = [&](const std::vector<uint8_t>& x) {
        arm(10);  // a smaller case may hang or crash where this one fails
        auto o = run_buf(x, false);
        arm(0);
        bool r = o.res == Res::fail && o.prop == first.prop && o.f.tag == first.f.tag;
        if (r && !g_out.empty()) save(g_out + ".fail", x);
        return r;
    };
    // drop unused tail
    {
        Source s(b.data(), b.size());
        run_src(s, false, false, nullptr);
        if (s.used() < b.size()) { auto x = b; x.resize(s.used()); if (bad(x)) b = x; }
    }
    bool progress = true;
    while (progress && left()) {
        progress = false;
        for (size_t n = std::max<size_t>(b.size() / 2, 1); n >= 1 && left(); n /= 2)
            for (size_t i = 2; i + n <= b.size() && left();) {
                auto x = b;
                x.erase(x.begin() + i, x.begin() + i + n);
                if (bad(x)) { b = x; progress = true; } else i += n;
            }
        for (size_t n = 16; n >= 1 && left(); n /= 2)
            for (size_t i = 2; i + n <= b.size() && left(); i += n) {
                bool z = true;
                for (size_t j = i; j < i + n; ++j) z &= b[j] == 0;
                if (z) continue;
                auto x = b;
                std::fill(x.begin() + i, x.begin() + i + n, 0);
                if (bad(x)) { b = x; progress = true; }
            }
        for (size_t i = 2; i < b.size() && left(); ++i) {
            for (int step = 128; step >= 1; step /= 2)
                while (b[i] >= step && left()) {
                    auto x = b;
                    x[i] -= step;
                    if (bad(x)) { b = x; progress = true; } else break;
                }
        }
        while (!b.empty() && b.back() == 0 && left()) {
            auto x = b;
            x.pop_back();
            if (bad(x)) b = x; else break;
        }
    }
    return b;
}

void save(const std::string& path, const std::vector<uint8_t>& b) {
    std::ofstream o(path, std::ios::binary);
    o.write((const char*)b.data(), b.size());
}
std::vector<uint8_t> load(const std::string& path) {
    std::ifstream i(path, std::ios::binary);
    return std::vector<uint8_t>((std::istreambuf_iterator<char>(i)), {});
}

void on_prof(int) {
    if (g_shrinking) _exit(77);  // the best case so far is saved
    static const char m[] = "HANG: one case used more than its CPU allowance\n";
    (void)!write(2, m, sizeof m - 1);
    _exit(78);
}
}  // namespace

#ifdef PBT_LIBFUZZER
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));
#endif

static int g_hang = 30;

static int fuzz_one(const uint8_t* d, size_t n) {
    if (n < 2) return 0;
    if (n > CAP) n = CAP;
    if (g_shared) { g_shared->running = 1; g_shared->len = uint32_t(n); memcpy(g_shared->data, d, n); }
    arm(g_hang);
    Source s(d, n);
    auto o = run_src(s, false, true, d);
    arm(0);
    ++g_st.fuzz_evals;
    if (g_shared) g_shared->running = 0;
    if (o.res == Res::fail) {
        std::vector<uint8_t> b(d, d + n);
        save(g_out + ".fail", b);  // kept if shrinking runs into a crash
        save(g_out + ".fail", shrink(b, o, 20));
        write_stats();
        _exit(77);
    }
    return 0;
}

int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    std::vector<char*> rest{argv[0]};
    for (int i = 1; i < argc; ++i) {
        if (!strncmp(argv[i], "--", 2) && i + 1 < argc) { a[argv[i] + 2] = argv[i + 1]; ++i; }
        else rest.push_back(argv[i]);
    }
    signal(SIGPROF, on_prof);
    if (a.count("hang")) g_hang = atoi(a["hang"].c_str());
    if (a.count("only")) g_only = a["only"];
    if (a.count("cur")) {
        int fd = open(a["cur"].c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared))) return 90;
        g_shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    }
    if (a.count("list")) {
        for (auto& p : registry()) printf("%s\n", p.name);
        return 0;
    }
    if (a.count("replay")) {
        auto b = load(a["replay"]);
        pbt::attempts = 40;
        arm(g_hang);
        auto o = run_buf(b, true);
        printf("property: %s\ncase: %s\n", o.prop.c_str(), o.desc.c_str());
        if (o.res == Res::fail) {
            printf("FAIL [%s] %s\n", o.f.tag.c_str(), o.f.msg.c_str());
            return 77;
        }
        printf("PASS\n");
        return 0;
    }
    g_out = a["out"];
    if (a.count("fuzz")) {
#ifdef PBT_LIBFUZZER
        atexit(write_stats);
        int rc = int(rest.size());
        rest.push_back(nullptr);
        char** rv = rest.data();
        return LLVMFuzzerRunDriver(&rc, &rv, fuzz_one);
#else
        (void)fuzz_one;
        return 79;
#endif
    }
    uint64_t seed = strtoull(a["seed"].c_str(), nullptr, 10);
    uint64_t cases = strtoull(a["cases"].c_str(), nullptr, 10);
    uint64_t shard = strtoull(a["shard"].c_str(), nullptr, 10), shards = strtoull(a["shards"].c_str(), nullptr, 10);
    double tmax = a.count("time") ? atof(a["time"].c_str()) : 1e9;
    if (!shards) shards = 1;
    std::string corpus = a.count("corpus") ? a["corpus"] : "";
    auto t0 = std::chrono::steady_clock::now();
    static Shared local;
    if (!g_shared) g_shared = &local;
    uint64_t corp = 0;
    for (uint64_t i = shard; i < cases; i += shards) {
        if ((i / shards) % 64 == 0) {
            if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > tmax) break;
        }
        arm(g_hang);
        g_shared->len = 0;
        g_shared->running = 1;
        Source s(seed * 1000003ull + i, g_shared->data, CAP);
        s.reclen_ = &g_shared->len;
        auto o = run_src(s, false, true, g_shared->data);
        g_shared->running = 0;
        arm(0);
        std::vector<uint8_t> b;
        if (o.res == Res::fail) {
            b.assign(g_shared->data, g_shared->data + g_shared->len);
            save(g_out + ".fail", b);  // kept if shrinking runs into a crash
            auto sh = shrink(b, o, a.count("shrink") ? atof(a["shrink"].c_str()) : 20);
            save(g_out + ".fail", sh);
            write_stats();
            return 77;
        }
        if (o.res == Res::ok) {
            auto& sm = g_st.samples[o.prop];
            if (sm.size() < 2 && i / shards >= sm.size() * 20) {
                b.assign(g_shared->data, g_shared->data + g_shared->len);
                auto d = run_buf(b, true);
                if (!d.desc.empty()) sm.push_back(d.desc);
            }
            if (!corpus.empty() && corp < 150 && g_shared->len < 1500 && (i / shards) % 3 == 0) {
                b.assign(g_shared->data, g_shared->data + g_shared->len);
                save(corpus + "/s" + std::to_string(shard) + "_" + std::to_string(corp++), b);
            }
        }
    }
    write_stats();
    return 0;
}

// Threads with a context each, or with only constant data in common, under ThreadSanitizer: same results as alone, and no data race.
#include "hist.hpp"
#include "native_types.hpp"
#include "textfn.hpp"
#include <atomic>
#include <functional>
#include <memory>
#include <sys/mman.h>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace hist;

namespace {
struct Results { std::vector<std::string> r; };

Results play(const History& h, std::atomic<int>* gate, int threads) {
    Results res;
    if (gate) { ++*gate; while (gate->load() < threads) {} }
    abieos_context* c = abieos_create();
    for (auto& o : h) {
        for (int i = 0; i < o.spin; ++i) sched_yield();
        res.r.push_back(call(c, o));
    }
    abieos_destroy(c);
    return res;
}
// the threads first, so that nothing was set up by an earlier call; then each history alone
std::string together(const std::vector<History>& hs, int rounds) {
    std::vector<std::vector<Results>> got(rounds, std::vector<Results>(hs.size()));
    for (int k = 0; k < rounds; ++k) {
        std::atomic<int> gate{0};
        std::vector<std::thread> t;
        for (size_t i = 0; i < hs.size(); ++i) t.emplace_back([&, i] { got[k][i] = play(hs[i], &gate, int(hs.size())); });
        for (auto& x : t) x.join();
    }
    for (size_t i = 0; i < hs.size(); ++i) {
        Results want = play(hs[i], nullptr, 1);
        for (int k = 0; k < rounds; ++k)
            for (size_t o = 0; o < want.r.size(); ++o)
                if (got[k][i].r[o] != want.r[o])
                    return std::string("thread ") + std::to_string(i) + ", call " + std::to_string(o) + " " + kind_name[hs[i][o].kind] + ": " + pbt::quote(got[k][i].r[o]) + " instead of " + pbt::quote(want.r[o]);
    }
    return "";
}
int memfd(const char* n) { int fd = memfd_create(n, 0); if (fd < 0) { perror("memfd_create"); abort(); } return fd; }
std::string slurp(int fd) {
    std::string r(size_t(lseek(fd, 0, SEEK_END)), 0);
    for (size_t at = 0; at < r.size();) { ssize_t k = pread(fd, &r[at], r.size() - at, off_t(at)); if (k <= 0) break; at += size_t(k); }
    close(fd);
    return r;
}
// `f` in a process of its own gives "", or what differs
template <class F> void apart_once(pbt::Case& c, F&& f) {
    int out = memfd("out"), err = memfd("err");
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); abort(); }
    if (!p) {
        dup2(err, 2);
        dup2(err, 1);
        alarm(40);
        std::string m = f();
        if (write(out, m.data(), m.size()) < 0) _exit(3);
        _exit(m.empty() ? 0 : 1);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0) {}
    std::string msg = slurp(out), log = slurp(err);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 1) c.fail("results", msg);
    if (log.find("data race") != std::string::npos) c.fail("data-race", log.substr(0, 6000));
    c.fail("died", "status " + std::to_string(st) + ": " + log.substr(0, 6000));
}
template <class F> void apart(pbt::Case& c, F&& f) {
    for (int i = 0; i < pbt::attempts; ++i) apart_once(c, f);
}

// things done with constant data; the same job may be done by several threads at once
using Job = std::function<std::string()>;
std::string jobs_together(const std::vector<Job>& jobs, const std::vector<std::vector<int>>& lists, int rounds) {
    std::vector<std::vector<std::vector<std::string>>> got(rounds, std::vector<std::vector<std::string>>(lists.size()));
    for (int k = 0; k < rounds; ++k) {
        std::atomic<size_t> gate{0};
        std::vector<std::thread> t;
        for (size_t i = 0; i < lists.size(); ++i)
            t.emplace_back([&, i] {
                ++gate;
                while (gate.load() < lists.size()) {}
                for (int j : lists[i]) { if (j < 0) sched_yield(); else got[k][i].push_back(jobs[j]()); }
            });
        for (auto& x : t) x.join();
    }
    std::vector<std::string> want;
    for (auto& j : jobs) want.push_back(j());
    for (int k = 0; k < rounds; ++k)
        for (size_t i = 0; i < lists.size(); ++i) {
            size_t n = 0;
            for (int j : lists[i]) {
                if (j < 0) continue;
                auto& r = got[k][i][n++];
                if (r != want[j]) return "thread " + std::to_string(i) + ", job " + std::to_string(j) + ": " + pbt::quote(r) + " instead of " + pbt::quote(want[j]);
            }
        }
    return "";
}
void gen_lists(pbt::Case& c, size_t jobs, std::vector<std::vector<int>>& l) {
    auto& s = c.s;
    size_t threads = 2 + s.below(3);
    c.label(threads == 2 ? "2 threads" : threads == 3 ? "3 threads" : "4 threads");
    for (size_t t = 0; t < threads; ++t) {
        l.emplace_back();
        for (size_t n = 1 + s.below(6); n; --n) {
            if (s.chance(1, 4)) l.back().push_back(-1);
            l.back().push_back(int(s.below(jobs)));
        }
        if (t && s.flip()) l[t] = l[0];
    }
    c.note("jobs of each thread", [&] {
        std::string r;
        for (auto& x : l) { r += " ["; for (int j : x) r += " " + std::to_string(j); r += " ]"; }
        return r;
    });
}
template <class F> std::string outcome(F&& f) {
    try { return f(); } catch (std::exception& e) { return std::string("throws ") + e.what(); }
}
template <class T> Job value_job(pbt::Case& c, const char* name) {
    auto& s = c.s;
    nat::G g(s);
    g.json = true;
    T v{};
    nat::gen(g, v);
    Bytes w = nat::wire(v);
    c.key(w);
    size_t at = s.below(1000), cut = s.below(w.size() + 1);
    char with = ",.0-:Zz\"\\{}[]x"[s.below(15)];
    return [v, w, at, cut, with, name] {
        std::string r = name;
        std::string text = outcome([&] { return eosio::convert_to_json(v); });
        r += " " + text + " " + outcome([&] { return nat::str(eosio::convert_to_bin(v)); });
        std::string bad = text;
        if (bad.size()) bad[at % bad.size()] = with;
        for (auto* t : {&text, &bad}) {
            T x{};
            std::string e;
            bool ok = nat::read_json(x, *t, &e);
            r += ok ? " read " + pbt::hexs(nat::wire(x)) : " refused: " + e;
        }
        for (size_t n : {w.size(), cut}) {
            std::vector<char> b(w.begin(), w.begin() + n);
            b.shrink_to_fit();
            r += " " + outcome([&] {
                T x{};
                eosio::input_stream st(b.data(), b.size());
                from_bin(x, st);
                return pbt::hexs(nat::wire(x));
            });
        }
        return r;
    };
}
struct Entry { const char* name; Job (*fn)(pbt::Case&, const char*); };
#define ENTRY(...) {#__VA_ARGS__, value_job<__VA_ARGS__>},
using namespace nat;
const Entry table_[] = {ENTRY(double) ENTRY(float) ENTRY(nt::flo) ENTRY(eosio::asset) ENTRY(eosio::time_point) ENTRY(eosio::time_point_sec) ENTRY(eosio::block_timestamp) ENTRY(eosio::float128)
    ENTRY(eosio::name) ENTRY(eosio::symbol) ENTRY(eosio::extended_asset) ENTRY(int64_t) ENTRY(uint32_t) ENTRY(unsigned __int128) ENTRY(__int128) ENTRY(bool) ENTRY(eosio::public_key) ENTRY(eosio::private_key) ENTRY(eosio::signature)
    ENTRY(std::string) ENTRY(eosio::bytes) ENTRY(eosio::checksum256) ENTRY(nt::mixed) ENTRY(nt::chain) ENTRY(nt::money)};
}  // namespace

PROP(threads, 3) {
    auto& s = c.s;
    Pool pool = gen_pool(c);
    int threads = 2 + int(s.below(3));
    std::vector<History> hs;
    bool alike = s.flip();
    for (int t = 0; t < threads; ++t) {
        if (t && alike && s.chance(3, 4)) { hs.push_back(hs[0]); for (auto& o : hs.back()) o.spin = s.chance(1, 3) ? int(s.below(4)) : 0; continue; }
        hs.push_back(gen_history(s, pool));
    }
    size_t calls = 0;
    for (auto& h : hs) calls += h.size();
    c.nontrivial();
    c.label(threads == 2 ? "2 threads" : threads == 3 ? "3 threads" : "4 threads");
    if (alike) c.label("threads doing the same");
    auto text = [&] {
        std::string r;
        for (size_t i = 0; i < hs.size(); ++i) r += "\n  thread " + std::to_string(i) + ":" + hist::text(hs[i]);
        return r;
    };
    c.note("histories", text);
    c.key(std::to_string(calls));
    apart(c, [&] { return together(hs, 2); });
}

// types looked up beforehand, used by several threads
PROP(shared_types, 2) {
    auto& s = c.s;
    AbiModel m = gen_abi(s);
    AbiDoc doc = make_doc(m, s);
    c.nontrivial();
    struct Item { std::string type, json; Bytes wire; };
    std::vector<Item> items(1 + s.below(4));
    for (auto& x : items) {
        TR root = gen_root(m, s);
        GenVal g{m, s};
        g.budget = 15;
        Val v = g.gen(root, 0, true);
        encode(m, v, x.wire);
        x.type = m.text(root);
        JsonOpts jo;
        write_json(m, v, s, jo, x.json);
        if (s.chance(1, 8) && x.json.size()) x.json[s.below(x.json.size())] = char(33 + s.below(90));
        if (s.chance(1, 8)) x.wire.resize(s.below(x.wire.size() + 1));
        c.key(x.type + x.json);
    }
    std::vector<std::vector<int>> lists;
    gen_lists(c, items.size() * 3, lists);
    std::string def = doc_json(doc);
    c.note("values", [&] { std::string r; for (auto& x : items) r += "\n  " + x.type + " " + x.json; return r; });
    apart(c, [&]() -> std::string {
        eosio::abi_def d;
        eosio::abi a;
        std::vector<char> t(def.begin(), def.end());
        t.insert(t.end(), 3, 0);
        std::vector<const eosio::abi_type*> types;
        try {
            eosio::json_token_stream st(t.data());
            from_json(d, st);
            convert(d, a);
            for (auto& x : items) types.push_back(a.get_type(x.type));
        } catch (std::exception& e) { return std::string("the ABI is refused: ") + e.what(); }
        std::vector<Job> jobs;
        for (size_t i = 0; i < items.size(); ++i) {
            const auto* ty = types[i];
            const auto& x = items[i];
            jobs.push_back([ty, &x] { return outcome([&] { auto b = ty->json_to_bin(x.json); return pbt::hexs(b.data(), b.size()); }); });
            jobs.push_back([ty, &x] { return outcome([&] { auto b = ty->json_to_bin_reorderable(x.json); return pbt::hexs(b.data(), b.size()); }); });
            jobs.push_back([ty, &x] { return outcome([&] { eosio::input_stream st(x.wire.data(), x.wire.size()); auto r = ty->bin_to_json(st); return r + " and " + std::to_string(st.remaining()) + " left"; }); });
        }
        return jobs_together(jobs, lists, 2);
    });
}
// values and texts used by several threads through the functions without a context
PROP(values, 2) {
    auto& s = c.s;
    std::vector<Job> jobs;
    std::vector<std::string> names;
    for (size_t n = 1 + s.below(5); n; --n) {
        if (s.chance(1, 3)) {
            int kind;
            std::string t = gen_foreign_text(s, kind);
            c.key(t);
            names.push_back(pbt::quote(t));
            jobs.push_back([t] { std::string r; for (auto& x : text_functions(t, 0)) r += x + "|"; return r; });
        } else {
            auto& e = table_[s.below(std::size(table_))];
            c.label(e.name);
            names.push_back(e.name);
            jobs.push_back(e.fn(c, e.name));
        }
    }
    c.nontrivial();
    std::vector<std::vector<int>> lists;
    gen_lists(c, jobs.size(), lists);
    c.note("jobs", [&] { std::string r; for (auto& x : names) r += " " + x; return r; });
    apart(c, [&] { return jobs_together(jobs, lists, 2); });
}

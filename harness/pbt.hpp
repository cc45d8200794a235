// Small property-based testing kernel: a property is a pure function of a choice sequence (bytes).
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace pbt {

// How often a check whose outcome depends on the schedule should run a case: 1 while searching, more
// while shrinking and replaying a case that has failed.
extern int attempts;

// Thrown (as a non-std type, so the code under test cannot swallow it) when an oracle disagrees.
struct Failure {
    std::string tag;  // short stable class of the failure (kept the same while shrinking)
    std::string msg;
};
struct Discard {};  // case outside the domain

// Choice source: records what it hands out, or replays a buffer (zeros past its end).
class Source {
  public:
    Source(const uint8_t* data, size_t size) : data_(data), size_(size) {}
    explicit Source(uint64_t seed, uint8_t* rec, size_t cap) : rng_(true), rec_(rec), cap_(cap) {
        for (auto& w : st_) {
            seed += 0x9e3779b97f4a7c15ull;
            uint64_t z = seed;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            w = z ^ (z >> 31);
        }
    }
    uint8_t byte() {
        if (!rng_) {
            uint8_t v = pos_ < size_ ? data_[pos_] : 0;
            ++pos_;
            return v;
        }
        if (pos_ >= cap_) { ++pos_; return 0; }
        if (!avail_) { word_ = next(); avail_ = 8; }
        uint8_t v = uint8_t(word_);
        word_ >>= 8;
        --avail_;
        rec_[pos_++] = v;
        if (reclen_) *reclen_ = uint32_t(pos_);
        return v;
    }
    bool exhausted() const { return rng_ ? pos_ >= cap_ : pos_ >= size_; }
    size_t used() const { return pos_; }
    uint32_t* reclen_ = nullptr;

    uint64_t raw(int bytes) {
        uint64_t v = 0;
        for (int i = 0; i < bytes; ++i) v |= uint64_t(byte()) << (8 * i);
        return v;
    }
    uint64_t u64() { return raw(8); }
    // uniform-ish in [0,n); 0 is the simplest
    uint64_t below(uint64_t n) {
        if (n <= 1) return 0;
        if (n <= 256) return n == 256 ? byte() : (n <= 64 ? byte() % n : raw(2) % n);
        if (n <= 65536) return raw(3) % n;
        if (n <= (1ull << 32)) return raw(5) % n;
        return u64() % n;
    }
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi) - uint64_t(lo) + 1)); }
    bool flip() { return byte() & 1; }
    bool chance(unsigned num, unsigned den) {  // false is the simplest
        return (den <= 64 ? byte() % den : raw(2) % den) >= den - num;
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T, size_t N> const T& pick(const T (&v)[N]) { return v[below(N)]; }

    // boundary-rich unsigned value of `bits` bits
    unsigned __int128 uint_bits(int bits) {
        unsigned __int128 mask = bits >= 128 ? ~(unsigned __int128)0 : (((unsigned __int128)1 << bits) - 1);
        unsigned __int128 v = 0;
        switch (below(6)) {
        case 0: v = below(4); break;
        case 1: v = byte(); break;
        case 2: {  // 2^k +- small
            int k = int(below(bits + 1));
            v = k >= 128 ? 0 : ((unsigned __int128)1 << k);
            int64_t d = range(-2, 2);
            v += (unsigned __int128)(__int128)d;
            break;
        }
        case 3: v = mask - below(4); break;
        case 4: {  // random width
            int w = 1 + int(below(bits));
            v = ((unsigned __int128)u64() << 64) | u64();
            v &= w >= 128 ? ~(unsigned __int128)0 : (((unsigned __int128)1 << w) - 1);
            break;
        }
        default: v = bits <= 64 ? (unsigned __int128)raw((bits + 7) / 8) : (((unsigned __int128)u64() << 64) | u64());
        }
        return v & mask;
    }
    // boundary-rich signed value of `bits` bits
    __int128 int_bits(int bits) {
        unsigned __int128 v = uint_bits(bits);
        if (chance(1, 3)) v = -v;
        if (bits < 128) {
            unsigned __int128 mask = ((unsigned __int128)1 << bits) - 1;
            v &= mask;
            if (v >> (bits - 1)) v |= ~mask;
        }
        return (__int128)v;
    }
    // biased size in [0,max]; the interesting multi-byte length boundaries are reachable
    size_t size(size_t max) {
        size_t r;
        switch (below(16)) {
        default: r = below(4); break;
        case 8: case 9: case 10: case 11: r = below(9); break;
        case 12: case 13: r = below(33); break;
        case 14: r = 120 + below(16); break;
        case 15: r = below(300); break;
        }
        return r > max ? max : r;
    }

  private:
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(st_[1] * 5, 7) * 9, t = st_[1] << 17;
        st_[2] ^= st_[0]; st_[3] ^= st_[1]; st_[1] ^= st_[2]; st_[0] ^= st_[3];
        st_[2] ^= t; st_[3] = rotl(st_[3], 45);
        return r;
    }
    const uint8_t* data_ = nullptr;
    size_t size_ = 0;
    bool rng_ = false;
    uint8_t* rec_ = nullptr;
    size_t cap_ = 0;
    size_t pos_ = 0;
    uint64_t st_[4]{};
    uint64_t word_ = 0;
    int avail_ = 0;
};

class Case {
  public:
    explicit Case(Source& s) : s(s) {}
    Source& s;
    bool want_desc = false;
    std::string desc;
    bool nt = false;
    uint64_t sig = 1469598103934665603ull;
    bool keyed = false;
    std::vector<const char*> labels;

    void nontrivial() { nt = true; }
    void label(const char* l) { labels.push_back(l); }
    void key(std::string_view v) {
        keyed = true;
        for (unsigned char ch : v) { sig ^= ch; sig *= 1099511628211ull; }
        sig ^= 0xff; sig *= 1099511628211ull;
    }
    // written-out description of the case (only evaluated for samples and replays)
    template <class F> void note(const char* name, F&& f) {
        if (!want_desc) return;
        std::string v = f();
        if (v.size() > 1500) v = v.substr(0, 1500) + "...(" + std::to_string(v.size()) + " bytes)";
        desc += std::string(name) + "=" + v + "; ";
    }
    [[noreturn]] void fail(const std::string& tag, const std::string& msg) { throw Failure{tag, msg}; }
    void require(bool ok, const char* tag, const char* msg) {
        if (!ok) fail(tag, msg);
    }
    template <class F> void require(bool ok, const char* tag, F&& f) {
        if (!ok) fail(tag, f());
    }
};

struct Property {
    const char* name;
    unsigned weight;
    void (*fn)(Case&);
};
std::vector<Property>& registry();
struct Registrar {
    Registrar(const char* n, unsigned w, void (*f)(Case&)) { registry().push_back({n, w, f}); }
};
// Properties of a binary; the first choice selects one, by weight.
#define PROP_(NAME, WEIGHT) PROP(NAME, WEIGHT)  // expands macros in NAME
#define PROP(NAME, WEIGHT)                                                                                             \
    static void prop_##NAME(pbt::Case& c);                                                                             \
    static pbt::Registrar reg_##NAME(#NAME, WEIGHT, prop_##NAME);                                                      \
    static void prop_##NAME(pbt::Case& c)

// Allocation meter (all operator new/delete and the tracked peak since reset)
void mem_reset();
size_t mem_peak();
size_t mem_live();  // what of the memory allocated since mem_reset is not freed
void mem_limit(size_t largest_single);  // operator new throws bad_alloc above it
void mem_fill(int byte);                // what operator new fills new memory with; -1 nothing
struct MemFailed { size_t allocations, failures; };
void mem_fail(size_t nth, bool all);  // from now on the nth operator new throws (0: none), and with `all` those after it too
MemFailed mem_fail_end();             // no more failures; how many allocations there were and failed

std::string hexs(const void* p, size_t n);
inline std::string hexs(std::string_view s) { return hexs(s.data(), s.size()); }
inline std::string hexs(const std::vector<char>& s) { return hexs(s.data(), s.size()); }
std::string quote(std::string_view s);  // printable, escaped
std::string to_s(__int128 v);
std::string to_s(unsigned __int128 v);

}  // namespace pbt

// One build of the library, seen from outside.
#include "c36.hpp"
#include "histcall.hpp"
#include "native_types.hpp"
#include "textfn.hpp"

namespace {
using Put = void (*)(void*, const char*, size_t);
void call(void** ctx, int kind, uint64_t n, const char* type, size_t type_size, const char* arg, size_t arg_size, Put put, void* to) {
    auto* c = static_cast<abieos_context*>(*ctx);
    if (!c) c = abieos_create();
    std::string r = hist::call(c, hist::Op{kind, n, std::string(type, type_size), std::string(arg, arg_size), 0});
    put(to, r.data(), r.size());
    *ctx = c;
}
void drop(void* c) { abieos_destroy(static_cast<abieos_context*>(c)); }
void text(const char* t, size_t n, Put put, void* to) {
    for (auto& r : text_functions(std::string(t, n), 0)) put(to, r.data(), r.size());
}
template <class T> constexpr bool keyed = !std::is_same_v<T, eosio::varint32> && !std::is_same_v<T, nt::chain>;
template <class T> void native_(int json, const char* in, size_t n, Put put, void* to) {
    T v{};
    auto say = [&](const std::string& s) { put(to, s.data(), s.size()); };
    try {
        if (json) {
            std::string e;
            if (!nat::read_json(v, std::string(in, n), &e)) { say("refused: " + e); return; }
        } else {
            std::vector<char> b(in, in + n);
            eosio::input_stream st(b);
            from_bin(v, st);
            say(std::to_string(st.remaining()) + " left");
        }
        say(nat::str(eosio::convert_to_bin(v)));
        say(eosio::convert_to_json(v));
        say(eosio::format_json(v));
    } catch (std::exception& e) { say(std::string("throws ") + e.what()); }
}
void native(int type, int json, const char* in, size_t n, Put put, void* to) {
    using namespace nat;
#define ENTRY(...) &native_<__VA_ARGS__>,
    static void (*const fn[])(int, const char*, size_t, Put, void*) = {C36_TYPES(ENTRY)};
    fn[type](json, in, n, put, to);
}
template <class T> void binary_(const char* in, size_t n, Put put, void* to) {
    auto say = [&](const std::string& s) { put(to, s.data(), s.size()); };
    try {
        std::vector<char> b(in, in + n);
        eosio::input_stream st(b);
        T v{};
        using eosio::from_bin;
        from_bin(v, st);
        say(std::to_string(st.remaining()) + " left");
        say(nat::str(eosio::convert_to_bin(v)));
        // a key has the order of its type, and plain char (private_key) is ordered by its signedness; C arrays have none
        if constexpr (!std::is_same_v<T, nt::carr> && !std::is_same_v<T, nt::money>) say(nat::str(eosio::convert_to_key(v)));
        eosio::input_stream again(b);
        T w = eosio::from_bin<T>(again);
        say(nat::str(eosio::convert_to_bin(w)));
    } catch (std::exception& e) { say(std::string("throws ") + e.what()); }
}
void binary(int type, const char* in, size_t n, Put put, void* to) {
    using namespace nat;
#define BIN_ENTRY(...) &binary_<__VA_ARGS__>,
    static void (*const fn[])(const char*, size_t, Put, void*) = {C36_BIN_TYPES(BIN_ENTRY)};
    fn[type](in, n, put, to);
}
int char_is_signed() { return char(-1) < 0; }
}  // namespace
extern "C" __attribute__((visibility("default"))) const Probe verif_probe;
extern "C" const Probe verif_probe = {call, drop, text, native, binary, char_is_signed};

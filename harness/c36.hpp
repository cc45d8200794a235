// The interface of one build of the library (c36_probe.cpp), and what the check calls through it.
#pragma once
#include <cstddef>
#include <cstdint>
struct Probe {
    void (*call)(void** ctx, int kind, uint64_t n, const char* type, size_t type_size, const char* arg, size_t arg_size, void (*put)(void*, const char*, size_t), void* to);
    void (*drop)(void* ctx);
    void (*text)(const char* t, size_t n, void (*put)(void*, const char*, size_t), void* to);
    void (*native)(int type, int json, const char* in, size_t n, void (*put)(void*, const char*, size_t), void* to);
    void (*binary)(int type, const char* in, size_t n, void (*put)(void*, const char*, size_t), void* to);
    int (*char_is_signed)();
};
#define C36_TYPES(X)                                                                                                   \
    X(bool) X(int8_t) X(uint64_t) X(__int128) X(double) X(float) X(std::string) X(eosio::bytes) X(eosio::varint32) X(eosio::name) X(eosio::asset) X(eosio::symbol) X(eosio::time_point) X(eosio::block_timestamp) \
    X(eosio::public_key) X(eosio::signature) X(eosio::checksum256) X(nt::mixed) X(nt::tree) X(nt::derived) X(nt::chain) X(nat::variant1) X(std::vector<std::optional<nt::base1>>)
// read from and written to bytes and keys only
#define C36_BIN_TYPES(X)                                                                                               \
    X(pair1) X(pair2) X(tuple1) X(tuple2) X(array1) X(array2) X(array3) X(variant2) X(nt::cont) X(nt::carr) X(std::map<std::string C36_COMMA pair1>) X(std::list<pair2>) X(std::set<int16_t>) X(std::deque<std::string>) X(nt::money) X(eosio::float128)
#define C36_COMMA ,

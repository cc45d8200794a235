// The family of native types the native checks range over.
#pragma once
#include "native.hpp"

namespace nt {
enum class e8 : uint8_t { a, b };
enum class ei8 : int8_t { a };
enum class e16 : int16_t { a, b };
enum class e64 : uint64_t { a, b };
struct ints {
    int8_t a{}; uint8_t b{}; int16_t c{}; uint16_t d{}; int32_t e{}; uint32_t f{}; int64_t g{}; uint64_t h{}; __int128 i{}; unsigned __int128 j{};
};
EOSIO_REFLECT(ints, a, b, c, d, e, f, g, h, i, j);
EOSIO_COMPARE(ints);
struct flo { float a{}; double b{}; bool c{}; };
EOSIO_REFLECT(flo, a, b, c);
EOSIO_COMPARE(flo);
struct leaf { uint8_t x{}; };
EOSIO_REFLECT(leaf, x);
EOSIO_COMPARE(leaf);
struct base1 { std::string s; uint8_t u{}; };
EOSIO_REFLECT(base1, s, u);
EOSIO_COMPARE(base1);
struct base2 { eosio::name n; };
EOSIO_REFLECT(base2, n);
EOSIO_COMPARE(base2);
struct derived : base1 { std::vector<base1> v; std::optional<std::string> o; };
EOSIO_REFLECT(derived, base base1, v, o);
EOSIO_COMPARE(derived);
struct deep : derived { int32_t z{}; std::variant<uint8_t, std::string, base2> q; };
EOSIO_REFLECT(deep, base derived, z, q);
EOSIO_COMPARE(deep);
// the base need not come first
struct mixed : base1, base2 { int16_t m{}; uint64_t k{}; };
EOSIO_REFLECT(mixed, m, base base1, k, base base2);
EOSIO_COMPARE(mixed);
struct only_base : base2 {};
EOSIO_REFLECT(only_base, base base2);
EOSIO_COMPARE(only_base);
struct chain {
    eosio::name n; eosio::symbol sy; eosio::symbol_code sc; eosio::time_point tp; eosio::time_point_sec ts; eosio::block_timestamp bt;
    eosio::checksum160 c1; eosio::checksum256 c2; eosio::checksum512 c3; eosio::public_key pk; eosio::signature sg; eosio::bytes by; eosio::varuint32 vu;
};
EOSIO_REFLECT(chain, n, sy, sc, tp, ts, bt, c1, c2, c3, pk, sg, by, vu);
struct money { eosio::asset a; eosio::extended_asset ea; eosio::extended_symbol es; eosio::private_key pv; eosio::float128 f; };
EOSIO_REFLECT(money, a, ea, es, pv, f);
struct tree { int32_t v{}; std::vector<tree> kids; };
EOSIO_REFLECT(tree, v, kids);
EOSIO_COMPARE(tree);
struct node { std::string s; std::vector<std::variant<uint16_t, node>> c; std::optional<uint8_t> e; };
EOSIO_REFLECT(node, s, c, e);
struct many {
    uint8_t a0{}, a1{}; std::string a2; uint32_t a3{}; bool a4{}; std::optional<int8_t> a5; std::vector<uint16_t> a6; eosio::name a7; double a8{}; int64_t a9{};
    uint8_t b0{}, b1{}; std::string b2; uint32_t b3{}; bool b4{}; std::optional<int8_t> b5; std::vector<int16_t> b6; eosio::name b7; float b8{}; uint64_t b9{};
};
EOSIO_REFLECT(many, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9);
EOSIO_COMPARE(many);
struct optv { std::optional<std::vector<std::string>> a; std::vector<std::optional<uint32_t>> b; std::variant<std::vector<uint8_t>, std::optional<uint16_t>, bool> c; std::vector<std::vector<int8_t>> d; };
EOSIO_REFLECT(optv, a, b, c, d);
EOSIO_COMPARE(optv);
struct carr { uint32_t a[3]{}; std::string b[2]; uint8_t c[1]{}; leaf d[2]; };
EOSIO_REFLECT(carr, a, b, c, d);
struct cont { std::list<uint8_t> a; std::deque<std::string> b; std::set<int16_t> c; std::map<uint8_t, std::string> d; std::tuple<uint8_t, std::string, bool> e; std::pair<int8_t, double> f; std::array<uint16_t, 3> g{}; e8 h{}; e16 i{}; };
EOSIO_REFLECT(cont, a, b, c, d, e, f, g, h, i);
EOSIO_COMPARE(cont);
struct signed_var { eosio::varint32 v; eosio::varuint32 u; };
EOSIO_REFLECT(signed_var, v, u);
}  // namespace nt

namespace nat {
using namespace nt;
TNAME(nt::ints, "ints") TNAME(nt::flo, "flo") TNAME(nt::leaf, "leaf") TNAME(nt::base1, "base1") TNAME(nt::base2, "base2") TNAME(nt::derived, "derived") TNAME(nt::deep, "deep") TNAME(nt::mixed, "mixed")
TNAME(nt::only_base, "only_base") TNAME(nt::chain, "chain") TNAME(nt::money, "money") TNAME(nt::tree, "tree") TNAME(nt::node, "node") TNAME(nt::many, "many") TNAME(nt::optv, "optv") TNAME(nt::signed_var, "signed_var")
DESC(nt::ints, a, b, c, d, e, f, g, h, i, j)
DESC(nt::flo, a, b, c)
DESC(nt::leaf, x)
DESC(nt::base1, s, u)
DESC(nt::base2, n)
DESC(nt::derived, s, u, v, o)
DESC(nt::deep, s, u, v, o, z, q)
DESC(nt::mixed, m, s, u, k, n)
DESC(nt::only_base, n)
DESC(nt::chain, n, sy, sc, tp, ts, bt, c1, c2, c3, pk, sg, by, vu)
DESC(nt::money, a, ea, es, pv, f)
DESC(nt::tree, v, kids)
DESC(nt::node, s, c, e)
DESC(nt::many, a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, b0, b1, b2, b3, b4, b5, b6, b7, b8, b9)
DESC(nt::optv, a, b, c, d)
DESC(nt::carr, a, b, c, d)
DESC(nt::cont, a, b, c, d, e, f, g, h, i)
DESC(nt::signed_var, v, u)
DESC(eosio::extended_asset, quantity, contract)
DESC(eosio::extended_symbol, sym, contract)
DESC(eosio::microseconds, _count)

// every type with a binary form
// (in six shards, so that they compile in parallel)
#define BIN_TYPES_0(X) X(bool) X(int32_t) X(float) X(eosio::bytes) X(eosio::asset) X(eosio::block_timestamp) X(eosio::private_key) X(nt::derived) X(nt::tree) X(nt::signed_var) X(std::vector<nt::e16>) X(std::vector<std::optional<nt::base1>>) X(std::set<uint8_t>) X(std::map<uint8_t, std::map<std::string, std::optional<bool>>>) X(nat::variant1) X(nat::pair1)
#define BIN_TYPES_1(X) X(int8_t) X(uint32_t) X(double) X(eosio::varuint32) X(eosio::extended_asset) X(eosio::checksum160) X(eosio::signature) X(nt::deep) X(nt::node) X(std::vector<uint8_t>) X(std::vector<std::string>) X(std::list<uint32_t>) X(std::set<std::string>) X(std::optional<uint8_t>) X(nat::variant2) X(nat::pair2)
#define BIN_TYPES_2(X) X(uint8_t) X(int64_t) X(nt::e8) X(eosio::varint32) X(eosio::extended_symbol) X(eosio::checksum256) X(nt::ints) X(nt::mixed) X(nt::many) X(std::vector<char>) X(std::vector<nt::ints>) X(std::list<nt::derived>) X(std::set<int64_t>) X(std::optional<std::string>) X(nat::variant130) X(nat::array1)
#define BIN_TYPES_3(X) X(char) X(uint64_t) X(nt::e16) X(eosio::name) X(eosio::microseconds) X(eosio::checksum512) X(nt::flo) X(nt::only_base) X(nt::optv) X(std::vector<int32_t>) X(std::vector<eosio::name>) X(std::deque<bool>) X(std::set<std::vector<int8_t>>) X(std::optional<nt::deep>) X(nat::tuple1) X(nat::array2)
#define BIN_TYPES_4(X) X(int16_t) X(__int128) X(nt::e64) X(eosio::symbol) X(eosio::time_point) X(eosio::float128) X(nt::leaf) X(nt::chain) X(nt::carr) X(std::vector<double>) X(std::vector<std::vector<uint16_t>>) X(std::deque<std::string>) X(std::map<std::string, uint32_t>) X(std::optional<std::optional<uint16_t>>) X(nat::tuple2) X(nat::array3)
#define BIN_TYPES_5(X) X(uint16_t) X(unsigned __int128) X(std::string) X(eosio::symbol_code) X(eosio::time_point_sec) X(eosio::public_key) X(nt::base1) X(nt::money) X(nt::cont) X(std::vector<__int128>) X(std::vector<std::vector<std::string>>) X(std::deque<nt::leaf>) X(std::map<int16_t, nt::base1>) X(std::optional<std::vector<bool_t>>) X(nat::tuple0)
using bool_t = uint8_t;
template <class T, size_t... I> auto repeat_(std::index_sequence<I...>) -> std::variant<std::enable_if_t<(I + 1 > 0), T>...>;
using variant130 = decltype(repeat_<uint8_t>(std::make_index_sequence<130>()));
using variant1 = std::variant<uint8_t, std::string, std::vector<uint32_t>, bool>;
using variant2 = std::variant<nt::base1, nt::derived, std::optional<int8_t>, std::map<uint8_t, uint8_t>, variant1>;
using tuple1 = std::tuple<int32_t, std::string, std::optional<uint8_t>>;
using tuple2 = std::tuple<nt::leaf, std::vector<std::string>, std::tuple<bool, double>>;
using tuple0 = std::tuple<>;
using pair1 = std::pair<std::string, int8_t>;
using pair2 = std::pair<std::optional<uint16_t>, std::vector<nt::leaf>>;
using array1 = std::array<uint8_t, 5>;
using array2 = std::array<std::string, 3>;
using array3 = std::array<std::optional<nt::leaf>, 2>;
}  // namespace nat

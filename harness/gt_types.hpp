// Native reflected types for which an ABI can be generated.
#pragma once
#include "native.hpp"

// A reflected struct whose name is usable in the names of containers of it.
#define REFLECT_NAMED(S, ...)                                                                                          \
    constexpr const char* get_type_name(S*) { return #S; }                                                             \
    template <typename F> constexpr void eosio_for_each_field(S*, F f) { EOSIO_MAP_REUSE_ARG0(EOSIO_REFLECT_INTERNAL, S, __VA_ARGS__) }
// (in namespace eosio, so that names of nested containers compile as well)
namespace eosio {
struct gt_ints { int8_t a{}; uint8_t b{}; int16_t c{}; uint16_t d{}; int32_t e{}; uint32_t f{}; int64_t g{}; uint64_t h{}; __int128 i{}; unsigned __int128 j{}; bool k{}; float l{}; double m{}; std::string n; };
EOSIO_REFLECT(gt_ints, a, b, c, d, e, f, g, h, i, j, k, l, m, n)
struct gt_chain {
    name n; symbol sy; symbol_code sc; time_point tp; time_point_sec ts; block_timestamp bt; varuint32 vu; varint32 vi; asset as; extended_asset ea; extended_symbol es; microseconds us;
};
EOSIO_REFLECT(gt_chain, n, sy, sc, tp, ts, bt, vu, vi, as, ea, es, us)
struct gt_leaf { uint8_t x{}; std::string y; };
REFLECT_NAMED(gt_leaf, x, y)
struct gt_vecs { std::vector<uint8_t> a; std::vector<std::string> b; std::vector<gt_leaf> c; std::optional<int64_t> d; std::optional<gt_leaf> e; std::variant<uint16_t, std::string, gt_leaf> f; };
REFLECT_NAMED(gt_vecs, a, b, c, d, e, f)
struct gt_base { name who; std::vector<gt_leaf> ls; };
REFLECT_NAMED(gt_base, who, ls)
struct gt_derived : gt_base { std::optional<gt_vecs> ov; int32_t z{}; };
REFLECT_NAMED(gt_derived, base gt_base, ov, z)
struct gt_mixed : gt_base { uint16_t m{}; gt_leaf k; };
REFLECT_NAMED(gt_mixed, m, base gt_base, k)
struct gt_tree { int16_t v{}; std::vector<gt_tree> kids; };
REFLECT_NAMED(gt_tree, v, kids)
struct gt_node { std::string s; std::vector<std::variant<uint16_t, gt_leaf, gt_node>> c; std::variant<std::vector<gt_node>, std::optional<uint8_t>, bool> q; };
REFLECT_NAMED(gt_node, s, c, q)
struct gt_outer { gt_ints i; gt_chain c; gt_derived d; std::vector<gt_mixed> m; std::variant<gt_tree, gt_node, gt_leaf> v; std::optional<std::variant<bool, gt_vecs>> o; };
EOSIO_REFLECT(gt_outer, i, c, d, m, v, o)
// the same with trailing members that old data lacks
struct gt_short { uint32_t a{}; std::vector<gt_leaf> b; };
REFLECT_NAMED(gt_short, a, b)
struct gt_plain { uint32_t a{}; std::vector<gt_leaf> b; gt_leaf c; std::vector<uint16_t> d; };
REFLECT_NAMED(gt_plain, a, b, c, d)
struct gt_ext { uint32_t a{}; std::vector<gt_leaf> b; might_not_exist<gt_leaf> c; might_not_exist<std::vector<uint16_t>> d; };
REFLECT_NAMED(gt_ext, a, b, c, d)
struct gt_mid { uint32_t a{}; std::vector<gt_leaf> b; gt_leaf c; };
REFLECT_NAMED(gt_mid, a, b, c)
}  // namespace eosio
namespace nat {
using namespace eosio;
#define TD(S, ...) TNAME(eosio::S, #S) DESC(eosio::S, __VA_ARGS__)
TD(gt_ints, a, b, c, d, e, f, g, h, i, j, k, l, m, n)
TD(gt_chain, n, sy, sc, tp, ts, bt, vu, vi, as, ea, es, us)
TD(gt_leaf, x, y)
TD(gt_vecs, a, b, c, d, e, f)
TD(gt_base, who, ls)
TD(gt_derived, who, ls, ov, z)
TD(gt_mixed, m, who, ls, k)
TD(gt_tree, v, kids)
TD(gt_node, s, c, q)
TD(gt_outer, i, c, d, m, v, o)
TD(gt_short, a, b)
TD(gt_plain, a, b, c, d)
TD(gt_mid, a, b, c)
DESC(eosio::extended_asset, quantity, contract)
DESC(eosio::extended_symbol, sym, contract)
DESC(eosio::microseconds, _count)
}  // namespace nat

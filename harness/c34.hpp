// Included by every program the C34 check generates.
#pragma once
#include <eosio/name.hpp>
#include <eosio/symbol.hpp>
#include <eosio/convert.hpp>
#include <eosio/reflection.hpp>
#include <cstdint>
#include <cstdio>
#include <string_view>
using namespace eosio::literals;
struct Row { int id; unsigned long long got, want; };

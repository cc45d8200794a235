// the pieces of the build without 128-bit integers that the check calls, besides the C API
#pragma once
#include <array>
#include <cstdint>
#include <string>
namespace no128 {
using Bits = std::array<uint8_t, 16>;
std::string dec(const Bits& b);
bool bin(const std::string& t, Bits& b);
void neg(Bits& b);
bool is_neg(const Bits& b);
bool native(bool sgn, const std::string& json, std::string& wire, std::string& text);
}

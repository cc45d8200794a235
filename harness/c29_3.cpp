// crypto.cpp of the build without 128-bit integers
#include "no_int128.hpp"
#include "../src/crypto.cpp"

#define SHARD 4
#include "c11.cpp"

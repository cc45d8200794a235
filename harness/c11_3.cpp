#define SHARD 3
#include "c11.cpp"

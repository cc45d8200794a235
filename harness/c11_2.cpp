#define SHARD 2
#include "c11.cpp"

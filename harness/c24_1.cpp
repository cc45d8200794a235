#define SHARD 1
#include "c24.cpp"

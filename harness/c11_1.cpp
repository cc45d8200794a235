#define SHARD 1
#include "c11.cpp"

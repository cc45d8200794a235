#define SHARD 3
#include "c22.cpp"

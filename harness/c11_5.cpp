#define SHARD 5
#include "c11.cpp"

#define SHARD 3
#include "c12.cpp"

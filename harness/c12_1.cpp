#define SHARD 1
#include "c12.cpp"

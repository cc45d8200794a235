#define SHARD 2
#include "c12.cpp"

#define SHARD 6
#include "c12.cpp"

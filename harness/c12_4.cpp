#define SHARD 4
#include "c12.cpp"

#define SHARD 5
#include "c12.cpp"

#define SHARD 7
#include "c12.cpp"

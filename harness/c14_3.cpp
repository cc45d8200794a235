#define SHARD 3
#include "c14.cpp"

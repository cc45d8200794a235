#define SHARD 2
#include "c14.cpp"

#define SHARD 1
#include "c14.cpp"

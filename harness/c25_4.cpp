#define SHARD 4
#include "c25.cpp"

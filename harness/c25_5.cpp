#define SHARD 5
#include "c25.cpp"

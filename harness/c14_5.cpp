#define SHARD 5
#include "c14.cpp"

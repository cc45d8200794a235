#define SHARD 4
#include "c14.cpp"

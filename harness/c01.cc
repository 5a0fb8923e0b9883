#define CHECK_C01
#include "cache_seq.cc"

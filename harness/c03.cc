#define CHECK_C03
#include "cache_seq.cc"

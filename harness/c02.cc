#define CHECK_C02
#include "cache_seq.cc"

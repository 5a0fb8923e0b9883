#pragma once
#include "h.h"
#include "util/arena.h"
#include "db/skiplist.h"
// heights: how often in a row the next draws say "one level more"
extern int g_more;        // levels still allowed for the insert under way
extern const int* g_script; // fixed heights instead of explored ones

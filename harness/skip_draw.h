#include "skip_common.h"
int g_more = 0; const int* g_script = nullptr;
static int g_scripted = -1;      // further levels to grant
uint32_t lmc_draw(uint32_t) {
  Quiet q;
  if (g_scripted >= 0) { if (g_scripted > 0) { g_scripted--; return 0x40000000; } return 1; }
  if (g_more <= 0) return 1;
  if (lmc_choose(2, "one level more")) { g_more--; return 0x40000000; }
  g_more = 0; return 1;
}
inline void set_height(int h) { g_scripted = h - 1; }      // exactly h
inline void free_height(int maxh) { g_scripted = -1; g_more = maxh - 1; }

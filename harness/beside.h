// Two threads use the same code, each on things of its own: nothing may be shared behind their backs.
#pragma once
#include "h.h"
inline void beside(std::string (*f)(int)) {
  std::string* o; { Quiet z; o = new std::string[2]; }
  run_threads({[=] { std::string s = f(1); Quiet z; o[0] = s; }, [=] { std::string s = f(2); Quiet z; o[1] = s; }});
  for (int t = 0; t < 2; t++) { std::string s = f(t + 1); CHECK(s == o[t], "beside another thread the result is \"%s\", alone \"%s\"", o[t].c_str(), s.c_str()); }
  { Quiet z; delete[] o; }
}

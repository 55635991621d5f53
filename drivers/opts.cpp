// every option, alone and in pairs, turned into text
#include <cmath>
#include <string>
#include <libmpdata++/opts.hpp>
void mpx_mark(const char *);
void drive()
{
  using namespace libmpdataxx;
#define F(x) mpx_mark(opts::opts_string(opts::x).c_str());
  X_ONE
#undef F
#define F(x, y) mpx_mark(opts::opts_string(opts::x | opts::y).c_str());
  X_TWO
#undef F
  mpx_mark(opts::opts_string(0).c_str());
}

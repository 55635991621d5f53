// every enumerator of a scheme, turned into text by the map the recorded metadata are taken from
#include <cmath>
#include <string>
#include <libmpdata++/solvers/mpdata_rhs_vip_prs_sgs.hpp>
void mpx_mark(const char *);
void drive()
{
#define F(m, x) mpx_mark(libmpdataxx::solvers::m.at(libmpdataxx::solvers::x).c_str());
  X_ALL
#undef F
}

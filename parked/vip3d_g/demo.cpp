// 3D prognosed velocity with a non-uniform G factor: with G times the velocity uniform, the flow used for advection is nondivergent and a constant field stays constant
#include <libmpdata++/solvers/mpdata_rhs_vip.hpp>
#include <libmpdata++/concurr/serial.hpp>
#include <cmath>
#include <cstdio>
using namespace libmpdataxx;
struct ct : ct_params_default_t
{
  using real_t = double; enum { n_dims = 3 }; enum { n_eqns = 4 }; enum { opts = opts::nug | opts::iga | opts::fct }; enum { rhs_scheme = solvers::trapez };
  struct ix { enum { u, v, w, c, vip_i = u, vip_j = v, vip_k = w, vip_den = -1 }; };
  enum { hint_norhs = opts::bit(ix::u) | opts::bit(ix::v) | opts::bit(ix::w) | opts::bit(ix::c) };
};
int main()
{
  using slv = solvers::mpdata_rhs_vip<ct>; using ix = ct::ix;
  slv::rt_params_t p; p.n_iters = 2; p.grid_size = {13, 11, 9}; p.dt = .1; p.di = p.dj = p.dk = 1;
  concurr::serial<slv, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic, bcond::cyclic> r(p);
  blitz::firstIndex i; blitz::secondIndex j; blitz::thirdIndex k;
  const double t = 2 * M_PI;
  r.g_factor() = 1.5 + .4 * cos(t * i / 12) + .3 * sin(t * j / 10) + .2 * cos(t * k / 8);
  r.advectee(ix::u) = 1. / r.g_factor(); r.advectee(ix::v) = .5 / r.g_factor(); r.advectee(ix::w) = -.7 / r.g_factor(); r.advectee(ix::c) = 1;
  r.advance(1);
  double d = blitz::max(blitz::abs(r.advectee(ix::c) - 1));
  std::printf("largest change of a constant field %g\n", d);
  return d < 1e-12 ? 0 : 1;
}

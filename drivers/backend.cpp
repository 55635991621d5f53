// Construction and use of the library's own shared-memory backends.
#include <libmpdata++/solvers/mpdata.hpp>
#include X_BACKEND_HDR
using namespace libmpdataxx;
int mpx_int(const char *);
double mpx_real(const char *);
void mpx_mark(const char *);
template <class t> void mpx_object(t &);
struct ct : ct_params_default_t
{
  using real_t = double;
  enum { n_dims = X_ND };
  enum { n_eqns = 1 };
};
using slv_t = solvers::mpdata<ct>;
void drive()
{
  typename slv_t::rt_params_t p;
  static const char *nm[] = {"nx", "ny", "nz"};
  for (int d = 0; d < X_ND; ++d) p.grid_size[d] = mpx_int(nm[d]);
  p.n_iters = 1;
  concurr::X_BACKEND<slv_t, X_BCS> run(p);
  mpx_object(run);
  run.advance(mpx_int("nt"));
}

#pragma once
// Driver scaffolding: a neutral concurrency backend whose barrier is an opaque marker, and symbolic inputs.
#include <libmpdata++/concurr/detail/concurr_common.hpp>
int  mpx_int(const char *);      // opaque integer input
double mpx_real(const char *);   // opaque real input
void mpx_barrier();              // team-wide barrier marker
void mpx_mark(const char *);     // named event
void mpx_probe(const char *, double = 0, double = 0, double = 0); // named event with values
void mpx_team(int);              // one thread of the team: the analysis interprets the call for every rank
template <class a_t> void mpx_observe(const a_t &, int);  // the user reads this array
void mpx_async(bool *);          // the pointed-to flag may change at any moment
void mpx_begin_user();
void mpx_end_user();
namespace mpx
{
  using namespace libmpdataxx;
  template <class solver_t, bcond::bcond_e xl, bcond::bcond_e xr, bcond::bcond_e yl = bcond::null, bcond::bcond_e yr = bcond::null,
            bcond::bcond_e zl = bcond::null, bcond::bcond_e zr = bcond::null>
  struct team : concurr::detail::concurr_common<solver_t, xl, xr, yl, yr, zl, zr>
  {
    using parent_t = concurr::detail::concurr_common<solver_t, xl, xr, yl, yr, zl, zr>;
    struct mem_t : parent_t::mem_t
    {
      void barrier() { mpx_barrier(); }
      mem_t(const std::array<int, solver_t::n_dims> &grid_size, int size) : parent_t::mem_t(grid_size, size) {}
    };
    void mpx_thread(int r, typename parent_t::advance_arg_t nt) { this->algos[r].solve(nt); }
    void solve(typename parent_t::advance_arg_t nt) { for (int i = 0; i < this->algos.size(); ++i) mpx_thread(i, nt); }
    team(const typename solver_t::rt_params_t &p, int size) : parent_t(p, new mem_t(p.grid_size, size), size) {}
  };
  template <class p_t> void grid(p_t &p)
  {
    static const char *nm[] = {"nx", "ny", "nz"};
    for (unsigned d = 0; d < p.grid_size.size(); ++d) p.grid_size[d] = mpx_int(nm[d]);
    p.dt = mpx_real("dt");
  }
}

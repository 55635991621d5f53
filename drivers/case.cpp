// One analysed instantiation of the library; every macro is set on the command line of the extractor.
//   X_ND dims, X_NE equations, X_OPTS option mask, X_RT real type, X_FAMILY solver template, X_BCS boundary-condition list,
//   X_CT extra compile-time parameters, X_RTP extra run-time parameter statements, SLV user-derived class selector
#include X_FAMILY_HDR
#if defined(X_HDF5)
#include <libmpdata++/output/hdf5.hpp>
#endif
#if defined(X_RECORD)
#include <libmpdata++/output/detail/output_common.hpp>
#endif
#include "common.hpp"
using namespace libmpdataxx;
#ifndef X_RT
#define X_RT double
#endif
#ifndef X_CT
#define X_CT
#endif
#ifndef X_RTP
#define X_RTP
#endif
#ifndef X_NADV
#define X_NADV 2
#endif
struct ct : ct_params_default_t
{
  using real_t = X_RT;
  enum { n_dims = X_ND };
  enum { n_eqns = X_NE };
#ifdef X_OPTS
  enum { opts = X_OPTS };
#endif
  X_CT
};
#if defined(X_USER_RHS)
// a user model: adds a source term to every equation that has one, reading neighbours like a gradient would
template <class parent_t> struct user : parent_t
{
  using parent_t::parent_t;
  protected:
  void update_rhs(arrvec_t<typename parent_t::arr_t> &rhs, const typename parent_t::real_t &dt, const int &at)
  {
    parent_t::update_rhs(rhs, dt, at);
    mpx_probe("user_rhs", dt, at);
    for (int e = 0; e < parent_t::n_eqns; ++e)
    {
      if (opts::isset(ct::hint_norhs, opts::bit(e))) continue;
      rhs.at(e)(this->ijk) += mpx_real("src") * this->state(e)(this->ijk);
    }
  }
#if defined(X_USER_MIXED)
  void hook_mixed_rhs_ante_loop() { mpx_mark("mixed_ante_loop"); this->update_rhs(this->rhs, this->dt, 0); }
  void hook_mixed_rhs_ante_step() { mpx_mark("mixed_ante_step"); this->apply_rhs(this->dt); }
  void hook_mixed_rhs_post_step() { mpx_mark("mixed_post_step"); this->update_rhs(this->rhs, this->dt, 0); }
#endif
};
using slv_t = user<X_FAMILY<ct>>;
#elif defined(X_USER_VARGC)
// a user model with a time-dependent advector
template <class parent_t> struct user : parent_t
{
  using parent_t::parent_t;
  protected:
  bool calc_gc()
  {
    using namespace arakawa_c;
    for (int d = 0; d < X_ND; ++d)
    {
      idx_t<X_ND> r = this->ijk;
      r.lbound(d) = r.lbound(d) - 1;
      this->mem->GC[d](r) = mpx_real("gc") * this->dt;
    }
    this->xchng_vctr_alng(this->mem->GC);
#if X_ND > 1
    auto ex = this->halo - 1;
    this->xchng_vctr_nrml(this->mem->GC, this->ijk, ex);
#endif
    if (opts::isset(ct::opts, opts::div_3rd) || opts::isset(ct::opts, opts::div_3rd_dt))
    {
      for (int d = 0; d < X_ND; ++d)
      {
        idx_t<X_ND> r = this->ijk;
        r.lbound(d) = r.lbound(d) - 1;
        this->mem->ndt_GC[d](r) = mpx_real("ndt");
        this->mem->ndtt_GC[d](r) = mpx_real("ndtt");
      }
      this->xchng_vctr_alng(this->mem->ndt_GC);
      this->xchng_vctr_alng(this->mem->ndtt_GC);
#if X_ND > 1
      this->xchng_vctr_nrml(this->mem->ndt_GC, this->ijk, ex);
      this->xchng_vctr_nrml(this->mem->ndtt_GC, this->ijk, ex);
#endif
    }
    return true;
  }
};
using slv_t = user<X_FAMILY<ct>>;
#else
using slv_t = X_FAMILY<ct>;
#endif
#if defined(X_CLOCK)
// a user model that watches the hooks
template <class parent_t> struct clocked : parent_t
{
  using parent_t::parent_t;
  protected:
  void probe(const char *n) { mpx_probe(n, this->timestep, this->time, this->dt); }
  void hook_ante_loop(const typename parent_t::advance_arg_t nt) { probe("ante_loop"); parent_t::hook_ante_loop(nt); probe("ante_loop_end"); }
#if defined(X_CLOCK_MID)
  void hook_ante_step() { probe("ante_step"); parent_t::hook_ante_step(); probe("ante_step_end"); }
#else
  void hook_ante_step() { probe("ante_step"); parent_t::hook_ante_step(); }
#endif
  void hook_ante_delayed_step() { probe("ante_delayed_step"); parent_t::hook_ante_delayed_step(); }
  void hook_post_step() { probe("post_step"); parent_t::hook_post_step(); probe("step_end"); }
};
using run_t = clocked<slv_t>;
#elif defined(X_RECORD)
// a writer: what the library's own writers are derived from, with a record() that looks at the data it is given
template <class parent_t> struct writer : output::detail::output_common<parent_t>
{
  using base_t = output::detail::output_common<parent_t>;
  using base_t::base_t;
  protected:
  idx_t<X_ND> domain()
  {
    idx_t<X_ND> r(this->ijk);
    for (int d = 0; d < X_ND; ++d)
    {
      r.lbound(d) = 0;
      r.ubound(d) = this->mem->grid_size[d].last();
    }
    return r;
  }
  void start(const typename parent_t::advance_arg_t nt) { mpx_mark("start"); }
  void record(const int var)
  {
    mpx_probe("record", this->timestep, this->time, this->record_time);
    mpx_observe(this->out_data(var)(domain()), 100 + var);
  }
#if defined(X_LEVELS)
  void levels() { mpx_probe("levels", this->n[0], this->n[X_NE - 1]); }
#else
  void levels() {}
#endif
  void hook_ante_step() { base_t::hook_ante_step(); mpx_probe("ante_step_end", this->timestep, this->time, this->dt); levels(); }
  void hook_post_step() { mpx_probe("post_step", this->timestep, this->time, this->dt); base_t::hook_post_step(); mpx_probe("step_end", this->timestep, this->time, this->dt); levels(); }
};
using run_t = writer<slv_t>;
#elif defined(X_HDF5)
// the library's writer, on a stand-in for HDF5
#if defined(X_AUX)
// what a user records besides the variables
template <class parent_t> struct aux_writer : parent_t
{
  using parent_t::parent_t;
  protected:
  void start(const typename parent_t::advance_arg_t nt)
  {
    parent_t::start(nt);
    this->record_aux_dsc_const("aux_c", *this->mem->G);
    this->record_aux_const("scl_c", mpx_real("scl_c"));
  }
  void record_all()
  {
    parent_t::record_all();
    this->record_aux_dsc("aux", this->state(1));
    this->record_aux_dsc("srf", this->state(0), true);
    this->record_aux_halo_hlpr("hal", *this->mem->G, *this->hdfp);
    this->record_aux_scalar("scl", this->time);
  }
};
using run_t = aux_writer<output::hdf5<slv_t>>;
#else
using run_t = output::hdf5<slv_t>;
#endif
#else
using run_t = slv_t;
#endif
void drive()
{
  typename run_t::rt_params_t p;
  mpx::grid(p);
  p.n_iters = mpx_int("n_iters");
  X_RTP
  mpx::team<run_t, X_BCS> run(p, mpx_int("T"));
  mpx_begin_user();
  for (int e = 0; e < X_NE; ++e) run.advectee(e) = mpx_real("psi0");
#if defined(X_SET_GC)
  for (int d = 0; d < X_ND; ++d) run.advector(d) = mpx_real("gc0");
#endif
  if (opts::isset(ct::opts, opts::nug)) run.g_factor() = mpx_real("g0");
#if defined(X_SET_VAB)
  run.vab_coefficient() = mpx_real("vab0");
  for (int d = 0; d < X_ND; ++d) run.vab_relaxed_state(d) = mpx_real("relax0");
#endif
#if defined(X_SET_SCLR)
  X_SET_SCLR
#endif
  mpx_end_user();
#if defined(X_ASYNC)
  // the user asks the team to stop at an arbitrary moment
  mpx_async(run.panic_ptr());
  run.advance(mpx_int("nt"));
  return;
#endif
  for (int a = 0; a < X_NADV; ++a)
  {
    run.advance(mpx_int("nt"));
    for (int e = 0; e < X_NE; ++e) mpx_observe(run.advectee(e), e);
  }
}

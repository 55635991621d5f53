From 8991ee421833b4056d4e7bdd9a987e9f4f1669b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:23 +0000
Subject: [PATCH 01/12] fix: synchronise threads between computing and using
 the donor-cell fluxes in FCT without iga

---
 libmpdata++/solvers/detail/mpdata_fct_2d.hpp | 2 ++
 libmpdata++/solvers/detail/mpdata_fct_3d.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/libmpdata++/solvers/detail/mpdata_fct_2d.hpp b/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
index fb4b61a..976d22a 100644
--- a/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_fct_2d.hpp
@@ -68,6 +68,8 @@ namespace libmpdataxx
             this->flux[0](im1+h, j1) = formulae::donorcell::make_flux<ct_params_t::opts, 0>(psi, GC_corr[0], im1, j1);
             this->flux[1](i1, jm1+h) = formulae::donorcell::make_flux<ct_params_t::opts, 1>(psi, GC_corr[1], jm1, i1);
             this->flux_ptr = &this->flux;
+            // betas use fluxes at the left edge of the slab, which are calculated by the neighbouring thread
+            this->mem->barrier();
           }
 
           const auto &flx = (*(this->flux_ptr));
diff --git a/libmpdata++/solvers/detail/mpdata_fct_3d.hpp b/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
index 180e927..0885eef 100644
--- a/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
+++ b/libmpdata++/solvers/detail/mpdata_fct_3d.hpp
@@ -82,6 +82,8 @@ namespace libmpdataxx
             this->flux[1](i1,    jm1+h, k1   ) = formulae::donorcell::make_flux<ct_params_t::opts, 1>(psi, GC_corr[1], jm1, k1, i1);
             this->flux[2](i1,    j1,    km1+h) = formulae::donorcell::make_flux<ct_params_t::opts, 2>(psi, GC_corr[2], km1, i1, j1);
             this->flux_ptr = &this->flux;
+            // betas use fluxes at the left edge of the slab, which are calculated by the neighbouring thread
+            this->mem->barrier();
           }
 
 
-- 
2.43.0


From e210d739987eca6112fbae3597ebd3ba35b77172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 02/12] fix: fill k_m halos and synchronise threads before
 multiplying the deformation by the Smagorinsky viscosity

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp    | 3 +++
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
index b961522..1d769d4 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
@@ -36,6 +36,9 @@ namespace libmpdataxx
           {
             k_m(this->ijk) = pow(smg_c * dlta, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
 
+            // multiplication below uses k_m averaged to cell edges and must not start before all threads are done with tau
+            this->xchng_sclr(this->k_m, this->ijk, 1);
+
             formulae::stress::multiply_tnsr_cmpct<ct_params_t::n_dims, ct_params_t::opts>(this->tau,
                                                                                           real_t(1.0),
                                                                                           this->k_m,
diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
index 5ca11b0..1fad51a 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
@@ -40,6 +40,10 @@ namespace libmpdataxx
           k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)(this->ijk); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
           k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)(this->ijk);
 
+          // multiplication below uses k_m averaged to cell edges and must not start before all threads are done with tau
+          this->xchng_sclr(this->k_m[0], this->ijk, 1);
+          this->xchng_sclr(this->k_m[1], this->ijk, 1);
+
           formulae::stress::multiply_tnsr_cmpct<ct_params_t::n_dims, ct_params_t::opts>(this->tau,
                                                                                         real_t(1.0),
                                                                                         this->k_m,
-- 
2.43.0


From 5191eb82e7584cd41ab34341a65f7adef858b3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:30 +0000
Subject: [PATCH 03/12] fix: do not slice the deformation expression twice in
 anisotropic Smagorinsky viscosity

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
index 1fad51a..9739c49 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
@@ -37,8 +37,8 @@ namespace libmpdataxx
           const auto dlta_v = this->dijk[ct_params_t::n_dims-1];
 
           // Simon and Chow 2021, eqs. 9 and 10
-          k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)(this->ijk); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
-          k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)(this->ijk);
+          k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
+          k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
 
           // multiplication below uses k_m averaged to cell edges and must not start before all threads are done with tau
           this->xchng_sclr(this->k_m[0], this->ijk, 1);
-- 
2.43.0


From 557d6b3bebc51d522586458f3fab7729424a73e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:13 +0000
Subject: [PATCH 04/12] fix: Smagorinsky viscosity is proportional to the
 deformation, not to its square

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp    | 4 ++--
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
index 1d769d4..aa3d49b 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
@@ -34,7 +34,7 @@ namespace libmpdataxx
 
           if (static_cast<stress_diff_t>(ct_params_t::stress_diff) == compact)
           {
-            k_m(this->ijk) = pow(smg_c * dlta, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
+            k_m(this->ijk) = pow(smg_c * dlta, 2) * sqrt(formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk));
 
             // multiplication below uses k_m averaged to cell edges and must not start before all threads are done with tau
             this->xchng_sclr(this->k_m, this->ijk, 1);
@@ -50,7 +50,7 @@ namespace libmpdataxx
           }
           else
           {
-            k_m(this->ijk) = pow(smg_c * dlta, 2) *  formulae::stress::calc_tdef_sq<ct_params_t::n_dims>(this->tau, this->ijk);
+            k_m(this->ijk) = pow(smg_c * dlta, 2) *  sqrt(formulae::stress::calc_tdef_sq<ct_params_t::n_dims>(this->tau, this->ijk));
 
             for (auto& t : this->tau)
             {
diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
index 9739c49..2fb42e3 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
@@ -37,8 +37,8 @@ namespace libmpdataxx
           const auto dlta_v = this->dijk[ct_params_t::n_dims-1];
 
           // Simon and Chow 2021, eqs. 9 and 10
-          k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
-          k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk);
+          k_m[0](this->ijk) = pow(smg_c * dlta_h, 2) * sqrt(formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk)); // tdef_sq could be cached, but creating a tdef_sq array without similar one in isotropic smg messes with derived classes that do cache tdef_sq also in isotropic... (e.g. boussinesq)
+          k_m[1](this->ijk) = pow(smg_c * dlta_v, 2) * sqrt(formulae::stress::calc_tdef_sq_cmpct<ct_params_t::n_dims>(this->tau, this->ijk));
 
           // multiplication below uses k_m averaged to cell edges and must not start before all threads are done with tau
           this->xchng_sclr(this->k_m[0], this->ijk, 1);
-- 
2.43.0


From 545d442886a69b1108519c46d9c5271d4f177f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 05/12] fix: size the thread team, its barrier and its
 reductions along the decomposed dimension in 3D

The barrier, the reduction scratch array and the sanity check used the extent in x while the
solvers are created along y, so e.g. a 16x3x8 domain with 8 threads hung at the first barrier.
---
 libmpdata++/concurr/boost_thread.hpp     | 4 ++--
 libmpdata++/concurr/cxx11_thread.hpp     | 4 ++--
 libmpdata++/concurr/detail/sharedmem.hpp | 2 +-
 libmpdata++/concurr/openmp.hpp           | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/libmpdata++/concurr/boost_thread.hpp b/libmpdata++/concurr/boost_thread.hpp
index f1d7c7a..984984b 100644
--- a/libmpdata++/concurr/boost_thread.hpp
+++ b/libmpdata++/concurr/boost_thread.hpp
@@ -52,8 +52,8 @@ namespace libmpdataxx
 
         // ctor
         mem_t(const std::array<int, solver_t::n_dims> &grid_size) :
-          b(size(grid_size[0])),
-          parent_t::mem_t(grid_size, size(grid_size[0]))
+          b(size(grid_size[solver_t::n_dims < 3 ? 0 : 1])),
+          parent_t::mem_t(grid_size, size(grid_size[solver_t::n_dims < 3 ? 0 : 1]))
         {};
 
         void barrier()
diff --git a/libmpdata++/concurr/cxx11_thread.hpp b/libmpdata++/concurr/cxx11_thread.hpp
index 77dc47d..340f2ef 100644
--- a/libmpdata++/concurr/cxx11_thread.hpp
+++ b/libmpdata++/concurr/cxx11_thread.hpp
@@ -93,8 +93,8 @@ namespace libmpdataxx
 
         // ctor
         mem_t(const std::array<int, solver_t::n_dims> &grid_size) :
-          b(size(grid_size[0])),
-          parent_t::mem_t(grid_size, size(grid_size[0]))
+          b(size(grid_size[solver_t::n_dims < 3 ? 0 : 1])),
+          parent_t::mem_t(grid_size, size(grid_size[solver_t::n_dims < 3 ? 0 : 1]))
         {};
 
         void barrier()
diff --git a/libmpdata++/concurr/detail/sharedmem.hpp b/libmpdata++/concurr/detail/sharedmem.hpp
index b73fce5..ce0cba2 100644
--- a/libmpdata++/concurr/detail/sharedmem.hpp
+++ b/libmpdata++/concurr/detail/sharedmem.hpp
@@ -103,7 +103,7 @@ namespace libmpdataxx
             origin[d] = this->grid_size[d].first();
           }
 
-          if (size > grid_size[0])
+          if (size > grid_size[shmem_decomp_dim])
             throw std::runtime_error("libmpdata++: number of subdomains greater than number of gridpoints");
 
           if (n_dims != 1)
diff --git a/libmpdata++/concurr/openmp.hpp b/libmpdata++/concurr/openmp.hpp
index d33cda9..3c78dde 100644
--- a/libmpdata++/concurr/openmp.hpp
+++ b/libmpdata++/concurr/openmp.hpp
@@ -58,7 +58,7 @@ namespace libmpdataxx
         }
 
         // ctors
-        mem_t(const std::array<int, solver_t::n_dims> &grid_size) : parent_t::mem_t(grid_size, size(grid_size[0])) {};
+        mem_t(const std::array<int, solver_t::n_dims> &grid_size) : parent_t::mem_t(grid_size, size(grid_size[solver_t::n_dims < 3 ? 0 : 1])) {};
       };
 
       void solve(typename parent_t::advance_arg_t nt)
-- 
2.43.0


From 912e60ea688ab47b1d370eb617855b002200f44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:19 +0000
Subject: [PATCH 06/12] fix: make all threads take the same decision on the
 asynchronously raised panic flag

Each thread used to read the flag on its own; when it was raised in between these reads, some
threads left the time loop while the others waited for them at the next barrier forever.
---
 libmpdata++/concurr/detail/sharedmem.hpp     | 1 +
 libmpdata++/solvers/detail/solver_common.hpp | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/libmpdata++/concurr/detail/sharedmem.hpp b/libmpdata++/concurr/detail/sharedmem.hpp
index ce0cba2..f2661e6 100644
--- a/libmpdata++/concurr/detail/sharedmem.hpp
+++ b/libmpdata++/concurr/detail/sharedmem.hpp
@@ -47,6 +47,7 @@ namespace libmpdataxx
         const int size;
         std::array<rng_t, n_dims> grid_size;
         bool panic = false; // for multi-threaded SIGTERM handling
+        bool panic_seen = false; // value of the above sampled by one thread on behalf of all
 
         // dimension in which sharedmem domain decomposition is done
         // 1D and 2D - domain decomposed in 0-th dimension (x)
diff --git a/libmpdata++/solvers/detail/solver_common.hpp b/libmpdata++/solvers/detail/solver_common.hpp
index 484bd17..4cf7686 100644
--- a/libmpdata++/solvers/detail/solver_common.hpp
+++ b/libmpdata++/solvers/detail/solver_common.hpp
@@ -298,8 +298,12 @@ namespace libmpdataxx
             monitor(float(ct_params_t::var_dt ? time : timestep) / nt);  // TODO: does this value make sanse with repeated advence() calls?
 
             // might be used to implement multi-threaded signal handling
+            // (the flag may be raised at any moment, so it is sampled by one thread only:
+            // all threads have to take the same decision or they would not meet at the next barrier)
             mem->barrier();
-            if (mem->panic) break;
+            if (rank == 0) mem->panic_seen = mem->panic;
+            mem->barrier();
+            if (mem->panic_seen) break;
 
             // proper solver stuff
 
-- 
2.43.0


From 96b7abd4bcf0c648dd047ea696ed31bd77e83d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:34 +0000
Subject: [PATCH 07/12] fix: open 1D right boundary: extrapolate the advector
 from the nearest interior face

With halos wider than one cell (FCT and the options that need second neighbours)
rght_intr_vctr spans several faces; the right boundary used the first, i.e. the
one farthest from the edge, while the left boundary uses the one at the edge.
---
 libmpdata++/bcond/open_1d.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/bcond/open_1d.hpp b/libmpdata++/bcond/open_1d.hpp
index ceea477..51ab84c 100644
--- a/libmpdata++/bcond/open_1d.hpp
+++ b/libmpdata++/bcond/open_1d.hpp
@@ -73,7 +73,7 @@ namespace libmpdataxx
       void fill_halos_vctr_alng(arrvec_t<arr_t> &av, const bool ad = false)
       {
         for (int i = this->rght_halo_vctr.first() + (ad ? 1 : 0); i <= this->rght_halo_vctr.last(); ++i)
-          av[0](rng_t(i, i)) = av[0](this->rght_intr_vctr.first());
+          av[0](rng_t(i, i)) = av[0](this->rght_intr_vctr.last());
       }
     };
   } // namespace bcond
-- 
2.43.0


From 7b871931fa57c8554cec46423023ca55a5d99740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 08/12] fix: include the 2D ground-sky boundary so that it
 compiles

---
 libmpdata++/concurr/detail/concurr_common.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libmpdata++/concurr/detail/concurr_common.hpp b/libmpdata++/concurr/detail/concurr_common.hpp
index c1edb65..a0da678 100644
--- a/libmpdata++/concurr/detail/concurr_common.hpp
+++ b/libmpdata++/concurr/detail/concurr_common.hpp
@@ -32,6 +32,7 @@
 #include <libmpdata++/bcond/remote_1d.hpp>
 #include <libmpdata++/bcond/remote_2d.hpp>
 #include <libmpdata++/bcond/remote_3d.hpp>
+#include <libmpdata++/bcond/gndsky_2d.hpp>
 #include <libmpdata++/bcond/gndsky_3d.hpp>
 
 namespace libmpdataxx
-- 
2.43.0


From f71deb2b9496c3284201eaacea301b14f548cc97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 09/12] fix: do not overwrite the ground's stress with the
 un-multiplied deformation

---
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp    | 1 -
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp    | 1 -
 libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp | 1 -
 3 files changed, 3 deletions(-)

diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp
index fed38f2..be76fed 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp
@@ -29,7 +29,6 @@ namespace libmpdataxx
           {
             formulae::stress::multiply_tnsr_cmpct<ct_params_t::n_dims>(this->tau, eta, this->ijkm_sep);
 
-            this->xchng_sgs_tnsr_diag(this->tau, this->vips()[ct_params_t::n_dims - 1], this->vip_div, this->ijk);
             this->xchng_sgs_tnsr_offdiag(this->tau, this->tau_srfc, this->ijk, this->ijkm);
           }
           else
diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
index aa3d49b..6b1055d 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp
@@ -45,7 +45,6 @@ namespace libmpdataxx
                                                                                           *this->mem->G,
                                                                                           this->ijkm_sep);
 
-            this->xchng_sgs_tnsr_diag(this->tau, this->vips()[ct_params_t::n_dims - 1], this->vip_div, this->ijk);
             this->xchng_sgs_tnsr_offdiag(this->tau, this->tau_srfc, this->ijk, this->ijkm);
           }
           else
diff --git a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
index 2fb42e3..da7add9 100644
--- a/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
+++ b/libmpdata++/solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp
@@ -50,7 +50,6 @@ namespace libmpdataxx
                                                                                         *this->mem->G,
                                                                                         this->ijkm_sep);
 
-          this->xchng_sgs_tnsr_diag(this->tau, this->vips()[ct_params_t::n_dims - 1], this->vip_div, this->ijk);
           this->xchng_sgs_tnsr_offdiag(this->tau, this->tau_srfc, this->ijk, this->ijkm);
         }
 
-- 
2.43.0


From 98425f848ec633756c6f811e249aee7c6ebd1861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:59 +0000
Subject: [PATCH 10/12] fix: subtract div/n_dims (as elsewhere) in the ground's
 deformation diagonal

---
 libmpdata++/bcond/gndsky_2d.hpp | 2 +-
 libmpdata++/bcond/gndsky_3d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmpdata++/bcond/gndsky_2d.hpp b/libmpdata++/bcond/gndsky_2d.hpp
index bb2a994..d13a074 100644
--- a/libmpdata++/bcond/gndsky_2d.hpp
+++ b/libmpdata++/bcond/gndsky_2d.hpp
@@ -55,7 +55,7 @@ namespace libmpdataxx
                                                       - 2 * u(pi<d>(this->left_edge_sclr, j))
                                                       -     u(pi<d>(this->left_edge_sclr + 2, j))
                                                       ) / di
-                                                    - div(pi<d>(this->left_edge_sclr - h, j))
+                                                    - div(pi<d>(this->left_edge_sclr - h, j)) / n_dims
                                                     );
       }
     };
diff --git a/libmpdata++/bcond/gndsky_3d.hpp b/libmpdata++/bcond/gndsky_3d.hpp
index de0f905..4f75b7e 100644
--- a/libmpdata++/bcond/gndsky_3d.hpp
+++ b/libmpdata++/bcond/gndsky_3d.hpp
@@ -56,7 +56,7 @@ namespace libmpdataxx
                                                          - 2 * u(pi<d>(this->left_edge_sclr, j, k))
                                                          -     u(pi<d>(this->left_edge_sclr + 2, j, k))
                                                          ) / di
-                                                       - div(pi<d>(this->left_edge_sclr - h, j, k))
+                                                       - div(pi<d>(this->left_edge_sclr - h, j, k)) / n_dims
                                                        );
       }
     };
-- 
2.43.0


From d253683f06b4a7fd98745a841d4a6a154c8f4267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 11/12] fix: copy the whole local array when recording a 3D
 array with halos from several processes

---
 libmpdata++/output/hdf5.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmpdata++/output/hdf5.hpp b/libmpdata++/output/hdf5.hpp
index 8c21eea..0d7865e 100644
--- a/libmpdata++/output/hdf5.hpp
+++ b/libmpdata++/output/hdf5.hpp
@@ -439,7 +439,7 @@ namespace libmpdataxx
         // in 3D convert from kij to kji storage order
         if(parent_t::n_dims == 3)
         {
-          typename solver_t::arr_t kji_arr(shape_h);
+          typename solver_t::arr_t kji_arr(shape_mem_h);
           kji_arr = arr;
           aux.write(kji_arr.data(), flttype_solver, sspace_mem_h, space, dxpl_id);
         }
-- 
2.43.0


From 6ed2c926601c118795a0543b4992ee08909be508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:48 +0000
Subject: [PATCH 12/12] fix: reopen the const file collectively in
 record_aux_dsc_const as in the other record_*_const

---
 libmpdata++/output/hdf5.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libmpdata++/output/hdf5.hpp b/libmpdata++/output/hdf5.hpp
index 0d7865e..6bb1559 100644
--- a/libmpdata++/output/hdf5.hpp
+++ b/libmpdata++/output/hdf5.hpp
@@ -592,7 +592,11 @@ namespace libmpdataxx
       // has to be called after const file was created (i.e. after start())
       void record_aux_dsc_const(const std::string &name,  const typename solver_t::arr_t &arr)
       {
-        H5::H5File hdfcp(const_file, H5F_ACC_RDWR); // reopen the const file
+        H5::H5File hdfcp(const_file, H5F_ACC_RDWR
+#if defined(USE_MPI)
+          , H5P_DEFAULT, fapl_id
+#endif
+        ); // reopen the const file
         record_aux_dsc_hlpr(name, arr, hdfcp);
       }
 
-- 
2.43.0


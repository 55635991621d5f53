#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # (property dict, check dict | n/a reason)
def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a), technique, note, na))
L = 'libmpdata++/'
prop('C01', 'No unsynchronised sharing between the threads of a run',
     'While a simulation advances, no two threads of the team access the same array cell or shared variable, at least one of them writing, unless every execution separates the accesses by a team-wide synchronisation. '
     'The only exceptions are overlaps that cannot influence any result: identical values stored twice, a value the reader itself has already stored, or a value overwritten before use.',
     ['schedules', 'configurations', 'inputs'], 'every interleaving of the threads, every team size and domain size, every registered combination of solver, dimension, boundary condition and scheme',
     'A race shows only under particular timings; the tests run a handful of schedules on few cores with fixed sizes and compare with tolerance.',
     [L + 'concurr/detail/sharedmem.hpp', L + 'solvers/detail/solver_common.hpp', L + 'solvers/detail/solver_2d.hpp', L + 'solvers/detail/solver_3d.hpp', L + 'solvers/detail/mpdata_osc_2d.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_2d.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp'],
     [('team barrier between dependent phases', L + 'solvers/detail/*.hpp calls of mem->barrier()'), ('slab decomposition per thread', L + 'concurr/detail/concurr_common.hpp init')],
     'abstract interpretation: per-thread array-region effect analysis between barriers, pairwise disjointness', 'interval between barriers x array regions with symbolic bounds; decided for every registered instantiation, for all grid sizes covered by a symbolic shape')
prop('C02', 'All threads and processes keep in step',
     'All threads of a team pass the same sequence of team-wide synchronisations, decided by values all of them agree on even if a stop request arrives at an arbitrary moment, and all processes enter the same collective operations in the same order. '
     'For every threading backend the number of threads that synchronise is the number that take part, for every relation of available threads to grid extents, and no thread leaves a synchronisation point before the last one has arrived.',
     ['schedules', 'configurations'], 'every schedule, arrival time of a stop request, team size, process count and ordering of grid extents against the number of threads',
     'A thread missing one barrier deadlocks or desynchronises only for certain timings, thread counts or domain aspect ratios; tests run fixed thread counts on domains larger than the team in every direction.',
     [L + 'concurr/detail/sharedmem.hpp', L + 'concurr/cxx11_thread.hpp', L + 'concurr/boost_thread.hpp', L + 'concurr/openmp.hpp', L + 'solvers/detail/solver_common.hpp', L + 'concurr/detail/distmem.hpp'],
     [('barrier implementations', L + 'concurr/*.hpp'), ('panic latch', L + 'solvers/detail/solver_common.hpp solve'), ('global reductions', L + 'concurr/detail/sharedmem.hpp, distmem.hpp')],
     'abstract interpretation: synchronisation-skeleton comparison across threads/processes; protocol (typestate) analysis of each barrier implementation', 'branch conditions compared as symbolic values derived from shared data')
prop('C05', 'Every array access is in bounds and every object used exists',
     'In every supported configuration all array indices and sections lie inside the arrays they address, all array statements combine operands of equal extents, and messages fit their buffers, for every domain size and decomposition. '
     'No null pointer, unallocated array, uninitialised variable or container element out of range is used.',
     ['inputs', 'configurations'], 'every grid size at least the supported minimum, every team size and slab width, every registered combination of options',
     'Bounds checking is compiled out of optimised builds; the debug tests exercise particular sizes and option combinations only.',
     [L + 'solvers/detail/*.hpp', L + 'formulae/*.hpp', L + 'bcond/*.hpp', L + 'concurr/detail/*.hpp'],
     [('halo sizes and index ranges', L + 'solvers/detail/solver_?d.hpp constructors'), ('temporary allocation', L + 'solvers/detail alloc functions'), ('message buffers', L + 'bcond/detail/remote_common.hpp')],
     'abstract interpretation: symbolic range analysis of every index, section and array statement', 'domain sizes symbolic; slabs of one and two cells added in the thorough tier')
prop('C06', 'Results never depend on array cells that were not given a value',
     'Every number that reaches the state handed back to the user, or a global sum, minimum or maximum, is computed only from array cells assigned earlier by the user, by an initial fill, by a received message or by a previous statement. '
     'In particular no halo cell is consumed before it has been filled.',
     ['inputs', 'histories', 'configurations'], 'every domain size, several time steps, every registered combination of options',
     'A stale or never-filled cell often holds plausible data (zeros from fresh pages, last step values), so outputs stay within test tolerances.',
     [L + 'solvers/detail/*.hpp', L + 'bcond/*.hpp', L + 'formulae/*.hpp'],
     [('halo exchange before stencils', L + 'solvers/detail/solver_?d.hpp xchng'), ('ranges of intermediate fields', L + 'solvers/detail/mpdata_osc_?d.hpp')],
     'forward array-region dataflow (must-defined boxes, undefinedness propagation)', 'single-threaded order; scheduling independence is C01')
prop('C03', 'Results do not depend on how the domain is decomposed',
     'Advancing the same problem with any number of threads, or with the domain split over any number of processes, yields in every cell the value the undecomposed single-thread run yields: the same expression of the initial data, parameters and grid. '
     'Only global sums may differ, by the grouping of their terms.',
     ['configurations', 'inputs'], 'every team size and slab width, every process split, every domain size, every registered combination of solver, dimension, boundary condition and scheme',
     'Tests compare few decompositions on fixed sizes with tolerances; an error confined to slab edges at particular sizes is diluted or not exercised.',
     [L + 'concurr/detail/concurr_common.hpp', L + 'bcond/detail/remote_common.hpp', L + 'bcond/remote_?d.hpp', L + 'bcond/shared_?d.hpp', L + 'solvers/detail/*.hpp', L + 'concurr/detail/sharedmem.hpp'],
     [('slab split', L + 'concurr/detail/concurr_common.hpp'), ('halo exchange', L + 'bcond/')],
     'abstract interpretation with global value numbering: decomposed and undecomposed runs compared cell by cell', 'cells at and next to symbolic slab boundaries; slabs of symbolic width')
prop('C04', 'Messages between neighbouring domains match and carry the right data',
     'Every message sent is received exactly once by the intended neighbour with the same tag and length, no two messages in flight between the same pair can be confused, buffers are not touched while a transfer is pending, and the cells stored by the receiver are those the neighbour owns at the same global position and time level.',
     ['schedules', 'configurations', 'inputs'], 'every number of processes, split, message arrival order, and domain size',
     'Tags colliding or swapped matter only when messages arrive in an unusual order; tests run two or three processes on one machine.',
     [L + 'bcond/detail/remote_common.hpp', L + 'bcond/remote_1d.hpp', L + 'bcond/remote_2d.hpp', L + 'bcond/remote_3d.hpp', L + 'concurr/detail/distmem.hpp'],
     [('send/receive pairs and tags', L + 'bcond/detail/remote_common.hpp'), ('index shift between domains', L + 'bcond/remote_?d.hpp')],
     'abstract interpretation: message typestate, matching of send/receive pairs and symbolic transport of cell identities', 'all processes are interpreted in one global program with symbolic sizes')
prop('C09', 'No axis is treated differently from another',
     'Exchanging the axes of a problem (grid sizes, fields, velocity components and boundary conditions together) exchanges the result; mirroring a problem along an axis, normal components changing sign, mirrors the result. ',
     ['inputs', 'configurations'], 'every field, every domain size, every exchange and mirror under which the boundary conditions are symmetric, every registered combination of schemes',
     'Most tests are symmetric or align the flow with one axis; wrong signs or swapped indices in one component of a cross term hide below tolerance or are never exercised.',
     [L + 'formulae/*.hpp', L + 'formulae/mpdata/*.hpp', L + 'bcond/*.hpp', L + 'solvers/detail/*.hpp'],
     [('permuted indexing', L + 'formulae/idxperm.hpp'), ('per-axis stencils', L + 'formulae/mpdata/*.hpp')],
     'abstract interpretation with global value numbering: metamorphic comparison of the program with its axis-exchanged or mirrored self', 'one time step in the quick tier; corners where two open boundaries meet are excluded (filled in axis order by design)')
prop('C11', 'Formal order of accuracy of the advection schemes',
     'For smooth fields one advection step agrees with the exact solution up to the order promised for the option set: first order for one iteration, second order with corrective iterations (also for divergent flow with the divergent-flow options, and for steady or unsteady flow), '
     'third order with the third-order options, fourth order where offered, with or without G factor, and for advectors interpolated in space or extrapolated in time as the compile-time parameters declare.',
     ['inputs', 'configurations'], 'every smooth field, flow and G factor; every option set; 1, 2 and 3 dimensions',
     'Convergence tests cover a few flows in which many terms of the correction vanish (uniform, solenoidal or one-dimensional) and compare slopes with a wide tolerance.',
     [L + 'formulae/mpdata/formulae_mpdata_1d.hpp', L + 'formulae/mpdata/formulae_mpdata_2d.hpp', L + 'formulae/mpdata/formulae_mpdata_3d.hpp', L + 'formulae/mpdata/formulae_mpdata_hot_?d.hpp', L + 'formulae/mpdata/formulae_mpdata_dfl_?d.hpp', L + 'formulae/donorcell_formulae.hpp'],
     [('antidiffusive velocities', L + 'formulae/mpdata/*.hpp'), ('iteration of donor-cell steps', L + 'solvers/detail/mpdata_osc_?d.hpp')],
     'abstract interpretation over truncated power series: truncation-error (modified equation) analysis of the step', 'generic interior cell; sign patterns of the flow chosen by a multiplicative sign character')

prop('C10', 'Uniform fields stay uniform',
     'A field that is uniform in space stays exactly uniform when advected by a discretely divergence-free flow, with any G factor and option set; a fluid whose velocity and temperature are uniform, with no wall across the flow, stays in that uniform motion.',
     ['inputs', 'configurations'], 'every uniform value, every discretely non-divergent flow (derived from an arbitrary stream function), every domain size and boundary condition, every registered combination of schemes',
     'Tests advect a constant through a few flows and compare within a tolerance; terms that cancel only for uniform fields are exercised in a few of the option sets.',
     [L + 'formulae/*.hpp', L + 'formulae/mpdata/*.hpp', L + 'bcond/*.hpp', L + 'solvers/detail/*.hpp'],
     [('flux divergence', L + 'formulae/donorcell_formulae.hpp'), ('antidiffusive velocities', L + 'formulae/mpdata/*.hpp'), ('halo values', L + 'bcond/*.hpp')],
     'abstract interpretation with global value numbering: the result of the program on a uniform input is proved to be that input', 'steps and cells per case as reported in the evidence; iterative solvers followed for one iteration')
prop('C12', 'Accounting of steps and time',
     'advance(n) performs exactly n steps (or, with a variable time step, continues until the requested time), runs every hook once per step in the fixed order (the initial hook once per run), and presents to the hooks a step counter, time and time step that '
     'agree with each other; advancing in two calls gives the same result as advancing in one.',
     ['inputs', 'histories', 'configurations'], 'every input and domain size, every registered combination of solver layers',
     'Tests call advance once with a fixed number of steps; state kept between calls (stashed sources, previous velocities, time step, iteration counters) is never compared with the uninterrupted run.',
     [L + 'solvers/detail/solver_common.hpp', L + 'solvers/mpdata_rhs.hpp', L + 'solvers/detail/mpdata_rhs_vip_*.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_*.hpp'],
     [('time loop', L + 'solvers/detail/solver_common.hpp'), ('hook chains', L + 'solvers/*.hpp')],
     'abstract interpretation with global value numbering: probes in the user hooks, and comparison of the program with its split-run self', 'two steps; split runs compared for fixed time steps')
prop('C22', 'Results are independent of the units of measurement',
     'Expressing the inputs in other units of length, time or temperature changes the results only by the factors their dimensions prescribe.',
     ['inputs', 'configurations'], 'every field, parameter and domain size, every registered momentum, pressure, subgrid and shallow-water solver',
     'Tests run in one set of units, often with unit grid spacing or time step, so missing or doubled factors of dx, dt, viscosity or gravity go unnoticed.',
     [L + 'solvers/detail/mpdata_rhs_vip_*.hpp', L + 'formulae/stress_formulae.hpp', L + 'formulae/nabla_formulae.hpp', L + 'formulae/kelvin_transform.hpp', L + 'solvers/*.hpp'],
     [('gradients and divergences', L + 'formulae/nabla_formulae.hpp'), ('stress', L + 'formulae/stress_formulae.hpp'), ('pressure solvers', L + 'solvers/detail/mpdata_rhs_vip_prs_*.hpp')],
     'abstract interpretation with global value numbering: dimensional analysis of the whole step by comparison with the rescaled program', 'iterative solvers followed for one iteration; the unit of time is varied in the pressure solvers only for runs from rest')
prop('C23', 'Scaling and superposition of advected fields',
     'Multiplying an advected field by a positive constant multiplies the result by it; changing its sign changes the sign of the result for the options meant for variable-sign fields; the infinite-gauge scheme without flux limiting is linear; fields advected together do not influence each other.',
     ['inputs', 'configurations'], 'every field, flow, G factor, constant and domain size, every registered combination of options',
     'Tests advect fields of order one; normalisations that are not homogeneous, sign-dependent branches and buffers shared between fields are not exercised.',
     [L + 'formulae/*.hpp', L + 'formulae/mpdata/*.hpp', L + 'solvers/detail/mpdata_*.hpp'],
     [('antidiffusive velocities', L + 'formulae/mpdata/*.hpp'), ('flux limiter', L + 'solvers/detail/mpdata_fct_?d.hpp')],
     'abstract interpretation with global value numbering: metamorphic comparison of the program with its scaled self', 'the constants that keep denominators away from zero are taken as zero')

prop('C07', 'Boundary conditions realise the continuation they stand for',
     'A cyclic axis has no distinguished point: shifting the inputs along it shifts the result, and the coinciding first and last points stay equal. A rigid wall acts as a mirror. Beyond an open boundary the fields continue the edge values and the flow continues without divergence.',
     ['inputs', 'configurations'], 'every field, flow, G factor and domain size; every registered combination of options and boundary conditions',
     'Tests look at flows that hardly touch the boundary or at one option set per boundary type; halo cells of derived quantities (antidiffusive velocities, limiter coefficients, time derivatives of the advector) are not compared with anything.',
     [L + 'bcond/*.hpp', L + 'solvers/detail/solver_?d.hpp', L + 'solvers/detail/mpdata_*.hpp'],
     [('halo filling', L + 'bcond/*.hpp'), ('what is exchanged when', L + 'solvers/detail/mpdata_osc_?d.hpp')],
     'abstract interpretation with global value numbering: metamorphic comparison with the shifted program and with the cyclic program of twice the size (method of images)', 'one step; pressure solvers excluded from the cyclic and mirror comparisons')
prop('C08', 'Advection conserves the advected quantity',
     'One advection step changes the sum of G times the field over any region only by what flows through its surface: what leaves a cell through a face enters the neighbour, also across the seam of cyclic axes and at rigid walls, with every option set.',
     ['inputs', 'configurations'], 'every field, flow, G factor and domain size, every registered combination of options',
     'Conservation is observed in tests as a sum compared within a tolerance for smooth flows; a flux evaluated differently from its two sides on one kind of face stays below it.',
     [L + 'formulae/donorcell_formulae.hpp', L + 'formulae/mpdata/*.hpp', L + 'solvers/detail/mpdata_osc_?d.hpp', L + 'solvers/detail/mpdata_fct_?d.hpp', L + 'bcond/*.hpp'],
     [('flux divergence', L + 'formulae/donorcell_formulae.hpp'), ('limited fluxes', L + 'solvers/detail/mpdata_fct_?d.hpp')],
     'abstract interpretation with global value numbering: the budget of a window of faces is proved to vanish', 'windows of up to 3x3 cells; one step')
prop('C13', 'Sources are integrated by the scheme selected',
     'With euler_a, euler_b and trapez a step is exactly the documented composition of source terms around one advection step, the sources being evaluated at the documented time levels with the documented time step, and fields declared to have none get none.',
     ['inputs', 'configurations'], 'every field, time- and space-dependent linear source, flow and domain size',
     'Tests integrate a few constant or linear sources and compare with tolerances wider than the splitting error.',
     [L + 'solvers/mpdata_rhs.hpp', L + 'solvers/detail/solver_common.hpp'],
     [('time levels of sources', L + 'solvers/mpdata_rhs.hpp')],
     'abstract interpretation with global value numbering: comparison with the composition of source terms and the advection-only program', 'two steps; sources linear in the field')
prop('C14', 'Solvers that carry their own velocity advect with it',
     'The advector is the carried velocity extrapolated to the middle of the step and averaged to the faces (times the G factor; momentum divided by thickness for shallow water, zero where dry), its time differences feed the third-order terms, and absorbers relax it explicitly or implicitly as documented; '
     'shallow-water momentum is driven by -g h grad h.',
     ['inputs', 'configurations'], 'every field, parameter and domain size, every registered velocity-carrying solver',
     'A wrong time level, a missing factor or a halved coefficient changes convergence rates of a few tests slightly, within their tolerance.',
     [L + 'solvers/mpdata_rhs_vip.hpp', L + 'solvers/detail/mpdata_rhs_vip_common.hpp', L + 'solvers/shallow_water.hpp'],
     [('extrapolation and interpolation', L + 'solvers/mpdata_rhs_vip.hpp'), ('absorber', L + 'solvers/detail/mpdata_rhs_vip_common.hpp')],
     'abstract interpretation with global value numbering: comparison with a specification composed from the advection-only program', 'two steps (one in 3D); next to non-cyclic boundaries only interior cells')
prop('C15', 'The pressure solvers return the velocity they tested',
     'When a pressure solver stops, the residual it tested is, cell by cell, the divergence of the velocity it hands back; it stops only when the largest absolute residual is within the tolerance; what it subtracts is the gradient of a scalar, and the next step starts with that same gradient.',
     ['inputs', 'configurations'], 'every field, G factor, absorber, tolerance and domain size; every registered pressure solver, subgrid and Boussinesq combination',
     'Tests see a small divergence reported by the solver itself; an incrementally updated residual that drifts from the true one is invisible to them.',
     [L + 'solvers/detail/mpdata_rhs_vip_prs_common.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_mr.hpp', L + 'formulae/nabla_formulae.hpp', L + 'bcond/*.hpp'],
     [('residual recursion', L + 'solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp'), ('laplacian', L + 'solvers/detail/mpdata_rhs_vip_prs_common.hpp')],
     'abstract interpretation with global value numbering: the residual array is proved equal to the divergence of the returned velocity', 'one and two iterations of the solver')

prop('C24', 'Flux correction keeps every cell within the range of its surroundings',
     'With flux correction each antidiffusive flux is multiplied by the largest factor up to one for which no cell can leave the range spanned by itself and its nearest neighbours before the step and after the first pass: '
     'factor = min(1, room below the maximum of the receiver over its total inflow, room above the minimum of the giver over its total outflow). Fluxes that need no limiting are left alone, and the limited fluxes are exchanged without loss.',
     ['inputs', 'configurations'], 'every field, flow, G factor and grid size; one to three dimensions; infinite-gauge and sign-preserving option sets with and without third-order and divergent-flow terms',
     'Overshoots appear only where extremes and strong antidiffusion meet; tests compare sums and norms of a few smooth fields.',
     [L + 'formulae/mpdata/formulae_mpdata_fct_1d.hpp', L + 'formulae/mpdata/formulae_mpdata_fct_2d.hpp', L + 'formulae/mpdata/formulae_mpdata_fct_3d.hpp', L + 'solvers/detail/mpdata_fct_1d.hpp', L + 'solvers/detail/mpdata_fct_2d.hpp', L + 'solvers/detail/mpdata_fct_3d.hpp'],
     [('extremes of the neighbourhood', L + 'solvers/detail/mpdata_fct_?d.hpp fct_init'), ('limiting factors', L + 'formulae/mpdata/formulae_mpdata_fct_?d.hpp beta_up, beta_dn, GC_mono')],
     'abstract interpretation with global value numbering: limited, unlimited and first-pass programs related face by face', 'one corrective iteration; fluxes around one symbolic cell')

prop('C16', 'Buoyancy, heating and absorbers are integrated trapezoidally with the pressure',
     'One step of the Boussinesq and absorber solvers is the trapezoidal rule: the velocity at its end differs from the advected one by half a step of buoyancy and absorber evaluated at its end plus a pressure gradient; '
     'the temperature by half a step of the background stratification, heat source and relaxation; and the next step starts from the mirrored state (twice the new minus the advected one). In the implicit form buoyancy and stratification see the same new state.',
     ['inputs', 'configurations'], 'every velocity, temperature, environment profile, heat flux, absorber, G factor, time step and grid size; two and three dimensions, implicit and explicit buoyancy, filtered or not',
     'The tests compare a handful of stored results after many steps; a coefficient, sign or time level that is slightly off passes for a different discretisation.',
     [L + 'solvers/detail/boussinesq_impl.hpp', L + 'solvers/detail/boussinesq_expl.hpp', L + 'solvers/detail/boussinesq_common.hpp', L + 'solvers/detail/mpdata_rhs_vip_common.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_common.hpp'],
     [('implicit coupling of buoyancy and temperature', L + 'solvers/detail/boussinesq_impl.hpp'), ('explicit buoyancy', L + 'solvers/detail/boussinesq_expl.hpp'), ('absorber', L + 'solvers/detail/mpdata_rhs_vip_common.hpp')],
     'abstract interpretation with global value numbering: the discrete curl of (new - advected - forces) is proved zero and the temperature update is proved equal to the rule', 'one iteration of the solver')

prop('C21', 'The subgrid force is the divergence of viscosity times deformation',
     'At the start of a step each velocity component receives one time step times the divergence of the subgrid stress and nothing else from the subgrid model: stress is twice viscosity times the symmetric (for compact differencing also trace-corrected) velocity gradient, '
     'viscosity is constant (dns) or the Smagorinsky expression of deformation, grid spacing or mixing length and Richardson number. Rigid walls exert no tangential stress, the ground exerts the drag law and the prescribed heat flux, cyclic edges are seamless, '
     'and temperature changes by the divergence of the matching heat flux.',
     ['inputs', 'configurations'], 'every velocity, temperature, density factor, viscosity constant, spacing and grid size; two and three dimensions, centred, Pade and compact differencing, constant, isotropic and anisotropic Smagorinsky viscosity, with and without buoyancy',
     'The tests compare stored statistics of a few flows; a component scaled by the wrong viscosity or a wrong wall value changes those little or not at all.',
     [L + 'formulae/stress_formulae.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_sgs_common.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_sgs_dns.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_sgs_smg.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_sgs_smgani.hpp', L + 'solvers/detail/boussinesq_sgs_common.hpp', L + 'bcond/rigid_2d.hpp', L + 'bcond/gndsky_2d.hpp', L + 'bcond/gndsky_3d.hpp'],
     [('stress divergence', L + 'formulae/stress_formulae.hpp'), ('order of exchanges and multiplications', L + 'solvers/detail/mpdata_rhs_vip_prs_sgs_common.hpp'), ('heat flux', L + 'solvers/detail/boussinesq_sgs_common.hpp')],
     'abstract interpretation with global value numbering: the change at the start of the step is proved equal to an independent reference of the stress divergence', 'first step; the velocity it starts from is arbitrary')

prop('C17', 'Writers are handed the model state at the recorded time',
     'A writer is given, for every listed variable, the complete state of the model at the time it is told: the initial state before the first step, then with a fixed time step the state after every step whose number is a multiple of outfreq from outstart on '
     '(and the outwindow-1 steps that follow); with a variable time step the linear or quadratic Lagrange interpolant of the states at the surrounding steps at each multiple of outfreq. start() precedes all records, nothing else is recorded, and attaching a writer does not change the run.',
     ['inputs', 'histories', 'configurations'], 'every field, flow, time step sequence, output interval and start',
     'Tests look at files written for one interval and smooth fields; an interpolation weight, a stale level or a shifted step is invisible in them.',
     [L + 'output/detail/output_common.hpp', L + 'solvers/detail/solver_common.hpp'],
     [('recording decisions and interpolation', L + 'output/detail/output_common.hpp'), ('step accounting', L + 'solvers/detail/solver_common.hpp')],
     'guard extraction and complete evaluation over a finite parameter range; abstract interpretation with global value numbering of the data handed to the writer', 'writers derived from output_common, up to four steps; what the HDF5 writer does with the data is C19, gnuplot is not covered')

prop('C18', 'Options and schemes are told apart and reported by name',
     'The advection options are distinct single bits, isset() tests exactly the requested one whatever else is set, and the text recorded for a set of options (opts_string) names exactly those that are set; '
     'every scheme (right-hand side, velocity absorber, pressure solver, subgrid model, stress differencing) has a recorded name, its own, so that recorded metadata describe the run.',
     ['configurations'], 'every option alone and in pairs, every scheme',
     'Each test uses one or two combinations; two options sharing a bit, or one reported as another, silently select or record a different scheme.',
     [L + 'opts.hpp', L + 'solvers/mpdata_rhs.hpp', L + 'solvers/mpdata_rhs_vip_prs.hpp', L + 'solvers/mpdata_rhs_vip_prs_sgs.hpp', L + 'solvers/detail/mpdata_rhs_vip_common.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_sgs_common.hpp'],
     [('opts_string', L + 'opts.hpp'), ('scheme names', L + 'solvers/mpdata_rhs.hpp')],
     'static assertions over the enumerators found in the syntax tree; abstract interpretation of opts_string and of the name maps', 'sets of up to two options')

prop('C19', 'HDF5 files hold the state, cell by cell, under the right name and time',
     'Each element of a dataset written by the HDF5 writer is the value of the listed variable in the cell at that position of the grid (row-major, whatever the order in memory), serially and with several processes, whose parts tile the dataset; '
     'the same holds for the coordinates, the metric factor and auxiliary arrays (with halo, surface, profile). There is one file per recorded step, named after the step, with exactly the listed variables, and the time coordinate has one entry per record, equal to its time; recorded parameters have the values in use.',
     ['inputs', 'configurations', 'histories'], 'every grid size, flow, output interval, start and window, number of processes',
     'Tests compare files of one run with stored ones, mostly serial, with smooth symmetric fields; a shifted hyperslab on one process or a transposed buffer needs another decomposition or shape.',
     [L + 'output/hdf5.hpp', L + 'output/detail/output_common.hpp'],
     [('selections and buffers', L + 'output/hdf5.hpp'), ('time coordinate', L + 'output/hdf5.hpp')],
     'abstract interpretation with global value numbering of the writer on a stand-in for the HDF5 interface', 'up to 3 processes; fixed time step up to 8 steps for the time coordinate')

# outside the reach of static analysis here ---------------------------------------------------------------------------------
prop('N01', 'The pressure solvers converge',
     'For every flow and every supported boundary the iterative pressure solvers reach the tolerance in finitely many iterations.',
     ['inputs'], 'every right-hand side, grid size and tolerance', 'Tests run a few flows to convergence.',
     [L + 'solvers/detail/mpdata_rhs_vip_prs_gcrk.hpp', L + 'solvers/detail/mpdata_rhs_vip_prs_mr.hpp'], [('iteration', L + 'solvers/detail/mpdata_rhs_vip_prs_common.hpp')],
     na='depends on the spectrum of an operator built from run-time data and on rounding; no static bound on the number of iterations is in reach. What does not depend on it (the residual is the true one, the stopping test, what is returned) is C15.')
prop('N02', 'A non-negative field stays non-negative for Courant numbers up to one',
     'Sign preservation of the iterated scheme without flux correction for every flow that satisfies the Courant condition, including rounding.',
     ['inputs'], 'every field and flow with bounded Courant number', 'Tests use a few flows.',
     [L + 'formulae/mpdata/*.hpp'], [('antidiffusive velocities', L + 'formulae/mpdata/formulae_mpdata_*d.hpp')],
     na='an inequality over all real fields with multidimensional cross terms and floating-point epsilon; value numbering proves equalities, and interval arguments over the quotients lose the bound. The limited scheme, where the bound is explicit, is C24.')
prop('N03', 'Global errors converge at the advertised order over finite times',
     'Refining grid and time step together reduces the error of a whole run at second (or third) order.',
     ['inputs', 'histories'], 'every smooth flow', 'Tests measure it for two analytic flows.',
     [L + 'formulae/mpdata/*.hpp'], [('scheme', L + 'formulae/mpdata/formulae_mpdata_*d.hpp')],
     na='needs stability in addition to consistency; stability of a nonlinear scheme on arbitrary flows is not statically decidable here. Consistency (the order of one step) is C11.')
prop('N04', 'Results are bitwise independent of the number of threads and processes',
     'Not only mathematically but bit for bit the same fields for every decomposition.',
     ['configurations'], 'every decomposition', 'Tests compare a few.',
     [L + 'concurr/detail/sharedmem.hpp'], [('reductions', L + 'concurr/detail/sharedmem.hpp')],
     na='the order of additions in global sums and the instructions chosen by the compiler per slab decide the last bits; the source does not. Equality in exact arithmetic is C03.')
prop('N05', 'What is on disk after a crash or stop request is usable',
     'A run that ends early leaves the output of all completed records readable.',
     ['crash_points'], 'every moment', 'Tests never stop a run.',
     [L + 'output/hdf5.hpp', L + 'output/gnuplot.hpp'], [('file handling', L + 'output/hdf5.hpp')],
     na='decided by the HDF5 and operating-system libraries, whose sources are not part of the analysed program. That a stop request ends all threads at the same step is C02.')

def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, *_ in P: f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'absint\'); import cases; cases.tool()"', 'checks': [], 'not_applicable': []}
    for p, tech, note, na in P:
        if na: m['not_applicable'].append({'property': p['id'], 'reason': na}); continue
        m['checks'].append({'property': p['id'], 'quick_cmd': './check %s --quick' % p['id'], 'thorough_cmd': './check %s --thorough' % p['id'], 'technique': 'static analysis: ' + tech, 'level': 'other', 'level_note': note})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()

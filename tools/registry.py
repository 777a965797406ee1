#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: `python3 tools/registry.py` rewrites both."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
T150 = ("The 170 regression runs are linear_wave, cpaw, shock tubes and field_loop on single-process uniform Cartesian "
        "grids, judged only by exit status and the word WARNING; ")


def prop(id, title, statement, over, qtext, why, files, mech, tech, note, level="exploration", state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, tech=tech, note=note, level=level, state=state, observe=observe, hook=hook))


prop("C01", "Mass, momentum, energy, scalars and flux are conserved in closed boxes",
     "In a fully periodic Cartesian box on a uniform grid, total mass, every momentum component, total energy (adiabatic gas), each "
     "passive scalar and the volume-integrated magnetic field stay constant to accumulated round-off at every timestep, for every "
     "integrator, reconstruction order, Riemann solver, equation of state, dimensionality and special-relativistic mode. "
     "Without magnetic field, reflecting walls also conserve mass, scalars and energy, and with a static gravitational potential gas energy plus potential energy is conserved. Steps in which the relativistic scheme has to repair an unphysical cell are excepted.",
     ["inputs", "configurations", "histories"],
     "all initial states the solver can evolve (smooth, shocked, sheared, random), all solver/option combinations that build, all step counts",
     T150 + "totals are never summed.",
     ["src/integrators/*.c", "src/rsolvers/*.c", "src/bvals_mhd.c", "src/reconstruction/*.c"],
     [("flux-form update: each face flux is added to one cell and subtracted from its neighbour", "src/integrators/integrate_{1,2,3}d_{ctu,vl,vl_sr}.c"),
      ("energy source term from mass flux times potential difference", "src/integrators/integrate_3d_ctu.c")],
     "runtime conservation monitor in a problem generator over random workloads",
     "Held on the runs listed in the evidence; drift tolerance is a multiple of double round-off.")

prop("C02", "The magnetic field stays divergence-free",
     "If the initial face-centred magnetic field is discretely divergence-free, then after every timestep the discrete divergence in every "
     "active cell is zero to round-off, and each cell-centred field component equals the average of the two bounding face values. "
     "This holds for every integrator, reconstruction and Riemann solver, in 2D and 3D, Cartesian and cylindrical, with any standard boundary condition, "
     "with explicit resistivity (Ohmic, Hall, ambipolar), and in special relativity.",
     ["inputs", "configurations", "histories"],
     "all divergence-free initial fields and flows, boundary conditions and MHD options, every step",
     T150 + "divergence is never computed by a test.",
     ["src/integrators/integrate_2d_ctu.c", "src/integrators/integrate_3d_ctu.c", "src/integrators/integrate_2d_vl.c", "src/integrators/integrate_3d_vl.c",
      "src/integrators/integrate_2d_vl_sr.c", "src/integrators/integrate_3d_vl_sr.c", "src/microphysics/resistivity.c", "src/bvals_mhd.c"],
     [("constrained transport: face fields updated by differences of edge EMFs", "src/integrators/integrate_3d_ctu.c"),
      ("resistive EMF added as a curl", "src/microphysics/resistivity.c")],
     "runtime div(B) and cell/face-average monitor in a problem generator",
     "Held at every step of the listed runs; threshold is relative to |B|/dx times round-off.")

prop("C03", "Solutions converge to the exact ones at the design order",
     "For any smooth periodic flow in one, two or three dimensions (hydrodynamic, MHD or relativistic, adiabatic or isothermal, with passive scalars and with or without a static gravitational potential), "
     "refining the grid reduces the error of every variable against the exact solution at close to second order for every second- and third-order scheme (the H-correction lowers this), and at first order for first-order reconstruction. "
     "For one-dimensional hydrodynamic Riemann problems and for travelling MHD shocks the solution converges to the exact one as the grid is refined, whichever integrator, reconstruction and Riemann solver is selected.",
     ["inputs", "configurations"],
     "all smooth flows, directions, background states, Riemann data, shock strengths and solver options",
     T150 + "the linear wave error the runs compute is never compared with anything.",
     ["src/integrators/*.c", "src/reconstruction/*.c", "src/rsolvers/*.c"],
     [("second-order predictor/corrector with limited piecewise-linear/parabolic states", "src/reconstruction/lr_states_*.c"),
      ("directionally unsplit corner transport / van Leer", "src/integrators/integrate_*.c")],
     "runs on refined grids judged by an independent exact-solution oracle",
     "Thresholds on error and order have wide margins; a loss of accuracy inside the margin is not seen.")

prop("C04", "Evolution commutes with axis permutations, reflections and translations",
     "Permuting the coordinate axes of an initial state, mirroring it along any axis, or shifting it by whole cells in a periodic box, and then evolving it, gives the "
     "correspondingly permuted, mirrored or shifted result to round-off. A plane-parallel state gives the same profile whether it is evolved along x1, x2 or x3 and "
     "whether in 1D, 2D or 3D (the multidimensional H-correction excepted).",
     ["inputs", "configurations"],
     "all initial states, all permutations, mirrors and shifts, all Cartesian solver options",
     T150 + "no two runs are ever compared with each other.",
     ["src/integrators/*.c", "src/bvals_mhd.c", "src/new_dt.c", "src/reconstruction/*.c", "src/rsolvers/*.c"],
     [("each direction's sweep is the same algorithm on rotated variables", "src/integrators/integrate_{2,3}d_*.c")],
     "metamorphic monitor comparing final states of transformed runs",
     "Comparison tolerance covers round-off amplification over the steps taken.")

prop("C05", "Uniform states and uniform tracer concentrations are preserved",
     "A spatially uniform gas moving in any direction, with any uniform magnetic field, stays uniform and unchanged to round-off under periodic, outflow or velocity-compatible "
     "boundaries on any mesh (refined, decomposed or cylindrical with zero in-plane motion), with any explicit diffusion, and a passive scalar whose concentration is uniform stays uniform in an arbitrary flow. "
     "A density jump in gas of uniform velocity, pressure and field (a contact) keeps them uniform.",
     ["inputs", "configurations"],
     "all uniform states, boundary types, meshes and solver options; all flows for the tracer clause",
     T150 + "steady states are never run.",
     ["src/integrators/*.c", "src/bvals_mhd.c", "src/smr.c", "src/microphysics/*.c", "src/reconstruction/*.c"],
     [("consistent fluxes and reconstruction of constants", "src/reconstruction/*.c")],
     "runtime deviation monitor on uniform states",
     "Round-off tolerance; held on the listed runs.")

prop("C06", "A restarted run is indistinguishable from an uninterrupted one",
     "Stopping at any restart dump and restarting from it reproduces, bit for bit, the state, time, step count, timestep sequence, particles, potential and subsequent output files of the run that was not interrupted, "
     "in serial and with MPI, with or without mesh refinement, scalars, self-gravity, particles, shearing box and explicit diffusion. "
     "Command-line overrides given on restart take effect, user data written to the restart file is returned intact, and a restart file that was cut short is refused with an error. Two exceptions to bitwise equality: round-off in the cell-centred field in cylindrical coordinates, and the convergence error of the iterative multigrid solver; output intervals shorter than a timestep are outside the claim.",
     ["histories", "crash_points", "configurations"],
     "every dump time, every physics combination, every decomposition, repeated restarts",
     T150 + "no test restarts.",
     ["src/restart.c", "src/main.c", "src/output.c", "src/par.c"],
     [("all evolved state and parameters are written to the restart file and read back", "src/restart.c"),
      ("output counters and next-output times are saved in the parameter block", "src/output.c")],
     "crash/restart differential monitor comparing raw state and output files bitwise",
     "Held on the dump points and configurations listed.", level="fault_enumeration")

prop("C07", "Results do not depend on domain decomposition or message timing",
     "For any way of dividing the mesh over MPI processes (including processes that hold Grids of several refinement levels), and any message timing, the evolved gas, field, tracer, potential and particle data, the timesteps and the history sums are the same as in a single-process run up to round-off. "
     "Repeating a parallel run with different message delays gives identical results, and no decomposition deadlocks.",
     ["schedules", "configurations", "inputs"],
     "all decompositions (including uneven ones and automatic), boundary conditions, physics options and message orderings",
     T150 + "MPI builds are compiled but never run.",
     ["src/bvals_mhd.c", "src/bvals_shear.c", "src/init_mesh.c", "src/init_grid.c", "src/smr.c", "src/gravity/bvals_grav.c", "src/particles/bvals_particle.c", "src/fftsrc/*.c"],
     [("ghost-zone exchange through packed non-blocking messages", "src/bvals_mhd.c"),
      ("global reductions of the timestep", "src/new_dt.c")],
     "decomposition-differential runs with PMPI delay injection",
     "Timeouts are inconclusive unless repeated; tolerance is round-off.")

prop("C08", "Every timestep respects the stability limit and the end time",
     "At every step, on every level and process, the timestep is no larger than the Courant number times the shortest time any fluid signal (flow plus sound, Alfven, fast or relativistic wave speed) takes to cross a cell in any active direction, and no larger than the explicit-diffusion limit when super-timestepping is off, computed from the state at the start of the step. "
     "It never grows by more than a factor of two per step, is positive, and the run ends exactly at the requested final time; the step is not needlessly reduced below the Courant value (with mesh refinement the largest signal speed anywhere and the smallest cells together may set the limit).",
     ["inputs", "configurations", "histories"],
     "all states (any sign of velocity and field), all physics options, all steps",
     T150 + "the step is never checked against the state.",
     ["src/new_dt.c", "src/microphysics/new_dt_diff.c", "src/main.c"],
     [("minimum over active cells of dx/(|v|+c) times the Courant number", "src/new_dt.c"), ("diffusive limit", "src/microphysics/new_dt_diff.c")],
     "online timestep monitor with independently computed signal speeds",
     "Held at each monitored step.")

prop("C09", "Input parameters are honoured exactly and parsing is memory-safe",
     "The value returned for a block/name is the last one given in the file, overridden by the command line; requesting an absent required value or overriding an unknown one is reported as an error, defaults apply only to absent values, and comments, blank space and order of blocks do not change any value. "
     "Writing the parameter set and reading it back yields the same values, and no parameter file or command line, however malformed, makes the parser access memory out of bounds.",
     ["inputs", "histories"],
     "all parameter files and command lines, and all sequences of get, default, set and dump calls",
     T150 + "the tests use a dozen well-formed input files.",
     ["src/par.c", "src/main.c"],
     [("linked list of blocks and parameters", "src/par.c")],
     "sanitized model-based harness and fuzzing of the parser with an independent reference parser",
     "ASan/UBSan on generated files; reference semantics written from the documented format.")

prop("C10", "Output files report the simulation state faithfully",
     "Every output file (VTK, binary, tabular, history, PDF, PGM/PPM image, single-variable slice or average, user expression) contains exactly the state in memory at that moment: right variables, right cells, right coordinates, time and numbers to the printed precision, for all levels, domains and processes. "
     "History volume integrals and slices or averages over a coordinate range equal the sums over precisely those cells, and conserved and primitive outputs are consistent with each other.",
     ["inputs", "configurations", "histories"],
     "all states, output types, variables, ranges, reductions, meshes and decompositions",
     T150 + "output files are never read.",
     ["src/output.c", "src/dump_*.c", "src/output_*.c", "src/particles/output_particle.c"],
     [("format writers", "src/dump_vtk.c, src/dump_binary.c, src/dump_tab.c, src/dump_history.c"),
      ("slicing and reduction", "src/output.c")],
     "offline checker with independent format readers against a raw dump of the state",
     "Held on the generated outputs.")

prop("C11", "Outputs, limits and signals follow the requested schedule",
     "Each output is written at the start, then at the first step whose time reaches each multiple of its interval, and at the end, with consecutively numbered file names and never overwriting an earlier dump; output settings never alter the evolution. "
     "A run stops at its time limit, step limit or wall-clock limit, or on a termination signal (whenever it arrives, on any one process, also while that process waits for the others), after completing the current step and writing all final outputs and a usable restart file.",
     ["histories", "inputs", "fault_sequences"],
     "all sets of output blocks and intervals, step/time limits, and signal arrival times",
     T150 + "schedules, limits and signals are never examined.",
     ["src/output.c", "src/main.c", "src/ath_signal.c", "src/ath_files.c"],
     [("next-output time and dump counters", "src/output.c"), ("signal flag polled once per step", "src/ath_signal.c")],
     "trace checker over recorded step history and produced files; signal injection",
     "Wall-clock limits are judged with generous slack.")

prop("C12", "No memory error or undefined behaviour on any valid run",
     "For every configuration that builds and any valid input, a run performs no out-of-bounds access, use of freed or uninitialised memory, invalid free, integer or shift overflow, misaligned or null access, or invalid conversion, from start-up to normal exit. "
     "Invalid input is refused with a diagnostic rather than a crash.",
     ["inputs", "configurations"],
     "all configurations, mesh shapes down to the smallest, output sets, and invalid inputs",
     T150 + "and run without sanitizers.",
     ["src/*.c", "src/*/*.c"],
     [("array allocation sizes and loop bounds agree", "src/ath_array.c, src/init_grid.c, src/*/*_init")],
     "AddressSanitizer/UndefinedBehaviorSanitizer and valgrind over the configuration matrix",
     "Red-zone tools miss intra-object and far overflows; only executed paths are judged.")

prop("C13", "Mesh refinement is conservative and consistent between levels",
     "On any legal hierarchy of refined regions in a periodic box, total mass, momentum, energy and scalars over the finest available cells are conserved to round-off, every coarse cell covered by a finer region holds the average of the fine cells, and the magnetic field is divergence-free on every level with coarse face fluxes equal to the sum of the fine ones. "
     "A flow that is uniform stays so across level boundaries, and a smooth flow crosses a level boundary with second-order small error: the ghost zones of a refined region continue a profile that is linear in space exactly.",
     ["inputs", "configurations", "histories"],
     "all legal refinement layouts (levels, several regions per level, regions touching the mesh edge), flows and fields, every step, serial and MPI",
     T150 + "mesh refinement is compiled but never run.",
     ["src/smr.c", "src/main.c", "src/bvals_mhd.c", "src/init_mesh.c", "src/init_grid.c", "src/integrators/*.c"],
     [("restriction and flux/EMF correction", "src/smr.c RestrictCorrect"), ("divergence-free prolongation", "src/smr.c Prolongate")],
     "runtime multi-level conservation/restriction/div(B) monitor",
     "Held on the listed hierarchies.")

prop("C14", "Particles are neither lost, duplicated nor given momentum from nothing",
     "With periodic boundaries every particle present initially is present exactly once, with its identity and type unchanged, at every step and on exactly one process; particles obey their equation of motion (ballistic without drag, exponential velocity relaxation in uniform gas), and with feedback total gas-plus-particle momentum is conserved. "
     "Particles leaving through open boundaries disappear exactly once. Reflecting walls return particles, and their feedback on the gas, as the mirror image would.",
     ["inputs", "configurations", "histories", "schedules"],
     "all particle populations, stopping times, integrators, interpolation schemes, boundary conditions and decompositions",
     T150 + "particles are compiled but never run.",
     ["src/particles/*.c", "src/integrators/integrate_*d_ctu.c"],
     [("boundary and exchange bookkeeping", "src/particles/bvals_particle.c"), ("semi-implicit/explicit/fully implicit drag", "src/particles/integrators_particle.c")],
     "runtime exactly-once particle ledger and momentum monitor",
     "Held on the listed runs.")

prop("C15", "Riemann solvers return consistent, upwind, mirror-symmetric fluxes",
     "For any admissible left and right states every Riemann solver returns a finite flux that equals the physical flux when the states agree, equals the upwind flux for supersonic flow in either direction, and transforms correctly when left and right are mirrored or the transverse axes are exchanged. "
     "Passive scalars go with the mass flux from the upwind side. The exact solvers return the flux of the exact Riemann solution; Roe, HLLC, HLLD and the exact solvers keep contacts unsmeared (except relativistic HLLD, which may fall back on HLL), "
     "and for weak jumps their flux agrees to first order with the linearised solution (HLLE and FORCE: with their two-wave average). The iterative relativistic HLLD and exact solvers hold this within their iteration tolerance.",
     ["inputs", "configurations"],
     "all pairs of physical states including near-vacuum, strong shocks, degenerate fields and relativistic speeds",
     T150 + "solvers are never called on chosen states.",
     ["src/rsolvers/*.c"],
     [("wave-speed estimates and intermediate states", "src/rsolvers/*.c")],
     "instrumented direct-call harness with metamorphic and analytic oracles",
     "Held on the sampled state pairs.")

prop("C16", "Variable conversion, wave speeds and eigensystems are mutually consistent",
     "Converting any physical state from primitive to conserved variables and back returns the original values to round-off, including relativistic gas at high Lorentz factor and strong fields, and the two conversion paths (full and one-dimensional) agree (relativistic MHD beyond Lorentz factor 10 may report failure instead of inverting, never a wrong state). "
     "Fast wave speeds and the eigenvalues/eigenvectors used by the schemes satisfy their defining equations.",
     ["inputs", "configurations"],
     "all physical states including degenerate fields, extreme density/pressure ratios and Lorentz factors",
     T150 + "conversion is never checked on its own.",
     ["src/convert_var.c", "src/rsolvers/esystem_roe.c", "src/reconstruction/esystem_prim.c"],
     [("algebraic and Newton-Raphson inversions", "src/convert_var.c")],
     "direct-call harness with independent algebra as oracle",
     "Held on the sampled states.")

prop("C17", "Self-gravity solves Poisson's equation and exerts no net force",
     "For any density field, the gravitational potential computed by the periodic and disk solvers satisfies the discrete Poisson equation to round-off, independent of decomposition; the open-boundary solver does so up to a uniform source and the multigrid solver after enough calls, and their potentials approximate that of an isolated body. "
     "The gas feels the acceleration minus the gradient of the potential and gains energy at the rate it does work. In a periodic box self-gravity changes no total mass, no total momentum, and no sum of gas energy and gravitational energy, to round-off, and relabelling the axes changes nothing.",
     ["inputs", "configurations"],
     "all density fields, dimensions, grid shapes, solvers and decompositions",
     T150 + "self-gravity is compiled but never run.",
     ["src/gravity/*.c", "src/fftsrc/*.c", "src/integrators/*.c"],
     [("FFT with discrete Green's function, multigrid relaxation", "src/gravity/selfg_*.c"), ("momentum source as gravitational stress divergence", "src/integrators/integrate_3d_ctu.c")],
     "runtime Poisson-residual and momentum monitor with independent numpy solver",
     "Open-boundary and multigrid solvers are judged to their truncation/convergence accuracy.")

prop("C18", "Shearing boxes conserve what they should and follow their equations",
     "In a 3D shearing box mass, mean vertical momentum and the mean radial and vertical field are conserved to round-off, the mean azimuthal field grows only by shear of the mean radial field, and the field stays divergence-free, with and without orbital advection, however far the images have slid. "
     "Epicyclic motion of uniform gas follows the analytic solution, smooth flows (gas, field and tracers; 2D r-phi, 2D r-z and 3D) converge to the solution of the shearing-sheet equations at the order of the scheme, and in 2D and for tracers totals are kept to truncation error.",
     ["inputs", "configurations", "histories"],
     "all flows, fields, shear rates, box shapes (2D and 3D), reconstruction orders, with/without orbital advection, many shearing periods",
     T150 + "the shearing box is compiled but never run.",
     ["src/bvals_shear.c", "src/integrators/integrate_2d_ctu.c", "src/integrators/integrate_3d_ctu.c", "src/integrators/integrate_3d_vl.c"],
     [("conservative remap of ghost zones and boundary fluxes/EMFs", "src/bvals_shear.c")],
     "runtime conservation/div(B)/mean-field monitor, analytic epicycle, and spectral solution of the shearing-sheet equations in shearing coordinates as oracle",
     "Held on the listed runs; the code corrects the boundary fluxes only of mass and EMFs and only in 3D, so round-off conservation is claimed only there.")

prop("C19", "Boundary conditions fill ghost zones as specified",
     "Before every step, ghost zones hold the wrapped values for periodic boundaries, the mirrored values with the normal velocity (and appropriate field component) reversed for reflecting and conducting boundaries, and the nearest active values for outflow, on every face including edges and corners. "
     "Reflecting walls pass no mass, energy or tracer, and user-supplied boundary functions are used in place of the defaults on exactly the requested face.",
     ["inputs", "configurations"],
     "all states, all combinations of boundary flags on the six faces, dimensions, gas types and decompositions",
     T150 + "ghost zones are never inspected.",
     ["src/bvals_mhd.c", "src/gravity/bvals_grav.c", "src/main.c"],
     [("per-face boundary functions selected from integer flags", "src/bvals_mhd.c")],
     "ghost-zone monitor against a reference fill written in numpy",
     "Held on the sampled flag combinations.")

prop("C20", "Explicit diffusion conserves, dissipates and decays at the analytic rate",
     "Viscosity, thermal conduction (isotropic and along the field) and resistivity conserve mass, momentum and total energy in a periodic box, and sinusoidal shear, temperature and field perturbations decay at the analytic diffusive rate, with and without super-timestepping. "
     "The instantaneous rate of change of any smooth state is the divergence of the textbook viscous stress, heat flux or resistive electric field (Ohmic, Hall, ambipolar), isotropic or along the field, with an error that vanishes under refinement. Heat flows from hot to cold, anisotropic fluxes follow the field, and zero coefficients change nothing.",
     ["inputs", "configurations", "histories"],
     "all states and coefficients in the stable range, all directions and dimensions",
     T150 + "diffusion is compiled but never run.",
     ["src/microphysics/*.c", "src/main.c"],
     [("flux-form explicit updates", "src/microphysics/{viscosity,conduction,resistivity}.c"), ("super-timestepping", "src/main.c, src/microphysics/new_dt_diff.c")],
     "runtime conservation monitor and analytic decay-rate oracle",
     "Decay rates judged with truncation-error margins.")

prop("C21", "Cylindrical-coordinate runs conserve and balance correctly",
     "In cylindrical coordinates total mass, energy, vertical momentum, scalars and angular momentum about the axis are conserved to round-off while nothing crosses the radial boundaries, the field stays divergence-free, and uniform gas at rest stays at rest. "
     "Smooth flows (1D, 2D, 3D; gas, field, tracers; with a static potential, in a rotating frame, with orbital advection) converge to the solution of the equations in cylindrical coordinates at the order of the scheme.",
     ["inputs", "configurations", "histories"],
     "all flows, fields, radial ranges, dimensions and solvers",
     T150 + "cylindrical coordinates are compiled but never run.",
     ["src/integrators/*.c", "src/cc_pos.c", "src/utils.c", "src/reconstruction/*.c", "src/dump_history.c"],
     [("area/volume weighted flux differences and geometric sources", "src/integrators/integrate_{1,2,3}d_{ctu,vl}.c")],
     "runtime volume-weighted budget monitor and a spectral solution of the cylindrical equations as oracle",
     "Compared where no signal from the radial boundaries can have arrived; rotating frame with the CTU integrator only.")

prop("C22", "Joining per-process dumps reproduces the single-process dump",
     "Joining the per-process VTK files of any parallel run gives a file with exactly the same cells, variables and values as the dump of the single-process run, for any decomposition, variable set, argument order and process count, and the per-process files overlap nowhere and leave no gap. "
     "Malformed, truncated or repeated pieces, pieces of another dump, and missing pieces that leave a gap are reported with a non-zero exit status, not silently joined.",
     ["inputs", "configurations"],
     "all decompositions, dump contents and file sets",
     T150 + "the join tools are compiled but never run.",
     ["vis/vtk/join_vtk.c", "src/dump_vtk.c", "src/output_vtk.c"],
     [("block placement from each file's origin and dimensions", "vis/vtk/join_vtk.c")],
     "offline checker on joined files, sanitized tool build",
     "Held on the generated file sets.")

prop("C23", "Cooling and heating follow their prescribed rates",
     "Optically thin cooling changes only internal energy: with a cooling function enrolled (CTU integrators) smooth flows converge to the solution of the equations with that source term, and a zero rate changes nothing; with the operator-split solver every cell follows the interstellar cooling curve within the accuracy of one implicit step, no cell changes by more than 10% in a step, gas in thermal equilibrium stays there, and the temperature never falls below the 10 K floor or becomes undefined. "
     "The Koyama-Inutsuka rate equals its published formula away from its floor and never takes the temperature below zero in one step.",
     ["inputs", "configurations"],
     "all densities, temperatures, cooling functions and step sizes",
     T150 + "cooling is compiled but never run.",
     ["src/microphysics/cool.c", "src/microphysics/cool_solver.c", "src/microphysics/integrate_cooling.c", "src/integrators/*.c"],
     [("implicit/adaptive integration of the energy equation", "src/microphysics/cool_solver.c")],
     "spectral reference with the source term, and independent ODE solution of every cell step by step",
     "Single-level operator-split cooling without scalars.")

prop("C24", "Shared numerical utilities meet their contracts",
     "Array allocators return zeroed, correctly strided storage of the requested shape; greatest common divisor, byte swapping, min/max, root bracketing and bisection, quadrature, cell averaging, matrix inversion, ODE integration and coordinate/cell-index maps return what their documentation says for every admissible argument. "
     "Cell-index maps invert the cell-position functions, file names are composed of the given parts without truncation, and the L1 error report holds the norms of the difference of the two solutions over the whole Domain, whatever its decomposition.",
     ["inputs"],
     "all admissible arguments",
     T150 + "utilities are exercised only indirectly.",
     ["src/utils.c", "src/ath_array.c", "src/cc_pos.c", "src/ath_files.c", "src/units.c"],
     [("library routines", "src/utils.c")],
     "sanitized direct-call harness with reference results",
     "Held on the sampled arguments.")

prop("C25", "Fourier transforms equal the discrete transform on any decomposition",
     "A forward, backward or forward-backward transform through the Athena FFT interface gives every cell of the Domain the value of the unnormalised discrete Fourier transform of the global array, to round-off, whatever the array size, the dimension (2D or 3D), the refinement level and the division of the Domain into blocks over MPI processes, even or uneven. "
     "The wavenumber macros label each cell with the wavenumber of its coefficient, and plans can be created, interleaved and destroyed in any order without memory errors.",
     ["inputs", "configurations"],
     "all array sizes, decompositions, data and sequences of transforms",
     "No test configures with --enable-fft or runs MPI.",
     ["src/fftsrc/ath_fft.c", "src/fftsrc/fft_2d.c", "src/fftsrc/fft_3d.c", "src/fftsrc/remap_2d.c", "src/fftsrc/remap_3d.c", "src/fftsrc/pack_2d.c", "src/fftsrc/pack_3d.c", "src/fftsrc/factor.c", "src/athena.h"],
     [("remap between pencil layouts", "src/fftsrc/remap_3d.c"), ("one-dimensional transforms of each pencil", "src/fftsrc/fft_3d.c")],
     "sanitized runtime monitor recording every block before and after each transform, compared offline with the global discrete transform",
     "Held on the sampled sizes, decompositions and data.")

prop("C26", "Joining and sorting tools for dumps and particle lists keep every record",
     "join_bin turns the per-process binary dumps of any decomposition, given in any order, into the dump of the whole Domain: coordinates, every variable, and the potential and particle fields when the header announces them. join_lis writes the particles of all pieces exactly once under the header of the whole Domain, and sort_lis reorders a list by (processor, id) without changing a record, for any number of particles including none. "
     "Truncated pieces, missing pieces of a particle list, and binary pieces whose headers disagree are reported with a non-zero exit status.",
     ["inputs"],
     "all decompositions, contents, list lengths, orders and damaged pieces",
     "No test runs the tools.",
     ["vis/matlab/join_bin/join_bin.c", "vis/particle/join_lis.c", "vis/particle/sort_lis.c"],
     [("piece order and copy", "vis/matlab/join_bin/join_bin.c:sort_domain_1d,write_joined_bin"), ("record copy", "vis/particle/join_lis.c"), ("quicksort of the order", "vis/particle/sort_lis.c")],
     "sanitized runs of the tools on generated pieces, byte comparison with an independent result",
     "Held on the generated sets.")


def main():
    claimed = []
    with open(V + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["observe"]:
                a["observe_at"] = list(p["observe"])
            a["hook_needed"] = p["hook"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(f"{V}/checks/{p['id']}.py"):
            cmd = f"python3-vt checks/{p['id']}.py"
            checks.append({"property": p["id"], "quick_cmd": cmd + " --tier quick", "thorough_cmd": cmd + " --tier thorough",
                           "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": NA.get(p["id"], "machinery not built yet")})
    hooks = {"guard": "VP_HOOKS", "enable": "no hooks are needed: monitors enter through the public problem-generator interface; the checks build /repo's src unmodified",
             "source_commits": []}
    json.dump({"version": 1, "setup_cmd": "bash tools/setup.sh", "hooks": hooks, "checks": checks, "not_applicable": na},
              open(V + "/MANIFEST.json", "w"), indent=1)


NA = {}
if __name__ == "__main__":
    main()

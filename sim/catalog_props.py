# The entries of the catalog. See catalog.py.
def define(prop, g):
    SIMMPI, SIMFS, CLOCK, REALMFEM = g["SIMMPI"], g["SIMFS"], g["CLOCK"], g["REALMFEM"]
    ASM_TOL, ASM_SEEDS, ASM_HDR = g["ASM_TOL"], g["ASM_SEEDS"], g["ASM_HDR"]

    prop("L01", "A logged state is read back bit for bit",
         "A state and time that were saved are read back exactly - the same number of entries, each with the same bits - by any later read of that field, "
         "step and rank, in both the text and the binary format. Saves of other fields, steps and ranks, running at the same time or later, "
         "do not change what is read, and saving again replaces the earlier state. A read of something that was never saved reports an error.",
         ["histories", "inputs", "schedules"],
         "every finite value (text) or bit pattern (binary), size (0, 1, many), field name, step and rank; every interleaving of the saves and reads of 1-4 ranks sharing "
         "a directory; short reads and writes and interrupted calls anywhere.",
         "The two logger tests save one small vector and read it back once, in one process, with every call transferring everything.",
         ["src/common/data_logging.hpp"],
         [("file name of a field, step and rank; precision of the text format; layout of the binary format", "src/common/data_logging.hpp: ASCIILogger, BinaryLogger")],
         driver="logging", quick=20,
         rule="A run draws a pool of keys (format, field, step), 1-4 ranks and 2-14 operations per rank, values from a mix of special, extreme and ordinary doubles, and whether "
              "transfers are cut short; every read is compared with a reference model of the directory. Every run is non-trivial: it saves and reads back at least the final contents. "
              "Distinct: by the set of keys with the candidate contents of each.",
         real=["src/common/data_logging.hpp", "MFEM's Vector I/O", "libstdc++ streams"], stub=[SIMFS, SIMMPI, CLOCK],
         assumptions=[ASM_SEEDS, "NaN and infinities are only required to survive in the binary format: the text format cannot express them."],
         technique="save/read histories of several ranks, checked against a model of the directory",
         note="Sampled histories and values against an exact reference model; determinism of each run is confirmed by re-execution.")

    prop("L02", "Disk errors never pass silently through a log",
         "When the disk misbehaves while a state is saved or read - a full disk, a failed, short or torn write, an error reported only at close, an unreadable or "
         "truncated file - either the operation reports an error or what is read later is exactly what was saved; never different data without an error. "
         "An error is reported only when something did go wrong, and once the faults stop, saving and reading work again.",
         ["fault_sequences", "histories", "schedules"],
         "every placement of disk errors (full disk after n bytes, failing open, write, read, mkdir, close, torn writes) over histories of saves and reads by 1-4 ranks.",
         "The tests never see a call fail.",
         ["src/common/data_logging.hpp"],
         [("stream state checked after writing, closing and reading", "src/common/data_logging.hpp: saveState, readState")],
         driver="logging", quick=25,
         rule="As L01, in 1-3 phases each with its own kind of disk fault (quota, write, close, open/mkdir, read, or all) and rate; after each, all entries are read back without faults. "
              "Non-trivial: at least one hard fault was injected. Distinct: by the contents each key may have.",
         real=["src/common/data_logging.hpp", "MFEM's Vector I/O", "libstdc++ streams"], stub=[SIMFS, SIMMPI, CLOCK],
         assumptions=[ASM_SEEDS, "A write error, once met, persists for that open file; bytes that a successful write returned are in the file."],
         technique="disk-fault sequences over save/read histories, checked against a model of the directory",
         note="Sampled fault placements; the oracle knows which operations met a fault, so both silent corruption and spurious errors are detected.")

    prop("L03", "After a crash every log entry is whole, old, or reported",
         "After the job is killed at any point, or the machine loses power, each logged state that is read back is one that was saved there completely, or the read reports an "
         "error: a half-written entry is never taken for a state. Entries that were not being written when the job died are unaffected, and logging works again after a restart.",
         ["crash_points", "histories", "fault_sequences"],
         "every crash point between and inside the file operations of 1-4 ranks that save and read, up to three incarnations, with and without loss of unsynced data.",
         "The tests never crash.",
         ["src/common/data_logging.hpp"],
         [("length recorded ahead of the data (binary) or terminated last entry (text), checked when reading", "src/common/data_logging.hpp: readState")],
         driver="logging", quick=25,
         rule="As L01, but the job is killed at a drawn file operation of any rank; then unsynced file tails may be dropped; the entries are re-read and a new incarnation goes on. "
              "Non-trivial: a rank was inside a save when the job died. Distinct: by the contents each key may have.",
         real=["src/common/data_logging.hpp", "MFEM's Vector I/O", "libstdc++ streams"], stub=[SIMFS, SIMMPI, CLOCK],
         assumptions=[ASM_SEEDS, "Power loss keeps a prefix of a file's unsynced bytes or loses the file; it does not scramble them. Durability of finished saves across power loss is not promised by the code and not required here."],
         technique="crash points and power loss over save/read histories, checked against a model of the directory",
         note="Sampled crash points inside real file operations; only the simulated disk survives.")

    prop("N01", "The line search only accepts steps that reduce the merit function enough",
         "Whatever the merit function returns, a backtracking search ends within its evaluation limit with either a step whose merit is a sufficient decrease or zero, and never "
         "accepts a step whose merit is not a number or infinite. Each trial step is the minimiser of the interpolant of the required order, held within the safeguard factors of the step before; "
         "an error raised by the merit function reaches the caller; and repeating the search repeats its steps.",
         ["inputs", "fault_sequences", "histories"],
         "every merit function shape and scale, every search parameter, and every placement of evaluations that return NaN, infinities, overflow or raise an error.",
         "The existing test checks one slope on one function and never lets an evaluation fail.",
         ["src/common/linesearch.cpp", "src/common/linesearch.hpp"],
         [("sufficient decrease test, quadratic and cubic interpolation, safeguards", "src/common/linesearch.cpp: BacktrackingLineSearch::search, interpQuadratic, interpCubic")],
         driver="newton", quick=15,
         rule="A run makes 1-4 searches on one object with drawn parameters, objective shapes (polynomial, rough, bounded domain, never decreasing ...), scales 1e-12..1e12 and up to two failing evaluations, each twice. "
              "Non-trivial: more than one evaluation. Distinct: by number of evaluations, objective, fault kind and place, and outcome.",
         real=["src/common/linesearch.cpp"], stub=["merit function (generated, with injected failing evaluations)", "heap (filled with garbage before use)"],
         assumptions=[ASM_SEEDS, "The interpolant's minimiser is recomputed in extended precision; ill-conditioned interpolants are only held to the safeguards."],
         technique="histories of searches with failing evaluations, each step checked against a reference interpolant",
         note="Sampled; every step of every search is checked, not only the result.")

    prop("N02", "The merit function is the global residual norm, the same on every rank",
         "The line search's merit function is the norm of the whole distributed residual at the trial state, and its initial slope is the derivative of that norm along the "
         "direction. Every rank obtains the same values, bit for bit, whatever the partition, including ranks that own nothing; the state and direction are left as they were.",
         ["schedules", "configurations", "inputs"],
         "every distribution of the unknowns over 1-4 ranks (empty ranks included), reduction order, nonlinearity, and residuals that are NaN or infinite on one rank only.",
         "The test evaluates it in one process.",
         ["src/common/linesearch.hpp", "src/common/linesearch.cpp", "src/common/relaxed_newton.cpp"],
         [("norm and slope reduced over the communicator", "src/common/linesearch.hpp: Phi")],
         driver="newton", quick=15,
         rule="A run draws a coupled nonlinear system, its distribution, a state, direction and up to 6 steps. Non-trivial: more than one rank. Distinct: by size, distribution, nonlinearity and evaluations.",
         real=["src/common/linesearch.cpp"], stub=[SIMMPI, CLOCK, "residual and Jacobian (generated system, evaluated with simulated communication)"],
         assumptions=[ASM_SEEDS, ASM_TOL, "Reductions deliver the same result to all ranks, as MPI implementations do in practice."],
         technique="partitions, reduction orders and failing residuals, against a serial reference",
         note="Sampled partitions and schedules against a serial reference evaluation.")

    prop("N03", "A parallel Newton solve never stops in disagreement or at a worse state",
         "On any number of ranks and under any message timing a Newton solve ends on all ranks alike - same iterations, norm and verdict, or an error on all - and within its limit. "
         "It reports convergence exactly when the residual at the returned state meets the tolerance, never leaves a non-finite state, and shortens the full step within the given safeguards and limit "
         "until the residual norm has decreased sufficiently - no step that raises it is accepted, even when residual evaluations or the linear solver fail. The converged state does not depend on the number of ranks.",
         ["schedules", "fault_sequences", "configurations", "histories"],
         "every distribution over 1-4 ranks, reduction order and stall; residuals undefined away from the start and visible on one rank only; linear solvers that are inexact, return zero, overshoot or "
         "point uphill; repeated solves on one solver object; both globalised Newton solvers.",
         "The existing line search test runs one solve in one process without failures.",
         ["src/common/relaxed_newton.cpp", "src/common/inexact_newton.cpp", "src/common/linesearch.cpp"],
         [("step length from the globally reduced merit function; convergence test on the global norm", "src/common/relaxed_newton.cpp, src/common/inexact_newton.cpp")],
         driver="newton", quick=20,
         rule="A run draws a system with one root, a distribution, options, 1-3 solves and faults; it is run under the seeded schedule and again on one rank. Non-trivial: more than one rank and at least one iteration. "
              "Distinct: by iterations, verdict, size, ranks and fault.",
         real=["src/common/relaxed_newton.cpp", "src/common/inexact_newton.cpp", "src/common/linesearch.cpp", REALMFEM], stub=[SIMMPI, CLOCK, "residual, Jacobian and linear solver (generated, with injected failures)"],
         assumptions=[ASM_SEEDS, ASM_TOL],
         technique="schedules, partitions and failing evaluations or linear solves, with per-step invariants",
         note="Sampled; each accepted step is checked as the solve proceeds, and the outcome across ranks and against one rank.")

    prop("P01", "Field projections are projections on any partition and after mesh motion",
         "Projecting a field gives a part with zero weak divergence, and the complementary part is a gradient; the parts add up to the field, projecting again changes nothing, and gradients are removed entirely. "
         "This holds on every mesh, however it is distributed, and after the mesh has moved and been announced, as it would for a newly made projector; the input field is unchanged and the result does not depend on the number of ranks.",
         ["configurations", "schedules", "histories", "inputs"],
         "tetrahedral and hexahedral meshes, straight and curved, partitions over 1-4 ranks, orders 1-2, message timing, and histories of projections, mesh movements and unrelated announcements.",
         "No test that can run here exercises the projections.",
         ["src/utils/irrotational_projector.cpp", "src/utils/div_free_projector.cpp", "src/physics/mfem_common_integ.cpp"],
         [("weak divergence, Poisson solve with fixed boundary, gradient, subtraction; rebuilt when the mesh moves", "src/utils/irrotational_projector.cpp: Mult, update; src/utils/div_free_projector.cpp: Mult, setInputs")],
         driver="projector", quick=30,
         rule="A run draws a mesh, its deformation, a partition, an order, and 2-5 steps (project, move the mesh, announce something else). Non-trivial: more than one rank. Distinct: by mesh, partition and steps.",
         real=["src/utils/irrotational_projector.cpp", "src/utils/div_free_projector.cpp", REALMFEM], stub=[SIMMPI, CLOCK, "heap (filled with garbage before use)"],
         assumptions=[ASM_SEEDS, ASM_TOL, ASM_HDR],
         technique="partitions, message schedules and mesh-motion histories, checked with algebraic invariants and against one rank",
         note="Sampled; invariants are checked after every step of every history.")

    prop("P02", "Reverse derivatives of the projections match the projections in parallel",
         "The reverse-mode product with respect to the projected field is the exact transpose of the projection, and the one with respect to the mesh nodes is the derivative of the projected field with the mesh. "
         "Products are added to what the caller passes, nothing is added for an unknown input, and earlier products, projections or mesh movements do not influence later ones.",
         ["configurations", "schedules", "histories", "inputs"],
         "as P01: meshes, partitions, orders, message timing and histories of products, projections and mesh movements.",
         "No test that can run here exercises the derivatives.",
         ["src/utils/irrotational_projector.cpp", "src/utils/div_free_projector.cpp", "src/physics/mfem_common_integ.cpp"],
         [("transposed chain of the projection; mesh sensitivity integrators", "src/utils/irrotational_projector.cpp: vectorJacobianProduct; src/physics/mfem_common_integ.cpp: DiffusionIntegratorMeshSens, VectorFEWeakDivergenceIntegratorMeshSens")],
         driver="projector", quick=30,
         rule="A run draws a mesh, partition, order and 2-5 steps (transpose test, mesh derivative against extrapolated central differences, mesh movement, projection). Non-trivial: more than one rank. Distinct: by mesh, partition and steps.",
         real=["src/utils/irrotational_projector.cpp", "src/utils/div_free_projector.cpp", "src/physics/mfem_common_integ.cpp", REALMFEM], stub=[SIMMPI, CLOCK, "heap (filled with garbage before use)"],
         assumptions=[ASM_SEEDS, ASM_TOL, ASM_HDR, "Mesh derivatives are compared with extrapolated central differences, with a tolerance estimated from their own convergence."],
         technique="partitions, message schedules and histories of products, checked by duality and differences",
         note="Sampled; duality holds to 1e-8, mesh derivatives to the accuracy of the differences.")

    timefiles = ["src/common/abstract_solver.cpp", "src/common/ode.cpp", "src/common/ode.hpp", "src/common/mfem_extensions.cpp"]
    timereal = ["src/common/abstract_solver.cpp", "src/common/ode.cpp", "src/common/mfem_extensions.cpp", "src/common/matrix_operators.cpp", "src/common/relaxed_newton.cpp", "src/physics/miso_input.cpp", REALMFEM]
    prop("T01", "Time stepping visits every step once and lands on the final time",
         "An unsteady solve starts from the given state at the initial time and advances it exactly as the selected scheme prescribes - each step once, in order, announced with its own number, "
         "time, size and state - with the parameters given for the whole solve, until the final time or the iteration limit; the last step is shortened to end at the final time. All ranks take the same steps, "
         "the result does not depend on how the unknowns are distributed or on message timing, and a solver that has run before gives the same result as a new one.",
         ["configurations", "schedules", "histories", "inputs"],
         "every scheme that is offered, mass matrix kind, linear and nonlinear solver, distribution over 1-4 ranks (empty ranks included), time interval, step size (fixed or chosen per step), iteration limit and message timing; up to three solves on one solver.",
         "The tests integrate one two-variable system in one process, and none of them can run here.",
         timefiles,
         [("time loop and its hooks", "src/common/abstract_solver.cpp: solveForState, calcStepSize, iterationExit"),
          ("stage equations M k + R(u + dt k, t + dt) = 0", "src/common/ode.cpp: TimeDependentResidual, FirstOrderODE")],
         driver="timeloop", quick=25,
         rule="A run draws a system (linear, exponential, nonlinear, forced) of 2-7 unknowns, its distribution, a scheme, solvers and an interval, makes 1-3 solves and compares every step with a reference step from the same state. "
              "Non-trivial: at least one step on several ranks, or with the identity mass matrix. Distinct: by system, distribution, scheme, solver and number of steps.",
         real=timereal, stub=[SIMMPI, CLOCK, "spatial residual (generated system, evaluated with simulated communication)", "heap (filled with garbage before use)"],
         assumptions=[ASM_SEEDS, ASM_TOL, ASM_HDR, "MFEM's own RK1, RK4 and implicit midpoint steppers are part of the code under test."],
         technique="partitions, message schedules and solve histories, each step checked against a reference integrator",
         note="Sampled; every step of every run is compared with a reference step.")
    prop("T02", "Relaxation schemes balance the entropy on every step",
         "With a relaxation scheme each step changes the entropy by exactly the relaxed step size times the entropy production of the stages: a conservative system keeps its entropy and a dissipative one never gains any. "
         "The state moves along the direction of the underlying scheme and time advances by the same factor, which is close to one and the same on every rank.",
         ["configurations", "schedules", "histories", "inputs"],
         "as T01, for the relaxation schemes, over conservative and dissipative systems with quadratic and exponential entropies.",
         "The tests integrate one two-variable system in one process, and none of them can run here.",
         timefiles + ["src/utils/utils.cpp"],
         [("relaxation factor from the entropy balance", "src/common/mfem_extensions.cpp: RRKImplicitMidpointSolver::Step, ExplicitRRKSolver::Step; src/utils/utils.cpp: secant")],
         driver="timeloop", quick=25,
         rule="As T01 with relaxation schemes only; the direction and the production of the stages are recomputed for each step from a reference. Non-trivial: at least one step on several ranks, or with the identity mass matrix. "
              "Distinct: by system, distribution, scheme, solver and number of steps.",
         real=timereal + ["src/utils/utils.cpp (secant)"], stub=[SIMMPI, CLOCK, "spatial residual (generated system, evaluated with simulated communication)", "heap (filled with garbage before use)"],
         assumptions=[ASM_SEEDS, ASM_TOL, ASM_HDR, "The balance is required to the tolerance the code asks of its root finder (1e-12)."],
         technique="partitions, message schedules and solve histories, each step checked against a reference balance",
         note="Sampled; every step of every run is checked.")
    prop("T03", "The log of a run is its trajectory, and a killed run resumes from it",
         "The states a run logs are those it went through: the entry of step k is the state and time at which step k began, the last entry - under its own number - the final state, the first one the initial state at the initial time, and there are no others. "
         "If the job is killed at any point, every entry that can be read is still one of these, only the entry being written may be lost, and a run restarted from the newest entry ends in the same final state as a run that was never interrupted.",
         ["crash_points", "histories", "configurations", "schedules", "fault_sequences"],
         "every crash point inside or between the log writes of 1-4 ranks, up to two crashes per run, with and without power loss, short and interrupted transfers, both log formats and every choice of what to log.",
         "The tests never log from a solver and never crash.",
         timefiles + ["src/common/data_logging.hpp"],
         [("what is logged, when and under which number", "src/common/abstract_solver.cpp: initialHook, iterationHook, terminalHook")],
         driver="timeloop", quick=25,
         rule="A run draws a system, distribution, scheme and interval, solves it without a log, then with one, killing the job at a drawn point (a file operation or between steps) up to twice and restarting from the log. "
              "Non-trivial: the job was killed, or the log of a finished run was verified. Distinct: by system size, ranks, steps, format, crashes and restarts.",
         real=timereal + ["src/common/data_logging.hpp"], stub=[SIMFS, SIMMPI, CLOCK, "spatial residual (generated system, evaluated with simulated communication)"],
         assumptions=[ASM_SEEDS, ASM_TOL, ASM_HDR, "Power loss keeps a prefix of a file's unsynced bytes or loses the file."],
         technique="crash points, power loss and restarts over logged runs, checked against the recorded trajectory",
         note="Sampled crash points inside real file operations; log entries are compared exactly.")

    steadyreal = ["src/common/abstract_solver.cpp", "src/common/mfem_extensions.cpp", "src/common/relaxed_newton.cpp", "src/common/linesearch.cpp", "src/common/ode.cpp", "src/physics/miso_input.cpp", "src/common/miso_residual.hpp and miso_output.hpp (type erasure)", REALMFEM]
    prop("S01", "A solver answers for what was created on it, with the inputs last given",
         "Over any history of calls, a solver's outputs, residual, derivatives, sizes, options and state errors are those of the named object with the inputs last given to it: inputs and options persist until given anew, those of one output "
         "do not leak into another or into the residual, derivatives are added to what is there, scalars are told from fields on every rank, and norms are over all ranks. A call that cannot be served - an unknown output, an output created twice, an "
         "exact solution of the wrong size, a steady-only operation on a time-dependent problem - is refused with an exception on every rank and changes nothing.",
         ["histories", "inputs", "configurations", "schedules"],
         "every sequence of 4-24 calls (creating, configuring and evaluating up to four outputs, scalar and distributed; residuals and norms; linearisation and products; setting states and options) with arbitrary subsets of the inputs given, on 1-4 ranks with arbitrary, also empty, parts.",
         "No test creates a solver.",
         ["src/common/abstract_solver.cpp", "src/common/abstract_solver.hpp", "src/common/miso_output.hpp", "src/common/miso_residual.hpp", "src/physics/miso_input.cpp"],
         [("outputs and their derivatives", "src/common/abstract_solver.cpp: createOutput, calcOutput, calcOutputPartial, outputJacobianVectorProduct, outputVectorJacobianProduct"), ("refusals", "src/common/abstract_solver.cpp: MISOException throws")],
         driver="steady", quick=20,
         rule="A run draws a generated system (2-8 unknowns), its distribution, a steady or time-dependent solver and 4-24 calls with drawn inputs; every answer is compared with a reference model that keeps each object's inputs. Every run is non-trivial. Distinct: by the sequence of calls.",
         real=steadyreal, stub=[SIMMPI, CLOCK, "spatial residual and outputs (generated system with closed-form derivatives, evaluated with simulated communication)", "heap (filled with garbage before use)"],
         assumptions=[ASM_SEEDS, ASM_TOL, ASM_HDR, "Distributed fields have more than one entry on some rank: with at most one everywhere, the interface cannot tell them from scalars."],
         technique="call histories on several ranks, checked against a reference model of the solver's objects",
         note="Sampled call histories against an exact model.")

    prop("S02", "A steady solve finds the root, the adjoint solves the transposed system, and both are what the log holds",
         "From a guess from which Newton's method converges, a steady solve with any of the nonlinear and linear solvers ends with a residual within the requested tolerances, at the root for the inputs last given, and leaves a guess that already solves the problem alone; "
         "the adjoint solves the transposed system at the given state without changing the state or the seed, also when the state, inputs or Jacobian changed since the last adjoint. The log holds the initial guess, the solution and the adjoint under their own names and steps and nothing else. "
         "If the job is killed at any point, every entry that can be read is one of these, only those being written may be lost, and a run restarted from the logged solution finishes its remaining work.",
         ["crash_points", "histories", "configurations", "schedules", "fault_sequences"],
         "every crash point in sequences of 1-5 steady solves (from fresh guesses or the solution before) and adjoints by 1-4 ranks, up to two crashes, with and without power loss, short transfers, both log formats; three nonlinear and four linear solvers, line-search choices, with and without preconditioner, several tolerances.",
         "No test solves a system.",
         ["src/common/abstract_solver.cpp", "src/common/mfem_extensions.cpp", "src/common/relaxed_newton.cpp", "src/common/data_logging.hpp"],
         [("steady branch and its log", "src/common/abstract_solver.cpp: solveForState, solveForAdjoint"), ("choice and set-up of solvers", "src/common/mfem_extensions.cpp: constructLinearSolver, constructNonlinearSolver")],
         driver="steady", quick=25,
         rule="A run draws a monotone generated system, its distribution, solvers, tolerances, log options and 1-5 operations; the job may be killed and restarted from the log. Residuals, roots and adjoints come from a dense reference; log entries of finished operations are compared exactly. "
              "Non-trivial: the job was killed, or all operations were completed. Distinct: by solvers, system size, distribution, operations and crashes.",
         real=steadyreal + ["src/common/data_logging.hpp"], stub=[SIMFS, SIMMPI, CLOCK, "spatial residual (generated system, evaluated with simulated communication)"],
         assumptions=[ASM_SEEDS, ASM_TOL, ASM_HDR, "Power loss keeps a prefix of a file's unsynced bytes or loses the file.", "Only guesses from which plain Newton converges within 12 iterations are judged."],
         technique="crash points, power loss and restarts over sequences of solves, checked against a dense reference solution",
         note="Sampled crash points inside real file operations and solver configurations.")

    pdefiles = ["src/physics/pde_solver.cpp", "src/common/abstract_solver.cpp", "src/physics/miso_nonlinearform.cpp", "src/physics/thermal/thermal_residual.cpp", "src/physics/thermal/thermal_integ.cpp",
                "src/physics/electromagnetics/magnetostatic_residual.cpp", "src/physics/electromagnetics/current_load.cpp", "src/physics/mfem_common_integ.cpp", "src/common/functional_output.cpp", "src/physics/common_outputs.hpp", "src/physics/electromagnetics/electromag_outputs.cpp"]
    pdereal = ["src/common/abstract_solver.cpp", "src/physics/pde_solver.cpp", "src/physics/miso_nonlinearform.cpp", "src/common/miso_linearform.cpp", "src/common/functional_output.cpp", "src/physics/common_outputs.hpp", "src/physics/mfem_common_integ.cpp",
               "src/physics/thermal (solver, residual, integrators, outputs)", "src/physics/electromagnetics (magnetostatic solver, residual, loads, integrators, outputs)", "src/physics/material coefficients and reluctivity",
               "src/common/inexact_newton.cpp, linear solvers and preconditioners", REALMFEM]
    pdestub = [SIMMPI, CLOCK, "mesh file input (meshes are generated)", "heap (filled with garbage before use)", "Adept tape and tinyspline (stand-ins with exact derivatives)"]
    pderule = ("A run draws a problem (thermal with continuous or discontinuous elements, magnetostatics in two and three dimensions, linear or nonlinear, boundary conditions, materials, loads; or a machine with losses, heat sources, forces and masses), a mesh, a partition over 1-4 ranks and 2-6 operations with explicit inputs. "
               "Non-trivial: all operations were executed. Distinct: by problem kind, mesh, partition and sequence of operations.")
    pdeover = ("thermal and magnetostatic problems with continuous and discontinuous elements in two and three dimensions, triangular, quadrilateral, tetrahedral and hexahedral meshes of straight and curved elements, arbitrary partitions over 1-4 ranks (ranks without boundary, "
               "with few or no unknowns included), states, mesh deformations, boundary values, loads and scalars, and sequences of operations; message delay, overtaking, completion order, reduction order and stalled ranks.")
    pdeass = [ASM_SEEDS, ASM_TOL, ASM_HDR, "Discontinuous elements are only evaluated, not linearised: the installed MFEM cannot assemble Jacobians across shared faces.",
              "Integrators on interior boundaries do not run with the installed MFEM and are not covered."]
    prop("F01", "A PDE solver gives the same answers on any number of processes",
         "For the same problem and inputs, residuals, residual norms, outputs, derivative products, solutions, adjoints and errors do not depend on the number of processes, on how the mesh is partitioned or on message timing, up to solver tolerance. "
         "Scalar results are the same on every process, no operation hangs, and invalid input - a mesh with inverted elements - is refused on all processes together.",
         ["configurations", "schedules", "inputs", "histories"], pdeover,
         "The tests use one fixed partition of one mesh, and the ones for PDE solvers cannot be built here.",
         pdefiles,
         [("gather, assemble, reduce", "src/physics/miso_nonlinearform.cpp: evaluate, getJacobian; src/common/functional_output.cpp: calcOutput; src/physics/common_outputs.hpp"),
          ("inverted elements are refused", "src/physics/pde_solver.cpp: initialHook")],
         driver="pde", quick=30, rule=pderule + " Every result is compared with the same operations on one rank.", real=pdereal, stub=pdestub, assumptions=pdeass,
         technique="partitions and message schedules over sequences of solver operations, each compared with one rank",
         note="Sampled; explicit results are compared to 1e-9, solutions of linear systems to 1e-6 of their size.")
    prop("F02", "A PDE solver's answers do not depend on what it did before",
         "Every operation of a PDE solver - residual, output, linearisation and products, solve, adjoint - gives the result a new solver gives for the same inputs, whatever states, meshes, boundary values, loads and scalars it was used with before and even after it refused an input. "
         "An output whose options were changed gives the result of one created with those options. A state set from, or an error measured against, a function is the same as for the equal coefficient. The vectors passed in as inputs are not modified.",
         ["histories", "inputs", "configurations", "schedules"], pdeover,
         "The tests call each operation once on a new object.",
         pdefiles,
         [("cached Jacobians and loads", "src/physics/miso_nonlinearform.cpp: linearize, setUpAdjointSystem; src/physics/electromagnetics/current_load.cpp: dirty; src/physics/thermal/thermal_residual.cpp: setInputs"),
          ("fields shared by residual, outputs and mesh", "src/physics/finite_element_state.hpp: distributeSharedDofs; src/common/functional_output.cpp: setInputs")],
         driver="pde", quick=30, rule=pderule + " Every operation after the first is repeated with a new solver in the same simulated job.", real=pdereal, stub=pdestub, assumptions=pdeass,
         technique="histories of solver operations, each compared with a new solver",
         note="Sampled; explicit results are compared to 1e-9, solutions of linear systems to 1e-6 of their size.")
    prop("F03", "Derivative products are the derivatives of what they claim to be",
         "Forward and reverse products of residuals and outputs with respect to the state, the mesh nodes, loads and scalars are transposes of each other and the derivatives of the evaluated residual or output at the inputs of the last linearisation. "
         "They are added to the vectors passed in, and unknowns fixed by boundary conditions do not contribute.",
         ["inputs", "configurations", "schedules", "histories"], pdeover,
         "The tests compare single integrators on one mesh in one process, and cannot be built here.",
         pdefiles,
         [("products", "src/physics/miso_nonlinearform.cpp, src/common/miso_linearform.cpp, src/common/functional_output.cpp: jacobianVectorProduct, vectorJacobianProduct"),
          ("mesh and scalar sensitivities", "src/physics/mfem_common_integ.cpp, src/physics/thermal/thermal_integ.cpp, src/physics/electromagnetics/electromag_integ.cpp: *MeshRevSens, *MeshSens, *RevSens"),
          ("load products", "src/physics/thermal/thermal_residual.cpp, src/physics/electromagnetics/magnetostatic_residual.cpp, src/physics/electromagnetics/current_load.cpp")],
         driver="pde", quick=30, rule=pderule + " Products are compared with each other and with fourth-order central differences of the evaluated quantity.", real=pdereal, stub=pdestub, assumptions=pdeass,
         technique="partitions, message schedules and histories of products, checked by duality and differences",
         note="Sampled; duality holds to 1e-9, differences to 1e-6 (linear) or 2e-4 (nonlinear).")
    prop("F04", "The adjoint solves the transposed linearised problem at the given inputs",
         "The adjoint for a given right-hand side satisfies <dR/du v, adjoint> = <rhs, v> for every variation v of the free unknowns, with R linearised at the inputs of the adjoint solve and not at those of an earlier one; it vanishes on fixed unknowns, does not depend on its initial guess, "
         "and neither the right-hand side nor the inputs are modified.",
         ["histories", "inputs", "configurations", "schedules"], pdeover,
         "The tests solve one adjoint on one mesh in one process, and cannot be built here.",
         pdefiles,
         [("adjoint system", "src/common/abstract_solver.cpp: solveForAdjoint; src/physics/miso_nonlinearform.cpp: setUpAdjointSystem, getJacobianTranspose")],
         driver="pde", quick=25, rule=pderule + " The adjoint identity is tested with differences of the residual.", real=pdereal, stub=pdestub, assumptions=pdeass,
         technique="partitions, message schedules and histories of adjoint solves, checked with the adjoint identity",
         note="Sampled; the identity holds to 1e-5 (linear) or 5e-4 (nonlinear) of the products' size.")

    emfiles = ["src/physics/electromagnetics/electromag_outputs.cpp", "src/physics/electromagnetics/electromag_outputs.hpp", "src/physics/electromagnetics/electromag_integ.cpp", "src/physics/electromagnetics/electromag_integ.hpp",
               "src/physics/electromagnetics/conductivity_coefficient.cpp", "src/physics/electromagnetics/cal2_kh_coefficient.cpp", "src/physics/electromagnetics/cal2_ke_coefficient.cpp", "src/physics/common_outputs.hpp", "src/physics/common_outputs.cpp"]
    prop("E01", "Losses, heat sources, forces, torques and masses are what their definitions say",
         "Winding losses (DC and AC), core losses, the heat sources made of them, forces and torques on regions, masses, field energies and the flux density and its magnitude at the nodes of an electromagnetic problem equal their definitions, integrals taken over the regions they are configured for, with material data of each region evaluated at the given temperature, frequency and field, "
         "whatever the mesh, element type, partition or earlier evaluations. Their forward and reverse products with respect to state, temperature, mesh and every scalar parameter are the derivatives of those values, are transposes of each other and are added to the vectors passed in, and scalar values and derivatives agree on every process.",
         ["inputs", "configurations", "histories", "schedules"],
         "two- and three-dimensional machines of windings, cores and gaps on triangular, quadrilateral, tetrahedral and hexahedral meshes, straight and curved, of arbitrary region layout and partition over 1-4 ranks (ranks with no part of a region included); constant and temperature-dependent conductivities, fill-factor weighted materials, "
         "core loss tables, temperatures of continuous and discontinuous elements, all scalar parameters, and sequences of evaluations and products with different inputs; message delay, overtaking, completion order, reduction order and stalled ranks.",
         "The tests of these outputs cannot be built here, compare single integrators on one process, and none checks the values of the composed outputs.",
         emfiles + ["src/common/functional_output.cpp", "src/common/miso_linearform.cpp", "src/utils/l2_transfer_operator.cpp", "src/utils/l2_transfer_operator.hpp"],
         [("losses per region and their volumes", "src/physics/electromagnetics/electromag_outputs.cpp: DCLossFunctional, ACLossFunctional, CoreLossFunctional; src/physics/electromagnetics/electromag_integ.cpp"),
          ("heat sources", "src/physics/electromagnetics/electromag_outputs.cpp: EMHeatSourceOutput"), ("forces and torques by virtual work", "src/physics/electromagnetics/electromag_outputs.cpp: ForceFunctional, TorqueFunctional; electromag_integ.cpp: ForceIntegrator3"),
          ("masses", "src/physics/common_outputs.cpp: MassFunctional"), ("material data", "src/physics/electromagnetics/conductivity_coefficient.cpp, cal2_kh_coefficient.cpp, cal2_ke_coefficient.cpp")],
         driver="pde", quick=30, rule="A run draws a machine (regions, materials, temperature field, winding data), a mesh, a partition over 1-4 ranks and a history of evaluations and products of several outputs; values are compared with integrals computed by the driver from the definitions, products by duality and differences, everything with one rank and with a new object. "
              "Non-trivial: all operations were executed. Distinct: by mesh, partition, materials and sequence of operations.",
         real=pdereal + ["src/physics/electromagnetics/electromag_outputs.cpp and its integrators, conductivity and core-loss coefficients"], stub=pdestub, assumptions=pdeass + ["Forward products of heat sources are not implemented upstream and not requested."],
         technique="partitions, message schedules and histories of output evaluations, checked against independently computed integrals, duality and differences",
         note="Sampled; values are compared to 1e-9 where the quadrature is exact and to the quadrature used otherwise.")

    prop("E02", "The magnetostatic residual is the weak form of its currents, magnets and materials",
         "The residual of a magnetostatic problem equals the weak form of its field equation, whatever the state: the reluctivity of each region (linear, lognu or B-H curve model) evaluated at the element's flux density, the current of each configured source kind with its density, sign and direction on exactly the regions listed for it, "
         "the magnetization of each magnet region with its pattern, direction, remanence and temperature dependence, in three dimensions the divergence-free part of the applied current, and in a discontinuous space or on a weakly imposed boundary the symmetric interior-penalty terms with the reluctivity of each side. "
         "Regions that are not listed contribute nothing; each input that changes (a current density, the state, the temperature) changes its own terms only, and later evaluations do not depend on earlier ones nor on the partition.",
         ["inputs", "configurations", "histories", "schedules"],
         "two- and three-dimensional problems on triangular, quadrilateral, tetrahedral and hexahedral meshes with arbitrary region layouts and partitions over 1-4 ranks (regions absent from a rank included), all material models, current kinds and magnet patterns, several current groups and densities, temperature fields, "
         "and histories of evaluations with different inputs; message delay, overtaking, completion order, reduction order and stalled ranks.",
         "The tests of the source and material coefficients cannot be built here, and compare derivatives with differences; none compares the residual with the field equation.",
         emfiles + ["src/physics/electromagnetics/magnetostatic_residual.cpp", "src/physics/electromagnetics/magnetic_load.cpp", "src/physics/electromagnetics/magnetic_load.hpp", "src/physics/electromagnetics/current_load.cpp", "src/physics/electromagnetics/current_source_functions.cpp",
                    "src/physics/electromagnetics/magnetic_source_functions.cpp", "src/physics/electromagnetics/remnant_flux_coefficient.cpp", "src/physics/electromagnetics/reluctivity_coefficient.cpp", "src/utils/div_free_projector.cpp"],
         [("reluctivity models", "src/physics/electromagnetics/reluctivity_coefficient.cpp"), ("current kinds and groups", "src/physics/electromagnetics/current_source_functions.cpp: CurrentDensityCoefficient, CurrentDensityCoefficient2D"),
          ("magnets", "src/physics/electromagnetics/magnetic_source_functions.cpp, remnant_flux_coefficient.cpp, magnetic_load.hpp"), ("projected current", "src/physics/electromagnetics/current_load.cpp, src/utils/div_free_projector.cpp")],
         driver="pde", quick=30, rule="A run draws a problem (regions, materials, sources, magnets, temperature), a mesh, a partition over 1-4 ranks and a history of inputs; the residual of each evaluation is compared with one the driver assembles from the field equation with its own material and source models. "
              "Non-trivial: residuals were compared. Distinct: by mesh, partition, materials and sequence of operations.",
         real=pdereal + ["src/physics/electromagnetics: residual, currents, magnets, reluctivity, remanence"], stub=pdestub, assumptions=pdeass + ["Magnets in three dimensions are evaluated at the reference temperature, as upstream does."],
         technique="partitions, message schedules and histories of residual evaluations, checked against an independently assembled residual",
         note="Sampled; agreement to 1e-8 relative (2D), and to the tolerance of the projection's linear solver in 3D.")

    prop("E03", "The heat residual is the weak form of conduction, sources and its boundary and interface conditions",
         "The residual of a steady heat problem equals the weak form of its equation, whatever the state: conduction with each region's conductivity, minus the applied load, plus h (T - fluid temperature) on exactly the convection boundaries, the prescribed flux on exactly the outflux boundaries, "
         "a weakly imposed temperature (consistent, symmetric, penalised) on exactly the weak-essential boundaries and nothing on the others. A discontinuous space couples its elements by the symmetric interior penalty on every face except interfaces, where heat flows by the interface's own condition instead: "
         "h times the temperature jump across a contact resistance, h (T - fluid temperature) from each side of a convection interface; what one side loses through a face or contact the other gains. Unknowns on strongly imposed boundaries take their boundary value. "
         "Each input (state, boundary temperature, load, any h or fluid temperature, mesh) changes its own terms only, and later evaluations depend neither on earlier ones nor on the partition.",
         ["inputs", "configurations", "histories", "schedules"],
         "two- and three-dimensional meshes of triangles, quadrilaterals, tetrahedra and hexahedra with arbitrary region layouts, interfaces and partitions over 1-4 ranks (interfaces between ranks and ranks without elements of a region included), continuous and discontinuous spaces, penalties, every combination of boundary and interface conditions, "
         "and histories of evaluations, solves, products and outputs with different inputs; message delay, overtaking, completion order, reduction order and stalled ranks.",
         "The tests of the thermal integrators cannot be built here, and compare derivatives with differences on one mesh; none compares the residual with the heat equation or runs on several ranks.",
         ["src/physics/thermal/thermal_residual.cpp", "src/physics/thermal/thermal_residual.hpp", "src/physics/thermal/thermal_integ.cpp", "src/physics/thermal/thermal_integ.hpp", "src/physics/thermal/thermal.cpp", "src/physics/electromagnetics/electromag_integ.cpp",
          "src/physics/miso_nonlinearform.cpp", "src/physics/miso_nonlinearform.hpp", "src/common/coefficient.cpp", "src/common/coefficient.hpp"],
         [("terms of the residual", "src/physics/thermal/thermal_residual.cpp: ThermalResidual::ThermalResidual, evaluate, setInputs"), ("boundary and interface conditions", "src/physics/thermal/thermal_integ.cpp: ConvectionBCIntegrator, OutfluxBCIntegrator, ThermalContactResistanceIntegrator, InternalConvectionInterfaceIntegrator"),
          ("conduction and interior penalty", "src/physics/electromagnetics/electromag_integ.cpp: NonlinearDiffusionIntegrator, NonlinearDGDiffusionIntegrator, DGInteriorFaceDiffusionIntegrator")],
         driver="pde", quick=30, rule="A run draws a heat problem (space, regions, conductivities, boundary and interface conditions, load, penalty), a mesh, a partition over 1-4 ranks and a history of inputs; the residual of each evaluation is compared, unknown by unknown, with one the driver assembles from the equation. "
              "Non-trivial: residuals were compared. Distinct: by mesh, partition, conditions and sequence of operations.",
         real=pdereal + ["src/physics/thermal: residual, boundary and interface integrators", "src/physics/electromagnetics/electromag_integ.cpp: diffusion and interior-penalty integrators"], stub=pdestub, assumptions=pdeass,
         technique="partitions, message schedules and histories of residual evaluations, checked against an independently assembled residual",
         note="Sampled; agreement to 1e-10 of the size of each unknown's terms. Internal boundary faces are provided by the build shim as interior faces restricted by attribute, since the MFEM installed here has no such integrators.")

    prop("E04", "Averages, aggregates, boundary fluxes, volumes, energies and errors are what their definitions say",
         "The outputs that heat and magnetostatic problems share equal their definitions, whatever the state and the deformation of the mesh: the volume of the regions asked for (all when none are), the mean of the state and of the flux density's magnitude over them, the energy density integrated up to the local flux density with each region's own reluctivity model, "
         "the soft maximum of the state and of the flux density, weighted by exp(rho times the value) with the sharpness last set, the heat that leaves through exactly the sides asked for with the conductivity of the region behind each, and the L2 norm of the difference between a state and a function or coefficient. "
         "Every process gets the same value, scalar and vector forms agree, and a value depends on the inputs and options of its own evaluation only, not on earlier ones nor on the partition.",
         ["inputs", "configurations", "histories", "schedules"],
         "two- and three-dimensional heat and magnetostatic problems, continuous, discontinuous and edge-element spaces of several degrees, triangles, quadrilaterals, tetrahedra and hexahedra, straight and curved, deformed in steps, arbitrary region layouts and partitions over 1-4 ranks (regions absent from a rank included), all reluctivity models, "
         "sharpness changed between evaluations, and histories of evaluations, products and solves; message delay, overtaking, completion order, reduction order and stalled ranks.",
         "The tests of these outputs cannot be built here; they compare derivatives with differences on one mesh, and none computes a value independently or on several ranks.",
         ["src/physics/common_outputs.cpp", "src/physics/common_outputs.hpp", "src/physics/mfem_common_integ.cpp", "src/physics/mfem_common_integ.hpp", "src/physics/finite_element_state.cpp", "src/physics/finite_element_state.hpp", "src/common/functional_output.cpp", "src/common/functional_output.hpp",
          "src/physics/electromagnetics/electromag_outputs.cpp", "src/physics/electromagnetics/electromag_outputs.hpp", "src/physics/electromagnetics/electromag_integ.cpp", "src/physics/electromagnetics/magnetostatic.cpp", "src/physics/thermal/thermal.cpp", "src/physics/pde_solver.cpp"],
         [("averages and aggregates", "src/physics/common_outputs.hpp: StateAverageFunctional, AverageMagnitudeCurlState, IEAggregateFunctional, IECurlMagnitudeAggregateFunctional"), ("integrands", "src/physics/mfem_common_integ.cpp: VolumeIntegrator, StateIntegrator, MagnitudeCurlStateIntegrator, BoundaryNormalIntegrator, IEAggregateIntegrator*"),
          ("energy", "src/physics/electromagnetics/electromag_integ.cpp: calcMagneticEnergy, MagneticEnergyIntegrator"), ("errors", "src/physics/finite_element_state.cpp: calcLpError; src/physics/pde_solver.cpp: calcStateError_"),
          ("which outputs exist", "src/physics/thermal/thermal.cpp, src/physics/electromagnetics/magnetostatic.cpp: addOutput")],
         driver="pde", quick=30, rule="A run draws a heat or magnetostatic problem with its outputs and their options, a mesh, a partition over 1-4 ranks and a history of inputs; every value is compared with an integral the driver computes from the definition on its own copy of the mesh. "
              "Non-trivial: all operations were executed. Distinct: by mesh, partition, problem and sequence of operations.",
         real=pdereal + ["src/physics/common_outputs.cpp, src/physics/mfem_common_integ.cpp, src/physics/finite_element_state.cpp"], stub=pdestub, assumptions=pdeass,
         technique="partitions, message schedules and histories of output evaluations, checked against integrals computed from the definitions",
         note="Sampled; values are compared to 1e-9 with the quadrature the output uses.")


    prop("O01", "Composed operators act as the matrices they stand for",
         "The product of a linear combination of operators is that combination, for any coefficients (zero included) and any shape, whatever the output vector held before and however often the combination was redefined; incompatible operators are refused. "
         "A Jacobian-free operator's product is the scaled derivative of the whole distributed residual at the last state set plus the explicit part, to the accuracy of a difference with a perturbation of fixed size, on any distribution over ranks; its diagonal blocks are those of the same matrix, "
         "and a block-Jacobi preconditioner set from it (or from a block operator) applies each block's solver to its part, and the identity where none was given. Inputs are not modified.",
         ["histories", "configurations", "schedules", "inputs"],
         "every history of redefinitions, scalings, states, products, block requests and preconditioner updates; coefficients, shapes, block structures and distributions over 1-4 ranks (empty ranks included); stale and non-finite contents of output vectors; message timing.",
         "No test that can run here uses these operators.",
         ["src/common/matrix_operators.cpp", "src/common/matrix_operators.hpp", "src/common/mfem_extensions.cpp"],
         [("linear combination", "src/common/matrix_operators.cpp: SumOfOperators::Add, Mult"), ("difference product, step size from the global norm, diagonal blocks", "src/common/matrix_operators.cpp: JacobianFree"),
          ("block-Jacobi", "src/common/mfem_extensions.cpp: BlockJacobiPreconditioner")],
         driver="algebra", quick=20,
         rule="A run draws operators or a nonlinear system in 1-3 blocks, a distribution and a history of 3-9 operations on one object; every result is compared with the dense matrix it stands for. Non-trivial: at least one product. "
              "Distinct: by sizes, distribution and history.",
         real=["src/common/matrix_operators.cpp", "src/common/mfem_extensions.cpp (BlockJacobiPreconditioner)", "src/physics/miso_input.cpp", REALMFEM], stub=[SIMMPI, CLOCK, "residual and its blocks (generated system, evaluated with simulated communication)", "heap (filled with garbage before use)"],
         assumptions=[ASM_SEEDS, ASM_TOL, ASM_HDR, "Jacobian-free products are held to ten times the truncation and rounding error of the documented step (1e-5 over the norm of the vector, 1e-7 for tiny vectors)."],
         technique="histories of operations under partitions and message schedules, each checked against the dense matrix",
         note="Sampled histories; every product of every history is checked.")
    prop("O02", "A linear solver made from options solves what was asked",
         "For every solver type offered, with or without a preconditioner, the solver made from the options stops with a residual within the tolerances given or after the given number of iterations, never later; it uses the iterations that the named method needs with these tolerances, "
         "subspace and preconditioner, on any distribution of the unknowns. It may be used again, also for another matrix, leaves the right-hand side alone, and ignores what the solution vector holds unless told to start from it; an unknown type is refused.",
         ["configurations", "histories", "schedules", "inputs"],
         "every solver type, tolerance, limit, subspace size and preconditioning; distributions over 1-4 ranks (empty ranks included), reduction orders and message timing; up to three solves with one solver.",
         "No test that can run here makes a linear solver.",
         ["src/common/mfem_extensions.cpp"],
         [("options to solver", "src/common/mfem_extensions.cpp: constructLinearSolver")],
         driver="algebra", quick=20,
         rule="A run draws a well-conditioned system, a distribution, options and 1-3 right-hand sides; residual and iteration count of every solve are checked. Non-trivial: a solver was made. Distinct: by type, size, distribution, preconditioning and iteration counts.",
         real=["src/common/mfem_extensions.cpp (constructLinearSolver)", REALMFEM], stub=[SIMMPI, CLOCK, "heap (filled with garbage before use)"],
         assumptions=[ASM_SEEDS, ASM_TOL, "hyprefgmres has no absolute tolerance in the installed MFEM; none is required of it."],
         technique="configurations under partitions, reduction orders and solve histories, checked against residuals and the named method",
         note="Sampled systems of up to 12 unknowns.")
    prop("G01", "A root finder returns a root or reports failure",
         "Bisection and the secant method return a point only if the function was found to be within its tolerance of zero there, or the last change (for bisection: the bracket with a change of sign) was below the tolerance for the argument; bisection stays inside the bracket. "
         "Anything else - no sign change, no convergence within the iteration limit, evaluations that fail, stagnate or are not finite - is reported as an error, within the limit; an error is only raised for such a reason. All ranks that evaluate a distributed function obtain the same answer.",
         ["fault_sequences", "inputs", "configurations"],
         "every function shape and scale, starting points (ends that are roots included), tolerances and limits, and placements of evaluations that raise an error or return NaN or infinity once or from then on; functions reduced over 1-4 ranks.",
         "The existing test finds two simple roots, and cannot be built here.",
         ["src/utils/utils.cpp"],
         [("bracketing and secant iteration", "src/utils/utils.cpp: bisection, secant")],
         driver="algebra", quick=15,
         rule="A run draws a function, starting points, tolerances, a limit and at most one failure; the answer is judged from the recorded evaluations. Non-trivial: several ranks, a failing evaluation or more than three evaluations. "
              "Distinct: by function, method, fault, outcome and number of evaluations.",
         real=["src/utils/utils.cpp (bisection, secant)"], stub=[SIMMPI, CLOCK, "function (generated, with injected failures)"],
         assumptions=[ASM_SEEDS],
         technique="failing and stagnating evaluations over generated functions, judged from the recorded evaluations",
         note="Sampled; the criterion is recomputed from the recorded evaluations of each search.")

    flowfiles = ["src/physics/fluidflow/flow_solver.cpp", "src/physics/fluidflow/flow_residual.cpp", "src/physics/fluidflow/inviscid_integ_def.hpp", "src/physics/fluidflow/euler_integ_def.hpp", "src/physics/fluidflow/euler_fluxes.hpp",
                 "src/physics/fluidflow/viscous_integ_def.hpp", "src/physics/fluidflow/navier_stokes_integ_def.hpp", "src/physics/fluidflow/navier_stokes_fluxes.hpp", "src/common/sbp_fe.cpp", "src/physics/diag_mass_integ.cpp", "src/physics/miso_nonlinearform.cpp"]
    flowreal = ["src/physics/fluidflow (solver, residual, inviscid and viscous integrators, fluxes)", "src/common/sbp_fe.cpp, sbp operators", "src/physics/diag_mass_integ.cpp", "src/physics/pde_solver.cpp", "src/physics/miso_nonlinearform.cpp",
                "src/common/functional_output.cpp", "src/common/abstract_solver.cpp, ode.cpp, mfem_extensions.cpp, Newton and linear solvers", REALMFEM]
    flowstub = [SIMMPI, CLOCK, "mesh file input (meshes are generated)", "heap (filled with garbage before use)", "Adept tape (stand-in with exact derivatives)"]
    flowrule = ("A run draws a compressible-flow problem (one to three dimensions, periodic or bounded, continuous or discontinuous SBP elements of degree 0-4, straight or curved, inviscid or viscous, Euler or entropy-conservative fluxes, conservative or entropy variables, dissipation, "
                "every boundary condition offered), smooth states, and a partition over 1-4 ranks. Non-trivial: the run reached its end. Distinct: by discretisation, boundary conditions and partition.")
    flowass = [ASM_SEEDS, ASM_TOL, ASM_HDR, "Discontinuous elements are evaluated and marched explicitly, not linearised, and their entropy change is evaluated on one rank: the installed MFEM cannot do more across shared faces.",
               "Problems in one dimension are periodic (boundary conditions are not implemented there); viscous elements are at least of degree 1."]
    prop("W01", "The flow discretisation conserves, and never produces entropy of its own",
         "At any state, on any mesh and partition, the residual is node by node the flux form asked for (entropy conservative two-point flux or Euler flux, interface and boundary fluxes) with the dissipation of the coefficients given, on operators that differentiate polynomials of their degree exactly; the residual of each conserved variable sums to exactly its flux through the boundary (zero on a periodic domain), weighting the residual with the entropy variables gives exactly the entropy flux of the boundary conditions - never less when "
         "dissipation or viscosity is switched on - and a uniform flow has no residual. Switching viscosity on adds the Navier-Stokes stresses and heat flux of the given Reynolds and Prandtl numbers to it. The entropy and the entropy change reported are those of the state, and the mass matrix is the diagonal cubature norm of the mesh.",
         ["configurations", "inputs", "schedules", "histories"],
         "states, meshes, element types and degrees, fluxes, dissipation, boundary conditions, variables and partitions over 1-4 ranks; message delay, overtaking, completion order and reduction order.",
         "The tests evaluate one state on one mesh in one process, and cannot be built here.", flowfiles,
         [("residual", "src/physics/fluidflow/flow_residual.cpp: addFlowDomainIntegrators, addFlowInterfaceIntegrators, addFlowBoundaryIntegrators"), ("entropy", "src/physics/fluidflow/flow_residual.cpp: calcEntropy_, calcEntropyChange_"),
          ("integrators", "src/physics/fluidflow/inviscid_integ_def.hpp, euler_integ_def.hpp, viscous_integ_def.hpp, navier_stokes_integ_def.hpp"), ("mass", "src/physics/diag_mass_integ.cpp")],
         driver="flow", quick=20, rule=flowrule, real=flowreal, stub=flowstub, assumptions=flowass,
         technique="partitions and message schedules over generated flow problems, checked against conservation and entropy identities with independently coded boundary fluxes",
         note="Sampled; identities hold to 1e-9 of the absolute sums.")
    prop("W02", "Flow residuals, outputs and derivatives depend on the state alone",
         "Residual, entropy, forces and boundary functionals at a state do not depend on what was evaluated before, on the number of processes or on message timing; drag, lift and boundary entropy are the integrals they are named after, and on walls without slip the force equals the momentum the residual takes up there; "
         "the residual in entropy variables is that in conservative ones, and Jacobian and output gradients are the derivatives of what is evaluated.",
         ["configurations", "inputs", "schedules", "histories"],
         "states, meshes, element types and degrees, fluxes, dissipation, boundary conditions, variables, sets of boundaries, and partitions over 1-4 ranks; message delay, overtaking, completion order and reduction order.",
         "The tests evaluate one state on one mesh in one process, and cannot be built here.", flowfiles,
         [("outputs", "src/physics/fluidflow/flow_residual.cpp: constructOutput_"), ("Jacobian", "src/physics/miso_nonlinearform.cpp: getJacobian; AssembleElementGrad, AssembleFaceGrad of the integrators")],
         driver="flow", quick=35, rule=flowrule, real=flowreal, stub=flowstub, assumptions=flowass + ["Derivatives are compared where differences from both sides agree (fluxes have kinks)."],
         technique="the same evaluations under several partitions, message schedules and histories, compared with each other, with definitions and with differences",
         note="Sampled; values agree to 1e-9, derivatives to 1e-6.")
    prop("W03", "Flow marches by the scheme, the step rule and the entropy balance asked for",
         "Every step starts from the state reached, has the size that the options define from that state (fixed, constant CFL number, or growing with the fall of the residual) and does not pass the final time unless allowed to; it satisfies the equations of the named scheme at the right stage times; "
         "relaxation schemes balance the entropy with the production of the stages, also when boundary conditions depend on time; totals are conserved on periodic domains; the march ends exactly when the final time, the residual target or the step limit is reached, and the entropy history written holds time and entropy of every state. "
         "Marching again with the same solver, or on another partition, gives the same.",
         ["configurations", "inputs", "schedules", "histories"],
         "schemes, step rules, end times and limits over flow problems of every kind and partitions over 1-4 ranks; message delay, overtaking, completion order and reduction order; one or two marches with one solver.",
         "The tests march one vortex in one process, and cannot be built here.", flowfiles + ["src/common/ode.hpp", "src/common/mfem_extensions.cpp", "src/common/abstract_solver.cpp"],
         [("step size and end", "src/physics/fluidflow/flow_solver.cpp: calcStepSize, iterationExit; flow_residual.cpp: minCFLTimeStep"), ("entropy log", "src/physics/fluidflow/flow_solver.cpp: derivedPDEInitialHook, derivedPDEIterationHook, derivedPDETerminalHook"),
          ("relaxation", "src/common/mfem_extensions.cpp: RRKImplicitMidpointSolver, ExplicitRRKSolver; flow_residual.cpp: calcEntropyChange_")],
         driver="flow", quick=45, rule=flowrule + " Scheme, step rule and limits are drawn too; every step of every march is checked.", real=flowreal, stub=flowstub,
         assumptions=flowass + ["Marches are judged up to a step whose equations Newton's method could not solve or whose stages leave the physical states.", "A relaxation factor is only required to exist for small steps."],
         technique="marches under partitions, message schedules and repetitions, every step checked against an independent statement of the scheme",
         note="Sampled marches of up to 12 steps.")

    prop("C01", "A controlled flow is the flow and its controller, coupled both ways",
         "The residual of a controlled flow is, at every state, that of the flow driven by the control velocity which the controller commands from its own state and the boundary entropy measured at the actuator, together with that of the controller at that boundary entropy; in a closed loop the controller feels the difference from the target entropy, in an open loop it does not. "
         "Mass matrix and Jacobian blocks are those of the two parts; entropy, entropy change and supply rate are the sums or the boundary terms they are defined as, with the weight of the controller (P-matrix). Parameters of the controller and the actuator position hold from when they are given until they are given again, whatever the caller does with the vectors afterwards. "
         "Marches step both together by the scheme and the step rule asked for, do not pass the final time, balance the entropy when relaxed, and write for each output named a history with one line per state reached, also when marching again.",
         ["configurations", "inputs", "schedules", "histories"],
         "controller parameters given all at once or in parts, in any order, before and between evaluations and marches; flow problems with a control boundary; schemes, step rules and outputs; partitions over 1-4 ranks (the controller lives on one); message delay, overtaking, completion order and reduction order.",
         "The tests step one controller with one set of parameters in one process, and cannot be built here.", ["src/physics/fluidflow/flow_control_residual.cpp", "src/physics/fluidflow/flow_control_residual.hpp", "src/physics/fluidflow/flow_control_solver.cpp", "src/physics/fluidflow/flow_control_solver.hpp"] + flowfiles,
         [("controller", "src/physics/fluidflow/flow_control_residual.cpp: ControlResidual"), ("coupling", "src/physics/fluidflow/flow_control_residual.cpp: FlowControlResidual::evaluate_, calcEntropyChange_, calcSupplyRate_, getJacobianBlock_"),
          ("march, step size, histories", "src/physics/fluidflow/flow_control_solver.cpp: calcStepSize, initialHook, iterationHook, terminalHook"), ("actuation", "src/physics/fluidflow/euler_integ_def.hpp: ControlBC, EntropyConserveBC; BoundaryEntropy")],
         driver="flow", quick=45, rule=flowrule + " A controller, its parameters, a history of operations on it and the changes between marches are drawn too. Controller and coupling are also stated in the driver, on the flow residual decided by W01 and W02.", real=flowreal + ["src/physics/fluidflow/flow_control_residual.cpp, flow_control_solver.cpp"], stub=flowstub,
         assumptions=flowass + ["The flow by itself is decided by W01-W03; here it is taken from a flow residual of its own.", "Marches are judged up to a step whose equations Newton's method could not solve."],
         technique="histories of parameter changes, evaluations and marches under partitions and message schedules, compared with an independent statement of the controller and the coupling",
         note="Sampled; 2D, conservative variables.")

    prop("M01", "The mesh warper follows the surface and keeps the volume in equilibrium",
         "Warping a mesh puts every surface node exactly where it was asked to be, and the interior nodes where the elastic body (of the undeformed mesh) is in equilibrium: rigid, uniform and linear motions of the surface are followed by the whole volume, motions superpose, and the initial guess, "
         "earlier warps, the numbering of the nodes and the partition do not change the result. The surface indices and initial coordinates are those of the boundary nodes, the residual is the elastic force inside and the missing displacement on the surface, and its products and adjoint are those of that residual.",
         ["configurations", "inputs", "schedules", "histories"],
         "2D and 3D meshes, straight or curved, nodes numbered either way, partitioned arbitrarily over 1-4 ranks (also empty ones); every surface motion; sequences of warps, residuals, products and adjoints with one warper.",
         "No test can be built here that warps a mesh; upstream's tests warp one box in one process.",
         ["src/utils/mesh_warper/mesh_warper.cpp", "src/physics/mesh_move_integ.cpp", "src/physics/miso_nonlinearform.cpp", "src/common/abstract_solver.cpp"],
         [("surface rows of residual, Jacobian and products", "src/utils/mesh_warper/mesh_warper.cpp"), ("elastic residual about the initial positions", "src/physics/mesh_move_integ.cpp: ElasticityPositionIntegrator")],
         driver="warp", quick=35,
         rule="A run draws a mesh, a partition over 1-4 ranks, the numbering of the nodes and 2-5 operations (warp, affine warp, superposition, residual, products, adjoint) with surface motions and guesses. Every operation is compared with an independent elasticity matrix, "
              "with a warper of its own and with the whole run on one rank. Non-trivial: the run reached its end. Distinct: by mesh, partition and operations.",
         real=["src/utils/mesh_warper/mesh_warper.cpp", "src/physics/mesh_move_integ.cpp, miso_nonlinearform.cpp, finite_element_state/dual/vector.cpp", "src/common/abstract_solver.cpp, Newton and linear solvers", REALMFEM],
         stub=[SIMMPI, CLOCK, "mesh file input (meshes are generated)", "heap (filled with garbage before use)"],
         assumptions=[ASM_SEEDS, ASM_TOL, ASM_HDR, "The total derivative with respect to the surface through the adjoint is not asserted: upstream has not finished it (its test is commented out)."],
         technique="sequences of mesh motions under partitions, message schedules and histories, compared with an independent elasticity operator and with each other",
         note="Sampled; surface exact bit for bit, interior to 1e-7.")
    prop("X01", "Fields are transferred, measured and differentiated as defined",
         "Transferring a field to a discontinuous space, its flux density or the magnitude of its flux density gives at every node of the output the value, curl or magnitude of the curl of the input there, for the current state and current mesh; the products with the state and with the mesh nodes "
         "are the derivatives of that map, and anything else has none. Norms and errors of fields are those of their definition over the whole mesh; distributing a field and collecting it again returns it bit for bit. Partition, earlier inputs and repetition change nothing.",
         ["configurations", "inputs", "schedules", "histories"],
         "scalar (2D) and vector (Nedelec, 3D) fields of degree 1-3, straight and curved meshes, arbitrary partitions over 1-4 ranks (also empty ones); sequences of transfers, products and norms with mesh motion in between.",
         "No test can be built here that transfers a field.",
         ["src/utils/l2_transfer_operator.cpp", "src/utils/l2_transfer_operator.hpp", "src/physics/finite_element_state.cpp", "src/physics/finite_element_dual.cpp", "src/physics/finite_element_vector.cpp"],
         [("element operations and their reverse-mode derivatives", "src/utils/l2_transfer_operator.cpp"), ("inputs distributed by every rank", "src/utils/l2_transfer_operator.hpp: setInputs"), ("norms", "src/physics/finite_element_state.cpp: calcLpNorm, calcLpError")],
         driver="warp", quick=25,
         rule="A run draws a mesh, partition, operator (identity, curl, curl magnitude), space, and 2-5 operations (transfer, state product, mesh product, norms and errors) with their fields, seeds and mesh motions. Values are compared with MFEM's own evaluation of the field at each node, products with central "
              "differences and transposes, everything with one rank and with a fresh operator. Non-trivial: the run reached its end. Distinct: by mesh, partition and operations.",
         real=["src/utils/l2_transfer_operator.cpp", "src/physics/finite_element_state/dual/vector.cpp", REALMFEM], stub=[SIMMPI, CLOCK, "heap (filled with garbage before use)"],
         assumptions=[ASM_SEEDS, ASM_TOL, "Derivatives of the magnitude are compared loosely where the curl is near zero."],
         technique="sequences of transfers, products and norms under partitions, message schedules and histories, compared with definitions, differences and each other",
         note="Sampled; values agree to 1e-10, norms to 1e-9, derivatives to the accuracy of central differences.")

    PURE = " is a pure function of its arguments: no schedule, clock, I/O, fault, other party or earlier call can change its result, so there is nothing for a simulator to decide."
    prop("A01", "Nearest-point queries return the nearest point",
         "A k-d tree query returns a stored point at the smallest distance from the query point, and the distance to a surface is the smallest distance to any of its faces.",
         ["inputs"], "every finite set of points and every query point.", "The tests query a few fixed sets.",
         ["src/utils/kdtree.hpp", "src/common/surface.hpp", "src/common/surface_def.hpp"], [("search", "src/utils/kdtree.hpp: nearest"), ("Newton search on a face", "src/common/surface_def.hpp: solveDistance")],
         na="A query" + PURE)
    prop("A02", "Tabulated operators satisfy their defining identities",
         "Every SBP operator table has a positive diagonal norm, differentiates polynomials of its degree exactly and satisfies summation by parts with its boundary operator; orthogonal polynomials are orthonormal on their element.",
         ["inputs"], "every element type, degree and node.", "The tests sample a few degrees.",
         ["src/common/data/sbp_operators.hpp", "src/common/sbp_fe.cpp", "src/common/orthopoly.cpp"], [("tables", "src/common/data/sbp_operators.hpp"), ("polynomials", "src/common/orthopoly.cpp")],
         na="A table of constants, evaluated, is fixed data. The identities of the operators that flow runs use are exercised by W01 (free stream, conservation), but they are no property of an execution.")
    prop("A03", "Material data and default options are merged as documented",
         "A component's material is the library entry overridden by what the user gave; an option that the user gave is never replaced by its default and a missing one always is.",
         ["inputs"], "every combination of user and default options.", "The tests use fixed inputs.",
         ["src/common/default_options.cpp", "src/common/material_library.cpp", "src/common/abstract_solver.cpp"], [("merge", "src/common/abstract_solver.cpp: constructor"), ("materials", "src/common/material_library.cpp")],
         na="Merging two JSON values" + PURE)

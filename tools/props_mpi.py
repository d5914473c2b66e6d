from props_base import *
P("D01","Discrete operators do not depend on the number of processes",
  "For every mesh, numbering, flow problem and state, the residual, local time steps, gradients, surface integrals, entropy error and assembled Jacobian computed by any number of processes equal, cell by cell and entry by entry, those of a single process, for all schemes and for diffusion. Distributed vectors are laid out by global cell number and their ghost entries are the values of the cells across each subdomain face.",
  ["inputs","configurations"],"all meshes, cuts into subdomains, schemes, boundary conditions and states; any process count up to the number of cells",
  "The parallel tests solve one or two fixed meshes on a fixed number of processes and compare a convergence rate.",
  ["src/spatial/flow_spatial.cpp","src/spatial/aspatial.cpp","src/spatial/agradientschemes.cpp","src/linalg/alinalg.cpp","src/mesh/ameshutils.cpp"],[("residual","FlowFV::compute_residual"),("Jacobian","Spatial::assemble_jacobian"),("vectors","createGhostedSystemVector"),("gradients","compute_gradients")],
  "metamorphic relation between runs on 2-5 real MPI processes and the same code on one, and against a long-double reference",note="Rounding-level differences (1e-9 relative to the terms) are allowed. Runs use the block partitioner the program uses, on randomly numbered meshes; at most 5 processes.")
P("D02","Face values exchanged between subdomains reach the right face",
  "For every mesh, any cut of it into subdomains and any process count, after each exchange the outside value of every face shared between subdomains is exactly the inside value its neighbour holds for that same face in that round, for every variable; no other value changes. Repeated exchanges, processes of different speed and messages of any size neither hang nor mix rounds.",
  ["inputs","schedules","configurations"],"all meshes, partitions (block and Scotch), process counts, numbers of rounds and relative speeds of processes",
  "One test exchanges once on a fixed mesh with a fixed number of processes.",
  ["src/linalg/tracevector.cpp"],[("exchange","L2TraceVector::updateSharedFacesBegin/End"),("pattern","L2TraceVector::update_comm_pattern")],
  "generated rounds of exchanges on 2-6 MPI processes with random delays, every message above 96 bytes made synchronous; exact expected values",note="Schedules are sampled by random delays and OS scheduling of real processes, not enumerated.")
P("D03","A solve gives the same answer on any number of processes",
  "For every problem, explicit, implicit (assembled or matrix-free), Runge-Kutta and complete case runs take the same steps, end in the same way, report the same residual history and produce the same solution, mesh size parameter, entropy error and force coefficients on any number of processes as on one, to within what rounding and the linear solver's tolerance allow.",
  ["inputs","histories","configurations"],"all meshes, cuts, schemes, boundary conditions, initial states, CFL limits, tolerances, preconditioners and matrix formats",
  "The parallel tests check the convergence rate of two cases; the step histories and functionals of parallel runs are never compared with serial ones.",
  ["src/ode/aodesolver.cpp","src/utilities/casesolvers.cpp","src/linalg/alinalg.cpp","src/spatial/aoutput.cpp"],[("steady solvers","SteadyForwardEulerSolver::solve, SteadyBackwardEulerSolver::solve"),("Runge-Kutta","TVDRKSolver::solve"),("driver","FlowCase::run_output"),("matrix-free","MatrixFreeSpatialJacobian::apply")],
  "metamorphic relation between whole solves on 2-4 real MPI processes and on one; cases that amplify rounding are recognised by perturbed reruns and skipped",note="Cases whose outcome is sensitive to rounding decide nothing and are skipped (counted).")

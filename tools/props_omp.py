from props_base import *
P("P01","Threads never race and never change the answer",
  "For every problem, number of threads and schedule, the residual, time steps, gradients, reconstruction, assembled Jacobian, diffusion operator, entropy error, nodal output, explicit, Runge-Kutta, implicit and matrix-free solves, and anisotropy-based cell numbering contain no two conflicting accesses that are unordered by the fork, join, barriers, critical sections and atomics of the program, and give the results of a single thread up to the order of summation.",
  ["inputs","schedules","configurations"],"all meshes, schemes, boundary conditions, states; 2-8 threads under randomly perturbed scheduling",
  "The tests run with the default thread count on a few meshes and compare convergence rates or prescribed digits: a race that loses an update once in a while passes.",
  ["src/spatial/flow_spatial.cpp","src/spatial/aspatial.cpp","src/spatial/agradientschemes.cpp","src/spatial/limitedlinearreconstruction.cpp","src/spatial/musclreconstruction.cpp","src/spatial/diffusion.cpp","src/ode/aodesolver.cpp","src/spatial/aoutput.cpp","src/mesh/meshordering.cpp"],[("residual","FlowFV::compute_residual"),("Jacobian","Spatial::assemble_jacobian"),("gradients","GradientScheme::compute_gradients"),("steppers","SteadyForwardEulerSolver::solve, SteadyBackwardEulerSolver::solve, TVDRKSolver::solve"),("numbering","lineReorder")],
  "generated problems, thread counts and seeded schedule perturbation on a thread-pool OpenMP runtime of our own under ThreadSanitizer, and a differential comparison with one thread",note="ThreadSanitizer judges the accesses of the schedules that ran; races hidden by an accidental ordering through a critical section in every explored schedule are not seen. PETSc itself is not instrumented.")

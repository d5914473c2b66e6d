from props_base import *
P("T01","The explicit steady solver takes documented steps and reports truthfully",
  "For every discretisation, initial state, CFL number, tolerance and iteration limit, forward Euler advances every cell by CFL times its own local time step divided by its area times the residual, stops at the first step whose residual ratio meets the tolerance, succeeds exactly then, raises the tolerance error exactly when the limit is reached first and the divergence error exactly when the residual is not finite, and the reported step count, convergence flag and history are those of the steps taken; no iterations change nothing.",
  ["inputs","configurations","histories"],"all flow and diffusion problems, step sizes, tolerances and limits, including those met on the last allowed step",
  "The tests run a few cases to convergence, and compare final errors; outcomes at the limit, exact histories and stopping points are not asserted.",
  ["src/ode/aodesolver.cpp"],[("explicit steady solver","SteadyForwardEulerSolver::solve")],
  "model-based testing of whole step histories against an independent stepper driving the same residual")
P("T02","The implicit steady solver solves the documented system at each step",
  "For every discretisation, initial state, CFL limits, tolerance and iteration limit, each backward Euler step solves (V/(CFL dt)+J) du = r with the assembled Jacobian (or the matrix-free operator), adds du times the nonlinear update factor to each cell, and uses the CFL number given by the documented residual-ratio ramp clamped to its limits; the stopping rule, outcome, history and, on request, the linear system written to files agree with the steps taken.",
  ["inputs","configurations","histories"],"all flow and diffusion problems, CFL limits, tolerances, update schemes, assembled and matrix-free operators",
  "The tests compare final errors of converged solutions, to which a wrong pseudo-time term, relaxation or CFL ramp makes no difference.",
  ["src/ode/aodesolver.cpp","src/linalg/alinalg.cpp"],[("implicit steady solver","SteadyBackwardEulerSolver::solve"),("pseudo-time term","SteadyBackwardEulerSolver::addPseudoTimeTerm"),("CFL ramp","SteadySolver::expResidualRamp")],
  "model-based testing of whole step histories against an independent dense-LU implicit stepper")
P("T03","The nonlinear update factor keeps density and pressure changes bounded",
  "For every state, update and minimum factor, the full scheme gives 1, and the robust scheme gives 1 minus the larger relative change of density or pressure, never below the minimum factor nor above 1; the relaxed update leaves density positive whenever the unrelaxed relative change is below 1; minimum factors outside (0,1] and unknown schemes are refused.",
  ["inputs","configurations"],"all admissible states, updates, gas parameters and minimum factors",
  "No test exercises the update factor.",
  ["src/ode/nonlinearrelaxation.cpp","src/ode/nonlinearrelaxation.hpp","src/utilities/afactory.cpp"],[("factor","FlowSimpleUpdate::getLocalRelaxationFactor"),("selection","create_const_nonlinearUpdateScheme")],
  "differential testing against the documented formula, boundary-value generation for refusals")
P("T04","The TVD Runge-Kutta solver advances the semi-discrete system in time",
  "For every flow problem, order 1 to 3, CFL number and final time, the TVD Runge-Kutta solver takes strong-stability-preserving stages of its order with one global time step per step (CFL times the smallest local time step of the state at its start) until the final time is reached, evaluating each stage at the previous stage's state.",
  ["inputs","configurations","histories"],"all flow problems, orders, CFL numbers and final times",
  "No test runs the unsteady solver.",
  ["src/ode/aodesolver.cpp"],[("unsteady solver","TVDRKSolver::solve"),("coefficients","initialize_TVDRK_Coeffs")],
  "model-based testing of step histories against an independent Shu-Osher stepper")
P("T05","A steady case runs starter then main solve, and converged means steady",
  "For every case configuration, the steady case driver first solves the first-order problem with the starter's parameters if asked to (a starter that misses its tolerance being no failure), then the main problem from the result with the main parameters, scheme and operators configured; it reports convergence exactly when the main solve met its tolerance; and a state reported as converged has a residual reduced by the tolerance according to an independent discretisation.",
  ["inputs","configurations","histories"],"all combinations of solver type, starter, CFL limits, tolerances, limits, fluxes, update schemes and matrix-free operation",
  "The regression cases all converge, so outcome reporting, starter parameters and what converged means are not examined.",
  ["src/utilities/casesolvers.cpp","src/utilities/controlparser.cpp"],[("case driver","SteadyFlowCase::run, execute_starter, execute_main, execute")],
  "differential testing against direct use of the solvers and the reference residual")

from props_base import *
P("C01","A control file means what its documentation says, and a defective one is refused",
  "For every control file in the documented format, in any layout, letter case and order, the parsed options and solver configurations hold exactly the values written or their documented defaults (never leftover memory), overridden exactly by --mesh_file, --write_final_linear_system and -fvens_log_file_prefix when given; a missing required entry, a non-number, an unknown boundary condition, RANS, incomplete boundary values or broken syntax is reported as an error.",
  ["inputs","configurations"],"all combinations of sections, options, boundary conditions and command lines",
  "The tests parse a few fixed files and look at no parsed value.",
  ["src/utilities/controlparser.cpp","src/utilities/aoptionparser.cpp","src/spatial/abctypemap.cpp"],[("parser","parse_flow_controlfile"),("configurations","extract_spatial_*_config"),("command line","parse_cmd_options")],
  "control files printed from a generated model and parsed back into poisoned storage; single-defect mutations",note="Known finding: spatial_discretization.limiter_parameter is never read (pinned by the WENO regression test).")
P("C02","Solver options are read from the option database exactly as given",
  "For every option and value in the PETSc option database, the option readers return exactly that integer, real, boolean, string (up to and including the maximum length) or list; for an absent option the mandatory readers report an error and the optional ones return their default, and presence is reported correctly.",
  ["inputs","configurations"],"all option kinds, values and absence",
  "No test calls the option readers directly.",
  ["src/utilities/aoptionparser.cpp"],[("readers","parsePetscCmd_*, parseOptionalPetscCmd_*")],
  "model-based testing against the generated database contents")
P("C03","The programs do from the command line what the library does directly",
  "For every case, running fvens_steady with a control file, PETSc options file and command-line overrides writes exactly the files, with the same solution, as the library configured directly with the same values, exits with zero on completion and non-zero on failure; convertformat reproduces the mesh in the requested format and fails on unknown formats, missing input or missing arguments; neither crashes or touches invalid memory.",
  ["inputs","configurations"],"all small meshes, gases, schemes, boundary conditions, orderings, explicit/implicit/matrix-free solvers and output requests",
  "The tests run fixed cases through their own drivers; no test runs the converter or checks which files the solver writes.",
  ["src/fvens_steady.cpp","src/utilities/convertformat.cpp","src/utilities/casesolvers.cpp","src/utilities/controlparser.cpp"],[("solver program","main, SteadyFlowCase"),("converter","main")],
  "differential testing of sanitised program runs against direct library use")
P("L01","Basic containers behave as arrays",
  "For every sequence of operations (resizing, element and row access, copying, assignment, filling, text round trips, moving), two-dimensional arrays and their views hold exactly what a plain row-major vector model holds; inclusive_scan computes the prefix sums of any list.",
  ["histories"],"all sequences of container operations on several arrays",
  "Tests only use the containers indirectly.",
  ["src/utilities/aarray2d.hpp","src/utilities/aarray2d.cpp","src/utilities/helper_algorithms.hpp"],[("array","Array2d"),("views","Array2dView, Array2dMutableView"),("scan","inclusive_scan")],
  "stateful model-based testing")

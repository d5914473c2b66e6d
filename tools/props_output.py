from props_base import *
P("O01","Surface output gives every face's Cp and Cf, and the true lift and drag",
  "For every flow state and choice of markers, the surface output of a wall has exactly one row per face of that marker, with the face's midpoint, the pressure coefficient and the skin-friction coefficient (wall shear from the configured gradient and viscosity model) of the state next to it, and lift and drag are the area-averaged forces across and along the free stream; other boundaries list positions and velocities; printed and returned values agree.",
  ["inputs","configurations"],"all meshes, states, gases, viscosity models, angles of attack and marker lists, including markers without faces",
  "The tests compare final force coefficients of a few cases with recorded values, and never read a surface file.",
  ["src/spatial/aoutput.cpp","src/spatial/flow_spatial.cpp"],[("surface files","FlowOutput::exportSurfaceData"),("coefficients","FlowFV_base::computeSurfaceData")],
  "differential testing against a long-double reference of stresses and forces",note="Known finding: the skin-friction drag has the wrong sign (pinned by regression tests); its magnitude is checked.")
P("O02","Output fields are the averages and gas quantities they claim to be",
  "For every mesh and state, nodal output is the area-weighted average of the conserved variables of the cells around each node turned into density, Mach number, pressure, temperature and velocity; cell and volume output give the same quantities cell by cell with the cell's centre; scalar fields are averaged likewise; the entropy error is the area-weighted norm of the relative deviation from free stream.",
  ["inputs"],"all hybrid meshes and states",
  "No test looks at output fields.",
  ["src/spatial/aoutput.cpp","src/spatial/diffusion.cpp"],[("nodal fields","FlowOutput::postprocess_point"),("volume file","FlowOutput::exportVolumeData"),("scalar fields","scalar_postprocess_point"),("entropy","FlowOutput::compute_entropy_cell")],
  "differential testing against a long-double reference; files parsed back")
P("O03","VTU files describe exactly the mesh and data they were given",
  "For every mesh and any number of scalar arrays with or without a vector array, the VTU files written are well formed and describe exactly the points, the cells with their corners, cumulative offsets and types, and every data array under its name with all its values to ten digits, at points or cells as asked.",
  ["inputs"],"all hybrid meshes and data arrays",
  "No test reads a VTU file back.",
  ["src/spatial/aoutput.cpp"],[("writers","writeMeshToVtu, writeScalarsVectorToVtu_PointData, writeScalarsVectorToVtu_CellData")],
  "round trip through an independent VTU reader")
P("O04","A completed case delivers what was asked for, from its final state",
  "For every case, solved to tolerance or not, run_output writes exactly the requested files (surface, VTU, volume, residual history on convergence), all describing the final state, and returns the mesh size parameter, entropy error and force coefficients of that state, with any list of output walls; history lines reproduce the monitored step values.",
  ["inputs","configurations"],"all cases, output requests and marker lists, including none",
  "The tests ignore the files and always ask for one wall.",
  ["src/utilities/casesolvers.cpp","src/spatial/aoutput.cpp"],[("driver","FlowCase::run_output"),("history","writeStepToConvergenceHistory")],
  "generated cases run to completion, outputs parsed back and compared with a reference evaluation of the final state",note="Known finding: the skin-friction drag returned has the wrong sign (pinned by regression tests); its magnitude is checked.")

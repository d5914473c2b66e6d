from props_base import P
P("S01","Cell gradients are exact where the scheme promises and follow its definition",
  "On every mesh and field, weighted least-squares gradients minimise the inverse-distance-weighted error and are exact for linear fields; Green-Gauss gradients are the boundary integral of the distance-weighted face averages over the area; both vanish for constants; 'none' gives zeros. The gradients a flow discretisation reports are those of the conserved variables with ghost states at the boundaries.",
  ["inputs","configurations"],"all hybrid meshes, fields and boundary conditions",
  "The tests check linear fields on two regular meshes with one scheme.",
  ["src/spatial/agradientschemes.cpp","src/spatial/flow_spatial.cpp"],
  [("schemes","compute_gradients of each class in agradientschemes.cpp"),("reporting","getGradients in flow_spatial.cpp")],
  "differential testing against long-double gradients on generated hybrid meshes, plus exactness for constant and linear fields")
P("S02","Face values follow the chosen limiter, are exact for linear fields and bounded",
  "For every mesh, field and parameter, the values reconstructed on both sides of every face are those of the definition of the unlimited, WENO, Van Albada, Barth-Jespersen or Venkatakrishnan reconstruction; constants are kept; unlimited and WENO reconstruction reproduce linear fields; Barth-Jespersen values stay within the range of the cell and its neighbours, ghost cells included.",
  ["inputs","configurations"],"all hybrid meshes, fields, gradients and limiter parameters",
  "The tests check unlimited reconstruction of one linear field; the limiters are only exercised through two converged flows.",
  ["src/spatial/areconstruction.cpp","src/spatial/limitedlinearreconstruction.cpp","src/spatial/musclreconstruction.cpp","src/utilities/afactory.cpp"],
  [("reconstruction","compute_face_values of each class")],
  "differential testing against long-double reconstructions, plus exactness and bound invariants")
P("S03","A uniform stream and a gas at rest are steady states",
  "On every mesh, a uniform stream equal to the free stream under far-field, extrapolation and inflow-outflow boundaries, and a uniform gas at rest between slip, adiabatic and isothermal walls at its own temperature, have zero residual for every flux, gradient scheme, limiter and viscosity model.",
  ["inputs","configurations"],"all hybrid meshes and numerical configurations",
  "The tests never evaluate a residual of a state known to be steady.",
  ["src/spatial/flow_spatial.cpp","src/spatial/aspatial.cpp"],
  [("residual","FlowFV::compute_residual")],
  "invariant on generated meshes and configurations: the residual of a steady state vanishes to roundoff")
P("S04","The flow residual is the discretised equations' and conserves",
  "For every mesh, state, boundary conditions, flux, order, gradient scheme, limiter and viscosity model, compute_residual adds to the vector minus the sum over a cell's faces of the numerical flux of the reconstructed states minus the viscous flux of the face-averaged gradients, times face length, each face counted once for each side; in a closed box mass and, between slip walls, energy are conserved.",
  ["inputs","configurations","histories"],"all hybrid meshes, admissible states, boundary conditions and numerical configurations",
  "The tests only compare integrated errors of converged flows against bounds.",
  ["src/spatial/flow_spatial.cpp","src/spatial/aspatial.cpp","src/spatial/flow_spatial.hpp"],
  [("residual","FlowFV::compute_residual, compute_fluxes, compute_viscous_flux in flow_spatial.cpp"),("face gradients","getFaceGradient_modifiedAverage in aspatial.cpp")],
  "differential testing against an independent long-double edge-based discretisation, and global balance")
P("S05","Local time steps are the cells' stable pseudo-time steps",
  "For every state, the time step computed with the residual is the cell's area divided by the sum over its faces of convective plus viscous spectral radius times length, taken from the states at the face on its side (reconstructed for second order), positive and finite.",
  ["inputs","configurations"],"all hybrid meshes, admissible states and viscosity models",
  "The tests never look at time steps; a wrong one only changes the rate of convergence.",
  ["src/spatial/flow_spatial.cpp"],
  [("time steps","FlowFV::compute_max_timestep")],
  "differential testing against long-double reference time steps")
P("S06","The assembled Jacobian is the derivative of the first-order residual",
  "For every mesh, first-order state and boundary conditions, the matrix set up and assembled for implicit solves holds, block by block, the derivative of the thin-layer first-order residual using the Jacobian flux chosen, with the freezing each flux documents, and nothing else; repeated assembly gives the same. The matrix can be set up for every mesh, however small.",
  ["inputs","configurations"],"all hybrid meshes and states where the derivative exists",
  "The tests only see implicit solvers converge, which a wrong Jacobian merely slows.",
  ["src/spatial/aspatial.cpp","src/spatial/flow_spatial.cpp","src/linalg/alinalg.cpp"],
  [("assembly","Spatial::assemble_jacobian"),("blocks","compute_local_jacobian_interior/boundary"),("preallocation","setJacobianPreallocation")],
  "comparison with central differences of long-double reference face fluxes")
P("S07","The matrix-free product is the finite-difference Jacobian-vector product",
  "For every mesh, state, vector, mass term and difference step, the matrix-free operator gives the mass term times the vector plus the first-difference directional derivative of the full-order residual with the step scaled by the vector's norm, regardless of the output vector's previous contents.",
  ["inputs","configurations","histories"],"all meshes, states, non-zero vectors and difference steps",
  "The test compares one product on one mesh with the assembled first-order Jacobian.",
  ["src/linalg/alinalg.cpp"],
  [("product","MatrixFreeSpatialJacobian::apply")],
  "differential testing against difference quotients of the long-double reference residual")
P("S08","The discretisation does not depend on numbering or on the coordinate frame",
  "Renumbering cells, nodes and boundary faces or rotating the local node numbers permutes residuals and time steps; translating, rotating (quarter turns for limited schemes) or mirroring mesh, state and free stream does the same to the residual.",
  ["inputs","configurations"],"all hybrid meshes, states, configurations, renumberings and rigid motions",
  "Every test uses a fixed numbering and frame.",
  ["src/spatial/flow_spatial.cpp","src/spatial/agradientschemes.cpp","src/mesh/mesh.cpp"],
  [("residual","FlowFV::compute_residual"),("connectivity","UMesh::compute_topological")],
  "metamorphic relations between the library's residuals of the original and transformed problems")
P("S09","The diffusion residual and Jacobian are those of the model equation",
  "For every mesh, field, diffusivity, boundary value, source and gradient scheme, the scalar diffusion residual is the sum of the face fluxes of the modified-average gradient plus the source times area, the time steps h squared over diffusivity, the gradients reported those with Dirichlet ghost values, and the Jacobian the derivative of the thin-layer residual, boundary included.",
  ["inputs","configurations"],"all hybrid meshes, fields and parameters",
  "The tests check the convergence order of one Poisson problem, which a wrong boundary Jacobian does not alter.",
  ["src/spatial/diffusion.cpp","src/spatial/diffusion.hpp"],
  [("residual","DiffusionMA::compute_residual"),("Jacobian","compute_local_jacobian_interior/boundary in diffusion.cpp")],
  "differential testing against a long-double reference, exact differences of the affine operator")

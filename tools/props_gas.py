from props_base import P
P("F01","Numerical fluxes are consistent, conservative and frame-independent",
  "For every pair of physical states and face direction, each of the seven inviscid fluxes equals the physical flux when both states agree, is equal and opposite as seen from the two sides, rotates and mirrors with the flow, and scales with the units. When the flow crosses the face supersonically all except LLF return the upstream flux. AUSM, AUSM+ and HLLC keep stationary contacts and shear layers exactly, Roe up to its entropy fix.",
  ["inputs"],"all admissible pairs of states, directions, gas constants",
  "The tests evaluate consistency for two states; symmetric errors, sonic branches and single-direction slips go unseen.",
  ["src/spatial/anumericalflux.cpp","src/spatial/anumericalflux.hpp","src/utilities/afactory.cpp"],
  [("flux functions","get_flux of each class in anumericalflux.cpp"),("selection by name","create_const_inviscidflux in afactory.cpp")],
  "metamorphic relations on generated state pairs (shocks, contacts, sonic points, near-rest, supersonic, close states)")
P("F02","Each numerical flux computes the published formula",
  "LLF, Van Leer, AUSM, AUSM+, Roe (with the 1e-4 entropy fix), HLL and HLLC (Einfeldt-Batten wave speeds) give the flux of their published definitions, selected by name, on all branches.",
  ["inputs"],"all admissible pairs of states, directions, gas constants",
  "The tests never compare a flux with its definition away from equal states.",
  ["src/spatial/anumericalflux.cpp"],
  [("flux functions","get_flux of each class in anumericalflux.cpp"),("Roe averages","RoeAverageBasedFlux::getRoeAverages")],
  "differential testing against long-double reference formulas written from the literature")
P("F03","Analytic flux Jacobians are the derivatives of the fluxes",
  "The Jacobian blocks are minus and plus the derivatives of the flux with respect to the left and right states: exactly for Roe and HLLC (and the full LLF variant), with frozen spectral radius for LLF and frozen signal speeds for HLL.",
  ["inputs"],"all admissible pairs of states, directions, gas constants, away from points where the flux is not differentiable",
  "The tests compare with finite differences at two or three fixed states, which do not reach every branch.",
  ["src/spatial/anumericalflux.cpp"],
  [("Jacobians","get_jacobian, get_jacobian_2 in anumericalflux.cpp"),("Roe-average derivatives","getJacobiansRoeAveragesWrtConserved")],
  "comparison with central differences of long-double reference fluxes; points within a step of a branch switch are skipped",
  note="Approximate Jacobians are checked as such. AUSM's, AUSM+'s and Van Leer's Jacobians are documented as not working and are not covered. Known finding: Roe's Jacobian inside the entropy-fix band.")
P("G01","Gas relations and variable conversions are consistent and exact",
  "Conversions between conserved, primitive and temperature variables are mutual inverses (also in place), all forms of pressure, temperature, energy, density, sound speed, entropy, enthalpy and directional flux agree with the ideal gas law in the stated nondimensionalisation, viscosity follows Sutherland's law, and the free stream has unit density, speed and temperature, the requested Mach number and direction. A finite change of state changes the pressure by the amount reported.",
  ["inputs","configurations"],"all admissible states, gas constants and free-stream conditions",
  "The tests check a few conversions at one state and one free stream.",
  ["src/physics/aphysics.cpp","src/physics/aphysics_defs.hpp"],
  [("gas relations","IdealGasPhysics in aphysics_defs.hpp"),("free stream","compute_freestream_state in aphysics.cpp")],
  "round trips and comparison with independent formulas over generated states and constants")
P("G02","Derivatives of gas quantities are correct",
  "Derivatives of pressure, temperature, sound speed, normal Mach number, velocity, enthalpy, viscosity, conductivity, energy, density and physical flux with respect to the conserved state equal the true derivatives, and spatial gradients follow the chain rule. Functions documented to add do add to what is there.",
  ["inputs"],"all admissible states, directions and gas constants",
  "The tests check some of these at single states.",
  ["src/physics/aphysics.cpp","src/physics/aphysics_defs.hpp"],
  [("derivatives","getJacobian*, getGrad* in aphysics_defs.hpp and aphysics.cpp")],
  "comparison with central differences of independent long-double formulas",
  note="Known finding: the derivative of Sutherland's law.")
P("G03","Viscous fluxes and their Jacobians follow the Navier-Stokes equations",
  "The viscous flux across a face is that of a Newtonian fluid with Stokes' hypothesis and Fourier's law for the given face gradient and averaged state, constant or Sutherland viscosity, and vanishes in rigid rotation. Its Jacobian is its derivative including the dependence of the face gradient on the states. Conversion of face states and gradients to temperature variables is exact, in place or not.",
  ["inputs"],"all admissible states, gradients, gradient Jacobians, directions, gas constants and both viscosity models",
  "The tests check the flux's Jacobian at few states.",
  ["src/physics/viscousphysics.cpp","src/physics/aphysics_defs.hpp"],
  [("viscous flux","computeViscousFlux, computeViscousFluxJacobian in viscousphysics.cpp"),("stress","getStressTensor, getJacobianStress")],
  "comparison with an independent viscous flux and central differences of it",
  note="Known finding: the Sutherland part of the Jacobian inherits the wrong derivative of Sutherland's law.")

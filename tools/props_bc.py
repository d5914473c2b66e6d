from props_base import P
P("B01","Ghost states impose the boundary condition they are named after",
  "For every interior state and face direction: slip walls mirror the normal velocity and let no mass or energy through for any numerical flux; no-slip walls make the mean velocity at the face the wall's and let no mass through; adiabatic walls leave the temperature continuous; isothermal walls make the mean temperature the wall's; far field gives the free stream; extrapolation the interior; inflow-outflow picks free stream, interior with the free stream's pressure, or interior by the normal Mach number; total-condition inflow admits gas along the inward normal with the outgoing invariant and stagnation sound speed of the interior and the imposed total pressure and temperature. Each marker gets its own condition; unimplemented ones are refused.",
  ["inputs","configurations"],"all admissible interior states, face directions, gas constants, boundary values and sets of markers",
  "The tests run a few cases in which wrong ghost states would hide, and never an isothermal wall, a moving wall or a total-condition inflow.",
  ["src/spatial/abc.cpp","src/spatial/abc.hpp"],
  [("ghost states","computeGhostState in abc.cpp"),("set-up by marker","create_const_flowBCs")],
  "comparison with independently written long-double ghost states, plus invariants on the pair of states and the fluxes through walls")
P("B02","Ghost-state Jacobians are the derivatives of the ghost states",
  "The ghost state computed together with its Jacobian is the one computed alone, and the Jacobian is its derivative with respect to the interior state, for slip, adiabatic and isothermal walls, far field, inflow-outflow and extrapolation.",
  ["inputs"],"all admissible interior states, directions and boundary values away from the switches of inflow-outflow",
  "The tests compare against finite differences at one or two states and leave out the isothermal wall.",
  ["src/spatial/abc.cpp"],
  [("Jacobians","computeGhostStateAndJacobian in abc.cpp")],
  "comparison with central differences of long-double reference ghost states",
  note="The total-condition inflow documents that its Jacobian is not implemented, and is left out.")

P('A01', [U('kepler.cpp', 'h_kepler h_kepler_vallado h_kepler_misc h_kepler_conv', inc=STUB)],
  title="Kepler solvers report success only for a solution of Kepler's equation",
  stmt="For every eccentricity below one and every mean anomaly (any sign or number of turns), when a Kepler solver reports success its result is the end of a Newton iteration for E - e sin E = M (M reduced to one turn) whose last residual (respectively last step) does not exceed the requested tolerance; circular orbits give E = M and a run that exhausts its iterations reports failure.",
  over=['inputs'], text='all e in [0,0.95], M in [-20,20], tolerances 1e-9..0.5 for runs of up to 2 (3 thorough) iterations; a grid of 240 (e,M) pairs to full convergence', why='The shipped Kepler test needs missing dependencies and compares a few values.',
  files=['src/astrodynamics/kepler.cpp'], mech=[('Newton iteration', 'src/astrodynamics/kepler.cpp kepler, kepler_vallado')], obs=['returned E and status'],
  bounds='up to 2 (3) iterations symbolically; the grid covers convergence at the default tolerance')
P('A02', [U('orbit.cpp', 'h_el2state h_perifocal', inc=STUB)],
  title='Orbital elements map to the state of the Keplerian orbit',
  stmt="For every elliptic element set and time offset, all routes from elements to a Cartesian state (element conversion in both vector types, element propagation, perifocal coordinates followed by rotation) give the same state: the perifocal ellipse position and velocity at the eccentric anomaly solving Kepler's equation at M0 + n dt, rotated by Rz(node) Rx(inclination) Rz(pericentre). The rotation matrix is orthogonal and the perifocal and equatorial transformations invert each other for any vectors.",
  over=['inputs'], text='all elements (e<=0.9) with any angles, eccentric anomaly in [-3,3], any dt, any GM', why='Transposed or swapped rotations agree for special angles; no running test covers them.',
  files=['src/astrodynamics/state2kepler.cpp', 'src/astrodynamics/propagate_state.cpp', 'src/astrodynamics/perifocal.cpp'], mech=[('element conversion', 'src/astrodynamics/state2kepler.cpp elements2state'), ('propagation', 'src/astrodynamics/propagate_state.cpp'), ('frame', 'src/astrodynamics/perifocal.cpp')],
  obs=['Cartesian state, perifocal state'], bounds="real arithmetic; Kepler's equation replaced by its contract (E - e sin E = M asserted at the call)")
P('A03', [U('orbit.cpp', 'h_state2el h_state2kep h_state2kep_v h_state2kep_m h_pos2ad', inc=STUB)],
  title='Elements recovered from a state describe that state',
  stmt='For every elliptic, non-circular, non-equatorial state, each conversion from position and velocity returns the angular momentum (or semi-major axis from vis-viva), eccentricity, inclination, node, argument of pericentre and anomaly (mean or true) of the osculating orbit, angles correct modulo full turns and in the right quadrant; right ascension and declination of any position off the poles reproduce its direction.',
  over=['inputs'], text='orbits of any size, gravity parameter and eccentric anomaly for five eccentricities (0.0025 to 0.96) and four orientations; all positions for right ascension', why='Quadrant mistakes show only for particular geometry.',
  files=['src/astrodynamics/state2kepler.cpp', 'src/astrodynamics/pos2ra.cpp'], mech=[('state2elements', 'src/astrodynamics/state2kepler.cpp'), ('state2kepler variants', 'src/astrodynamics/state2kepler.cpp')], obs=['elements'],
  bounds='five eccentricities, four orientations, |E| in [0.01,3], real arithmetic, angles compared modulo 2 pi')
P('A04', [U('orbit.cpp', 'h_partials', inc=STUB), U('transition.cpp', 'h_transition', inc=STUB)],
  title='Keplerian state partials and transition matrix are exact derivatives',
  stmt='The 6x6 partials of a Keplerian state with respect to the elements at epoch equal the analytic derivatives for every orbit and time offset, and the state transition matrix returned by propagation maps the partials at epoch to those at the target time (hence is the identity for zero offset) and accompanies the propagated state.',
  over=['inputs'], text='all a, e, E, dt for three orientations; transition for 12 orbit shapes with any pair of anomalies', why='36 derivative entries; no test evaluates any.',
  files=['src/astrodynamics/state_partials.cpp', 'src/astrodynamics/propagate_state.cpp'], mech=[('partials', 'src/astrodynamics/state_partials.cpp'), ('Poisson brackets', 'src/astrodynamics/propagate_state.cpp')], obs=['matrices'],
  bounds='GM=1, three orientations (one retrograde); transition matrix: e in {0.1,0.28,0.6}, a in {1,4}')
P('A05', [U('forces.cpp', 'h_drag h_drag_rot h_srp h_srp_grad', inc=STUB)],
  title='Drag and radiation pressure obey their laws with exact partials',
  stmt='Atmospheric drag is -CD A rho |w| w/(2m) with w the velocity relative to the co-rotating atmosphere (also when evaluated through a frame rotation), radiation pressure is directed away from the Sun with inverse-square magnitude, and the returned partials with respect to position, velocity and coefficient are the derivatives of these laws.',
  over=['inputs'], text='all positions, velocities, densities, density gradients, areas, masses and coefficients in range', why='No running test evaluates the partials.',
  files=['src/astrodynamics/drag.cpp', 'src/astrodynamics/solar_radiation.cpp'], mech=[('drag_accel', 'src/astrodynamics/drag.cpp'), ('solar_radiation_acceleration', 'src/astrodynamics/solar_radiation.cpp')], obs=['accelerations, partials'], bounds='ranges of low Earth orbit; rotations about each axis; real arithmetic; Earth rotation constant from the iers2010 stand-in')
P('A06', [U('forces.cpp', 'h_shadow h_shadow_eigen h_shadow_cone h_shadow_ell', inc=STUB)],
  title='Shadow functions classify sunlight by the shadow geometry',
  stmt='The cylindrical shadow function is 1 on the Sun side or outside the cylinder of Earth radius and 0 behind the Earth inside it, identically for both vector types; the conical function is 1 outside the penumbra cone, 0 inside the umbra cone and one half between them.',
  over=['inputs'], text='all satellite positions above 6300 km for four Sun directions', why='The shipped shadow test prints values for one orbit.', files=['src/astrodynamics/occultation.cpp'],
  mech=[('cylinder', 'src/astrodynamics/occultation.cpp montebruck_shadow'), ('cones', 'vallado_shadow')], obs=['shadow factor'], bounds='coordinates within 20000 km, margins of 1..10 m at the boundaries')

NEE = dict(inc=STUB, flags=['-DEIGEN_NO_DEBUG'])
P('E01', [U('eop.cpp', 'h_table h_c04 h_c04_bad', **NEE)],
  title='Earth orientation tables hold the C04 values of every day asked for',
  stmt='Reading a C04 file for [start, end) yields exactly one epoch per day of the interval, in order, tagged with terrestrial time, each column holding that day\'s value; a missing, malformed or truncated file, a day missing or repeated or an impossible interval is an error. Copying, moving and assigning tables in any order, whatever their capacities, keeps every value, never lets two tables share storage, and neither leaks nor frees memory twice.',
  over=['inputs', 'histories'], text='all values of the six columns; start, length and table capacity; days around leap seconds; eleven ways a file is wrong; histories of copies, moves, assignments and refills of tables of different size and capacity',
  why='Tests read one file into one table and never copy it; a table copied after it was resized looks fine until its values are used.',
  files=['src/eop.hpp', 'src/iers/parse_c04.cpp'], mech=[('table', 'src/eop.hpp EopLookUpTable'), ('C04 file', 'src/iers/parse_c04.cpp parse_iers_C04')],
  obs=['table contents, return value, live heap blocks'], bounds='files of 6 days, tables of up to 5 epochs, histories of up to 5 operations; leap seconds and calendar of the (not installed) date library by an exact stand-in')
P('E02', [U('eop.cpp', 'h_interp', **NEE)],
  title='Earth orientation at an epoch: interpolation plus every tidal correction once',
  stmt='For an epoch inside the table each of the six parameters is its column interpolated at that epoch with the order asked for, plus the zonal, ocean and libration corrections of that epoch, each added once to the parameters it belongs to; regularising a table removes the zonal tide of each day from UT1 and length of day only. An epoch outside the table or a failing interpolation of any column is reported as an error.',
  over=['inputs', 'faults'], text='all epochs in and outside the table, all column values and corrections, failure of each column, plain and corrected interpolation, regularised or not, order 3 and 5',
  why='Corrections are tiny: a missing, doubled or wrongly signed one changes no test, and errors were dropped.',
  files=['src/iers/eop_interpolate.cpp', 'src/eop.hpp'], mech=[('interpolation', 'src/iers/eop_interpolate.cpp EopLookUpTable::interpolate'), ('regularisation', 'src/eop.hpp EopLookUpTable::regularize')],
  obs=['interpolated record, return value'], bounds='table of 3 days; the IERS models and the Lagrange interpolation of a column (library not installed) are stand-ins: linear tides with symbolic coefficients, linear interpolation')
NEO = dict(inc=STUB, flags=['-DEIGEN_NO_DEBUG', '-DNEW_EOP'])
P('E03', [U('frames.cpp', 'h_frames h_epoch', **NEO)],
  title='Celestial/terrestrial transformations: rotation, inverse and rotating frame',
  stmt='A position goes from the celestial to the terrestrial frame by pole, Earth rotation angle and polar motion in that order, and back by the exact inverse; a velocity also gets the term of the Earth\'s rotation at the rate of the given length of day, so a transformed state is the derivative of the transformed position. The matrices of an epoch (TAI) use precession and polar motion at TT, the rotation angle at UT1, the tabulated pole offsets added to the model in radians, and its length of day; no Earth orientation for the epoch is an error.',
  over=['inputs', 'faults'], text='all rotation angles, positions, velocities, lengths of day; all Earth orientation parameters; times of day including both sides of a leap second; failure of the table',
  why='A velocity term of the wrong sign or a time scale off by a leap second moves results by metres only for some states and dates; tests print.',
  files=['src/itrs2gcrs.cpp'], mech=[('transformations', 'src/itrs2gcrs.cpp rcel2ter, rter2cel, ycel2ter, yter2cel'), ('matrices of an epoch', 'src/itrs2gcrs.cpp gcrs2itrs')],
  obs=['transformed vectors, matrices, rotation angle, status'], bounds='pole and polar motion matrices are rotations about one axis each (two choices) with symbolic angle; the IAU 2006 series (library not installed) are stand-ins that check their arguments; three days; real arithmetic')
P('E04', [U('planets.cpp', 'h_sun h_moon h_moon_vallado h_dates', **NEO)],
  title='Analytical positions of Sun and Moon follow the published series',
  stmt='The low precision series give the geocentric equatorial position in kilometres of the published theories: Sun after Montenbruck and Gill, Vallado and Curtis, Moon after Montenbruck and Gill and Vallado - every term with its amplitude, sign and argument, the right distance, and the rotation by the obliquity, for epochs before and after J2000, given as centuries (days) or as a date.',
  over=['inputs'], text='all epochs of windows around 1950, 2000, 2020 and 2035; all values of the fundamental arguments of the lunar theory',
  why='An amplitude or rate with two digits exchanged is invisible at the epochs a test prints.',
  files=['src/planets/sunpos.cpp', 'src/planets/moonpos.cpp'], mech=[('Sun', 'src/planets/sunpos.cpp sun_vector_*'), ('Moon', 'src/planets/moonpos.cpp moon_vector_*')],
  obs=['position vector, status'], bounds='windows of 0.02 (Sun) and 0.001 (Moon) Julian centuries at four epochs; fundamental arguments (library not installed) symbolic in [-6, 6]; sine arguments equal within 1e-11 are identified; real arithmetic')
P('E05', [U('frames.cpp', 'h_sunmoon h_body_at h_kernels', **NEO)],
  title='Third bodies: accelerations from ephemeris positions; kernels loaded once',
  stmt='For an epoch (TAI) and a geocentric position in metres the Sun and Moon accelerations, the Moon\'s partials and the Sun\'s position are those of the bodies\' geocentric inertial positions at that epoch\'s ephemeris time, all in SI units whatever the units of the gravitational parameters\' source. A SPICE kernel is loaded exactly when no kernel of that kind with that full name is, and gravitational parameters go to the body they belong to.',
  over=['inputs', 'histories'], text='all positions of satellite, Sun and Moon, gravitational parameters and times of day; histories of three kernel requests with names that are prefixes of each other, in all kinds',
  why='Unit and time scale mistakes change accelerations smoothly; a kernel name that extends another one works in every test that loads a single one.',
  files=['src/sunmoon.cpp', 'src/planets/cspice_utils.cpp', 'src/planetpos.hpp'], mech=[('accelerations', 'src/sunmoon.cpp SunMoon'), ('kernels', 'src/planets/cspice_utils.cpp load_if_unloaded_*, get_sun_moon_GM')],
  obs=['accelerations, partials, calls to the SPICE library'], bounds='two days; the SPICE library (not installed) is a stand-in that checks its arguments; point mass attraction itself is property G09; three requests, four names')
P('E06', [U('vareq.cpp', 'h_linear h_where h_area h_time', **NEO)],
  title='Variational equations: forces, frames and partials put together correctly',
  stmt='The derivative of the state is velocity and the sum of gravity (evaluated at and rotated back from the Earth-fixed position), Sun, Moon and drag accelerations in the inertial frame; the derivative of the transition matrix is the one the partials of exactly these accelerations imply, with the sensitivity to the drag coefficient. Density and its gradient belong to the satellite\'s position and epoch (UTC day and time), and the drag area is the sum of the plates facing the flow relative to the rotating atmosphere in the satellite\'s attitude.',
  over=['inputs'], text='all model results and partials, all transition matrices, positions, velocities, attitudes, rotation angles, epochs with steps forward, backward, across midnight and a leap second',
  why='An Earth-fixed partial added to inertial ones, or a density of the neighbouring point, only degrades an orbit fit; no test looks.',
  files=['src/variational_equations.cpp', 'src/orbit_integration.hpp', 'src/atmosphere/nrlmsise00.hpp'], mech=[('equations', 'src/variational_equations.cpp VariationalEquations'), ('parameters', 'src/orbit_integration.hpp IntegrationParameters'), ('density input', 'src/atmosphere/nrlmsise00.hpp InParams')],
  obs=['derivative vector'], bounds='the force models are stand-ins with symbolic results that check where they are evaluated (they are properties G08, G09, A05, M01, M04); each of results, place, attitude and epoch symbolic in turn; up to 4 plates; real arithmetic',
  assume=['a failing model is caught by assert() only (abort); what happens with NDEBUG is not covered'])

NE = dict(inc=STUB, flags=['-DEIGEN_NO_DEBUG'])
P('D01', [U('doris.cpp', 'h_freq h_iono h_rel', **NE)],
  title='DORIS frequencies, ionosphere correction and relativistic clock term',
  stmt='A beacon with frequency shift factor k transmits at 543 and 107 times (3/4 F0 + 87 k F0 / (5 2^26)). Adding the ionospheric correction to the 2 GHz phase removes any first-order ionospheric effect exactly: for phases built from a distance and any electron content the corrected phase is the distance in 2 GHz cycles. The relativistic clock term of a position and velocity is (GM/r + v^2/2)/c, and with oblateness the potential gains exactly the J2 term at the latitude of that position.',
  over=['inputs'], text='all shift factors -60..60, all phases, distances and electron contents, positions, velocities, gravitational constants, J2, radii and latitudes in the bound',
  why='No test evaluates them; a wrong sign or factor shifts Doppler by amounts other estimated parameters absorb.',
  files=['src/doris_system_info.hpp', 'src/doris_observation_equations.hpp', 'src/relativity/relativistic_clock_correction.cpp'],
  mech=[('frequencies', 'src/doris_system_info.hpp beacon_nominal_frequency'), ('ionosphere', 'src/doris_observation_equations.hpp carrier_iono_correction'), ('relativity', 'src/relativity/relativistic_clock_correction.cpp')],
  obs=['returned values'], bounds='loop free; |k| <= 60; latitude supplied by a stand-in of the geodesy library (any value); real arithmetic')
P('D02', [U('doris.cpp', 'h_pco h_pcv', **NE)],
  title='Ground antennas: phase centres and phase corrections of the right model',
  stmt='The fourth letter of a station code decides the antenna (A Alcatel, B and C Starec); any other is refused. The ionosphere-free phase centre is h1 + (h1 - h2)/(gamma - 1) above the reference point, with the 2 GHz and 400 MHz heights of that antenna. The 2 GHz phase correction at zenith angles 0 to 90 degrees, both included, is the linear interpolation of the antenna\'s own 5 degree table; 400 MHz has none. Other zenith angles are flagged and give zero.',
  over=['inputs'], text='every letter of a set with all valid and some invalid ones, all zenith angles in the bound, three antennas, two frequencies',
  why='The tests that use antennas need data files; errors are millimetres.',
  files=['src/antenna_pcv.hpp', 'src/doris_system_info.hpp', 'src/doris/doris_system_info.cpp'],
  mech=[('pattern', 'src/antenna_pcv.hpp AntennaOffsetTraits::pcv'), ('phase centre', 'src/doris_system_info.hpp iono_free_phase_center')],
  obs=['offset vector, correction, out of bounds flag'], bounds='zenith angles -1..4 rad; real arithmetic')
P('D03', [U('satellites.cpp', 'h_mass h_mass_at h_mass_bad h_macro', eopts={'h_mass': {'shards': 4}}, **NE)],
  title='Satellite mass and centre of gravity follow the history in force',
  stmt='Mass and centre of gravity of Jason-3 and Cryosat-2 at an epoch are the initial values plus the four corrections, signs included, of the latest history record before that epoch (none: zero), wherever in the day epoch and record lie and however the columns are spaced; comment lines are ignored. A missing file or a malformed record met on the way is an error. The macro model plates have unit normals and fractions that add up to one.',
  over=['inputs', 'histories'], text='all corrections, record times, orders of days and seconds, spacings, comments, both satellites', why='Needs data files; the comparison of days and seconds fails only for certain pairs.',
  files=['src/satellites/satellite_corrections.cpp', 'src/satellites/jason3.hpp', 'src/satellites/cryosat2.hpp'],
  mech=[('history', 'src/satellites/satellite_corrections.cpp get_satellite_corrections'), ('initial values', 'src/satellites/jason3.hpp mass_cog')],
  obs=['mass, centre of gravity, return value'], bounds='1..3 records (4 thorough) within four days, three query days and times of day; records at exactly the epoch excluded')
P('D04', [U('satellites.cpp', 'h_quat h_quat_at h_quat_read h_quat_bad', eopts={'h_quat': {'shards': 3}}, **NE)],
  title='Jason-3 attitude at an epoch comes from the two records around it',
  stmt='Each record of a body quaternion file is read with its UTC epoch converted to TAI and its scalar and vector parts, comments skipped. The attitude at any epoch inside the file is the normalised spherical interpolation between the last record not after it and the next one, for any sequence of epochs that does not go back beyond the records buffered; epochs outside the file are an error, never a wrong attitude or a crash. A malformed or truncated record is an error.',
  over=['inputs', 'histories'], text='all epochs, sequences of epochs, quaternion values; three spacings of the records (regular, with gaps, across midnight), with and without comments',
  why='Needs quaternion files; buffering errors depend on the sequence of epochs asked for.',
  files=['src/satellites/jason3_quaternions.cpp', 'src/satellites/jason3_quaternions.hpp'],
  mech=[('parsing', 'src/satellites/jason3_quaternions.cpp resolve_jason3_body_quaternion_line'), ('interval search', 'src/satellites/jason3_quaternions.cpp set_at, jason3_quaternions.hpp find_interval')],
  obs=['quaternion, epoch, return value'], bounds='6..7 records, 2 epochs in sequence (8 and 3 thorough), at least 1 ms from a record; Eigen slerp is the oracle for one interval')
P('D05', [U('beacons.cpp', 'h_table h_table_bad', eopts={'h_table': {'shards': 4}}, **NE)],
  title='The beacon table yields exactly the entries valid at an epoch',
  stmt='Loading a beacon table at an epoch returns, in file order, exactly the lines whose interval [from, to) contains it, each with its code, height and interval, whatever errno was before. A missing file or a line with an unreadable date or height, or cut short, is an error.',
  over=['inputs'], text='all epochs (nanoseconds) of six days, heights, sets of validity intervals including leap days and adjoining ones', why='Needs a beacon table; adjoining intervals and stale error state are not sampled.',
  files=['src/beacon_tbl/beacon_tbl.cpp', 'src/beacon_tbl.hpp'], mech=[('selection', 'src/beacon_tbl/beacon_tbl.cpp load_to_memmory')],
  obs=['returned entries, exceptions'], bounds='1..3 lines (4 thorough)')

P('D06', [U('sinex.cpp', 'h_extrapolate h_broken', **NE)],
  title='Station coordinates of a SINEX file extrapolated to an epoch',
  stmt='For a list of sites and an epoch the result holds, in the order asked for and under their four letter codes, exactly the sites of the file, each at its own position plus velocity times the years since its own reference epoch. A site that is missing or whose estimates are missing or in other units is an error when every site is required; otherwise a missing site is only left out. An unreadable file is an error; earlier results never survive.',
  over=['inputs', 'histories', 'faults'], text='all positions and velocities; lists of sites with duplicates of prefixes, missing and unlisted sites; three orders of the file, other parameters between; missing or badly scaled estimates; failures of either block',
  why='Tests need a DPOD file with every site present; partly missing sites shift coordinates to the neighbouring station or fail.',
  files=['src/ids/get_pdop_crd.cpp', 'src/doris_utils.hpp'], mech=[('selection and extrapolation', 'src/ids/get_pdop_crd.cpp extrapolate_sinex_coordinates')],
  obs=['coordinates, codes, count, status'], bounds='four sites with one solution each, up to three asked for, three epochs; the SINEX library (not installed) is a stand-in that returns the blocks',
  assume=['several solution intervals per site and an unreadable file whose library object throws are not covered'])

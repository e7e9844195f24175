NEA = dict(inc=STUB, flags=['-DEIGEN_NO_DEBUG'])
P('M01', [U('atmo.cpp', 'h_exp h_cont', **NEA)],
  title='Exponential atmosphere: right layer, positive and continuous with altitude',
  stmt='At any positive altitude the exponential atmosphere returns the nominal density of the layer the altitude lies in times exp(-(h - h0)/H) with base altitude, density and scale height of that layer as published (Vallado, table 8-4): always positive, and continuous across every layer boundary to 0.2 per cent.',
  over=['inputs'], text='all altitudes of all 28 layers, both sides of every boundary', why='No test calls it; an error in one row or boundary shows only for altitudes in that row.',
  files=['src/atmosphere/exponential_atmospheric_model.cpp'], mech=[('layer table and search', 'src/atmosphere/exponential_atmospheric_model.cpp density')], obs=['returned density'], bounds='altitudes up to 1050 km (1500 thorough); loop over layers fully unrolled; exp uninterpreted with its functional equation')
P('M02', [U('flux.cpp', 'h_values h_history h_bad', eopts={'h_history': {'shards': 6}, 'h_values': {'shards': 3}}, **NEA)],
  title='Space weather feed: fluxes and magnetic indices belong to the epoch',
  stmt='For an epoch the feed gives the centred 81 day flux average and daily index of that day, the flux of the day before, the three-hourly indices of the current interval and those 3, 6 and 9 hours before, and the averages of the eight indices 12 to 33 and 36 to 57 hours before, whatever was asked for before. It starts or updates exactly when that day and the three before it are in the file; a failed update changes nothing and does not spoil later ones. Missing, malformed or truncated files are errors.',
  over=['inputs', 'histories'], text='all times of day and column values; histories of up to two updates forward and backward in a file with and without gaps, empty optional columns and final newline',
  why='Tests only print; errors depend on the order of epochs and on where the file ends.',
  files=['src/var/celestrak_swdata.cpp', 'src/atmosphere/nrlmsise00_get_flux_data.cpp', 'src/atmosphere/nrlmsise00_params.cpp', 'src/atmosphere/nrlmsise00.hpp'],
  mech=[('CSV file', 'src/var/celestrak_swdata.cpp parse_csv_for_date'), ('feed', 'src/atmosphere/nrlmsise00_get_flux_data.cpp Nrlmsise00DataFeed'), ('epoch', 'src/atmosphere/nrlmsise00.hpp InParams::update_params')],
  obs=['model input parameters, return value, exceptions'], bounds='4..8 days around new year and February 29; three-hourly indices concrete and distinct; two updates (three thorough), 3 files (6 thorough)')
P('M03', [U('atmo.cpp', 'h_globe h_glob7s h_switch h_switches h_rows', eopts={'h_globe': {'shards': 3}, 'h_glob7s': {'shards': 2}}, **NEA)],
  title='NRLMSISE-00 expansions depend on the given inputs only',
  stmt='The spherical harmonic expansions of NRLMSISE-00 (upper and lower atmosphere) evaluate the published functions of day, second, latitude, longitude, local time, 10.7 cm flux, its average and the magnetic index (daily or three-hourly history) with the published coefficients of the row asked for, with the terms switched on. What was evaluated before - in the same or another model object, at the same or another latitude, local time or date - never changes the result. Each switch operation changes exactly the switches it names.',
  over=['inputs', 'histories'], text='all values of the inputs, every coefficient row, each term switched off, switch operations in sequence, pairs of evaluations in one or two objects sharing or not sharing latitude, local time and index mode',
  why='Tests evaluate a fixed table of cases in one object; cached intermediate values go wrong only for certain orders of evaluation.',
  files=['src/atmosphere/nrlmsise00_globe7.cpp', 'src/atmosphere/nrlmsise00_glob7s.cpp', 'src/atmosphere/nrlmsise00_data.cpp', 'src/atmosphere/nrlmsise00.hpp'],
  mech=[('expansion', 'src/atmosphere/nrlmsise00_globe7.cpp globe7'), ('lower atmosphere', 'src/atmosphere/nrlmsise00_glob7s.cpp glob7s'), ('switches', 'src/atmosphere/nrlmsise00.hpp Switches')],
  obs=['returned expansion'], bounds='two evaluations in sequence; latitudes and local times equal or more than 1e-5 degrees/hours apart; days 1, 172, 366; coefficients compared with a frozen table that reproduces the seventeen published reference cases; real arithmetic')
P('M04', [U('atmo.cpp', 'h_spline h_splint h_corr h_dnet h_const', **NEA), U('atmolow.cpp', 'h_nodes h_mix h_gravity h_hydro', **NEA), U('atmotop.cpp', 'h_thermo', **NEA)],
  title='NRLMSISE-00 profiles: temperature, composition and mass density',
  stmt='For any values of the expansions the model returns the published atmosphere: temperature passing through its nodes and continuous where profiles join, Bates profile above; species in diffusive equilibrium with their mixed-atmosphere and chemistry corrections above 72.5 km, continuous there; hydrostatic and fully mixed below 62.5 km; mass density the sum over species, with anomalous oxygen when the effective density is asked for; in cgs or SI units; gravity and radius at the latitude (at 45 degrees when that term is off).',
  over=['inputs'], text='all values of the expansions, fluxes, latitudes; altitudes above, at and below every joint; both units, both density conventions',
  why='Tests compare seventeen reference cases; most altitude branches and switches are not among them.',
  files=['src/atmosphere/nrlmsise00_gtd7.cpp', 'src/atmosphere/nrlmsise00_gts7.cpp', 'src/atmosphere/nrlmsise00_densm.cpp', 'src/atmosphere/nrlmsise00_densu.cpp', 'src/atmosphere/nrlmsise00_gtd7d.cpp', 'src/atmosphere/nrlmsise00_splint.cpp', 'src/atmosphere/nrlmsise00_splini.cpp', 'src/atmosphere/nrlmsise_spline.cpp', 'src/atmosphere/nrlmsise00_ccor.cpp', 'src/atmosphere/nrlmsise00_ccor2.cpp', 'src/atmosphere/nrlmsise00_dnet.cpp', 'src/atmosphere/nrlmsise00_glatf.cpp', 'src/atmosphere/nrlmsise00_data.cpp'],
  mech=[('lower atmosphere', 'src/atmosphere/nrlmsise00_gtd7.cpp gtd7'), ('thermosphere', 'src/atmosphere/nrlmsise00_gts7.cpp gts7'), ('profiles', 'src/atmosphere/nrlmsise00_densm.cpp, nrlmsise00_densu.cpp'), ('splines', 'src/atmosphere/nrlmsise_spline.cpp spline')],
  obs=['temperatures, number densities, mass density'], bounds='6 thermosphere altitudes (12 thorough), 8 lower ones, two temperature profiles; expansions within +-0.125; splines of 3..4 nodes (5 thorough); constants compared with a frozen table that reproduces the seventeen published reference cases; real arithmetic')

P('U06', [U('misc.cpp', 'h_legendre h_zenith', inc=INC)],
  title='Stand-alone formulas: normalised Legendre functions and zenith delays',
  stmt='The renormalised associated Legendre function of degree l and order m, 0 <= m <= l, at any x in [-1, 1] is (-1)^m sqrt((2l+1)(l-m)!/(4 pi (l+m)!)) times the associated Legendre function. The Saastamoinen zenith delays are 0.0022768 P / (1 - 0.00266 cos 2 lat - 0.28e-6 H) (hydrostatic) and 0.0022768 (1255/T + 0.053) e (wet) for every latitude, height, pressure, temperature and vapour pressure.',
  over=['inputs'], text='all x, latitudes, heights, pressures, temperatures; every degree and order in the bound', why='No test calls them.',
  files=['var/legendre.cc', 'var/saastamoinen.cc'], mech=[('Legendre functions', 'var/legendre.cc plegendre'), ('zenith delays', 'var/saastamoinen.cc saastamoinen_hz, saastamoinen_wet')],
  obs=['returned values'], bounds='degree up to 6 (8 thorough), against Rodrigues\' formula; real arithmetic')

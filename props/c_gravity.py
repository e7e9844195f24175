P('G07', [U('gravity.cpp', 'h_solid h_solid_tight h_solid_high', inc=STUB, eopts={'h_solid_high': {'shards': 2, 'loop_bound': 1000000}, 'h_solid': {'shards': 6}}), U('gravity.cpp', 'h_solid_row', inc=STUB, flags=['-DDEBUG'], eopts={'h_solid_row': {'shards': 4}})],
  title='Solid harmonics from the recursion equal their definition',
  stmt='For every position with non-zero radius, every degree l and order k<=l, the recursion yields V(n,m)=(R/r)^(n+1) P_nm(sin lat) cos(m lon) and W(n,m) with sin(m lon) for all n<=l, m<=min(n,k) in either matrix layout, touches nothing outside the requested range (including when the storage is exactly large enough), and refuses an order above the degree without writing.',
  over=['inputs'], text='all positions with |coordinate|<=3 and r>=1, all reference radii, all degree/order pairs in the bound; three positions for degree 30', why='No running test evaluates the recursion; an index slip shows only at particular degree/order pairs.',
  files=['src/gravity/lagrange_poly.cpp', 'src/egravity.hpp'], mech=[('recursion', 'src/gravity/lagrange_poly.cpp lagrange_polynomials')], obs=['V and W'],
  bounds='degree 0..5 (0..7 thorough), order 0..degree+2; degree 29 and 30 (49 and 50 thorough) at three positions; real arithmetic')
P('G08', [U('gravity.cpp', 'h_grav h_grav_sum h_grav_high', inc=STUB, eopts={'h_grav_high': {'shards': 4, 'loop_bound': 1000000}, 'h_grav': {'shards': 8}, 'h_grav_sum': {'shards': 4, 'loop_bound': 100000}}),
          U('gravity.cpp', 'h_grav_sum', inc=STUB, flags=['-DNDEBUG'], eopts={'h_grav_sum': {'shards': 4, 'loop_bound': 100000}})],
  title='Gravity acceleration and partials are derivatives of the potential',
  stmt='For every position, degree, order and coefficient set the gravitational acceleration equals the gradient of the truncated potential GM/R sum (C V + S W), and the returned 3x3 partials equal its second derivatives (hence are symmetric and trace-free); coefficients above the requested degree or order have no influence, and the overloads with and without partials, in debug and release builds, agree.',
  over=['inputs'], text='all positions (r>=1) for each single coefficient, all coefficient sets at three positions, all degree/order pairs in the bound', why='The shipped gravity test cannot be built here and compares single accelerations only; partials are tested nowhere.',
  files=['src/gravity/gravity_acceleration.cpp', 'src/egravity.hpp'], mech=[('acceleration', 'src/gravity/gravity_acceleration.cpp grav_potential_accel'), ('partials', 'grav_potential_accel with partials')],
  obs=['acceleration vector, 3x3 partials'], bounds='degree and order 0..3 (0..4 thorough) per coefficient; degree 4 (6) with all coefficients; degree 13 and 14 (23 and 24 thorough) with all coefficients at three positions', limit={'quick': 300, 'thorough': 780})
P('G09', [U('gravity.cpp', 'h_third', inc=STUB)],
  title='Third-body attraction and its partials follow the point-mass law',
  stmt='For every satellite and body position the third-body acceleration is -GM (d/|d|^3 + s/|s|^3) with d the satellite position relative to the body and s the body position, in every overload, and the partials are its exact derivatives with respect to the satellite position.',
  over=['inputs'], text='all positions with distances above 0.7', why='No test evaluates third-body partials.', files=['src/gravity/point_mass_acceleration.cpp', 'src/egravity.hpp'],
  mech=[('point_mass_accel', 'src/gravity/point_mass_acceleration.cpp')], obs=['acceleration, partials'], bounds='coordinates within 9, real arithmetic')

FL = dict(inc=STUB, flags=['-DEIGEN_NO_DEBUG'])
P('K01', [U('filters.cpp', 'h_ekf_cov h_ekf_h h_ekf_seq h_ekf_time h_wrap', **FL)],
  title='The extended Kalman filter is the recursive least-squares estimator',
  stmt='An observation update uses the gain K = P H / (s^2 + H\'P H), moves the state by K times the innovation and the covariance from P to P - K H\'P (positive and symmetric if P was), leaving the epoch. A sequence of linear observations gives, in any order and with repetitions, the weighted least-squares estimate of prior and observations, with the inverse of the information as covariance. A time update takes over epoch and predicted state and gives F P F\' plus the process noise, if any. The filter for a satellite and its beacons passes both updates on unchanged. A new filter of n parameters has zero state and unit covariance.',
  over=['inputs', 'histories'], text='all priors, covariances, predictions, partials, noise, observations and sigmas in the bound, all transition matrices, four observation orders',
  why='No test runs the filter: the programs that do need data files, and any numbers it yields would look plausible.',
  files=['src/filters/ekf.hpp', 'src/filters/filters.hpp'],
  mech=[('measurement update', 'src/filters/ekf.hpp observation_update'), ('time update', 'src/filters/ekf.hpp time_update')],
  obs=['gain, state, covariance, epoch'], bounds='1..2 parameters (3 thorough; 6 through the wrapper), 3 observations in sequence (4 thorough), covariances diagonally dominant in [-1,1]/[2,10], partials symbolic in [-3,3] or one of three, sigma in [0.5,3]; real arithmetic')
P('K02', [U('filters.cpp', 'h_layout', **FL)],
  title='Every filter parameter has its own place and a priori value',
  stmt='For both beacon clock models a filter has six satellite parameters, the force model parameters and, for every beacon, a delay and one or two frequency offset parameters, each at its own place in the state, none overlapping; a priori values and variances given for one beacon or for all reach exactly the parameters named and no others, and the drag coefficient follows the satellite state. Estimates are read from (and set at) those places; the frequency offset of the linear model is offset plus rate times seconds since the reference epoch.',
  over=['inputs'], text='all a priori values, variances and states, every beacon and all at once, 1..3 beacons, 0..2 force parameters, both clock models, past and future epochs',
  why='No test runs the filter; a parameter overlapping a neighbour needs two or more beacons to show.',
  files=['src/filters/filters.hpp'], mech=[('indices', 'src/filters/filters.hpp tropo_index, rfoff_index'), ('a priori setters', 'src/filters/filters.hpp set_*_apriori*')],
  obs=['state and covariance after setting, estimates'], bounds='1..3 beacons (4 thorough), two parameter counts per clock model')
P('K03', [U('filters.cpp', 'h_poly h_linear', **FL)],
  title='Polynomial models keep their value and memory through copies and moves',
  stmt='A polynomial model of any order about a reference (a number, or an epoch, then in seconds) evaluates to the sum of its coefficients times powers of the distance from the reference. Copies and assigned models are equal and independent, moved-to ones equal, self-assignment and chains of moves and assignments keep the value; resizing gives a model of the new order. All memory is released exactly once. A linear model is a + b (x - reference).',
  over=['inputs', 'histories'], text='all coefficients, references and arguments in the bound, orders 0..3, number and epoch arguments, seven sequences of copies, moves, assignments and resizes',
  why='No test uses the class; ownership mistakes need a copy, a move or order zero.',
  files=['src/filters/models.hpp'], mech=[('ownership', 'src/filters/models.hpp PolynomialModel'), ('evaluation', 'src/filters/models.hpp value_at')],
  obs=['values, order, live heap blocks, memory safety'], bounds='orders 0..3 (0..4 thorough), coefficients in [-10,10]')

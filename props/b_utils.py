P('U01', [U('containers.cpp', 'h_mat_index h_mat_life h_mat_big', eopts={'h_mat_big': {'loop_bound': 100000, 'shards': 2}, 'h_mat_index': {'shards': 3}, 'h_mat_life': {'shards': 6}})],
  title='Compact matrices store, copy and move their elements faithfully',
  stmt='In a row-wise, column-wise or trapezoidal compact matrix of any size every element of the stored part has its own location, reachable identically by element and slice access; a square trapezoidal matrix addressed above its diagonal yields the mirrored element; fill sets every element. Copying and moving (by construction or assignment, also into moved-from objects and onto itself) reproduce dimensions and values, copies are independent, and all memory is released exactly once.',
  over=['inputs', 'histories'], text='all element values, all three layouts, all sizes in the bound, seven copy/move sequences', why='Nothing tests the class, and its copy operations are never instantiated by the library.',
  files=['src/cmat2d.hpp'], mech=[('layouts', 'src/cmat2d.hpp StorageImplementation'), ('ownership', 'src/cmat2d.hpp Mat2D')],
  obs=['element and slice access, num_elements, live allocations'], bounds='1..4 rows and columns (5 thorough), four larger sizes up to 70, 1..3 for lifecycle')
P('U02', [U('containers.cpp', 'h_bitset h_bitset_wide', eopts={'h_bitset': {'shards': 6}}), U('flags.cpp', 'h_sp3 h_sp3_any h_sp3_or')],
  title='Flag sets contain exactly the flags last set and not cleared',
  stmt='For enumeration bit-sets and for Sp3 event flags: after any sequence of set, clear and clear-all operations a flag is reported on exactly when its last operation set it, operations on one flag never affect another, a set is clean exactly when nothing is on, equality is set equality, and combining several events with | marks exactly those events.',
  over=['histories', 'inputs'], text='every operation sequence in the bound over 8 flags (two underlying types; 30 thorough), flags at the ends of int and 64-bit types and 12 events, every prior 12-bit pattern', why='The shipped flag test asserts one fixed sequence.',
  files=['src/enum_bitset.hpp', 'var/flags.cc'], mech=[('bit operations', 'src/enum_bitset.hpp EnumBitset'), ('event flag', 'var/flags.cc Sp3Flag, operator|')],
  obs=['check/is_set, is_clean, ==, !='], bounds='3 operations (4 thorough) after any of three constructions; single operations over any bit pattern; unions of 2..3 events')
P('U03', [U('packed.cpp', 'h_packed h_variants')],
  title='Packed measurement flags keep their three fields independent',
  stmt='In the packed measurement flag each of the three 8-bit fields reads back the value last written to it, for all values and any order of writes, independent of the other two; the struct, sentinel and packed representations of a measurement give the same result for the same non-negative flags and value.',
  over=['inputs', 'histories'], text='all 256 values of every field in any write order, all flag values 0..127, all measurement values with magnitude 1..1e6', why='The program tests random values in one write order only.',
  files=['var/compound_measurement.cc'], mech=[('packing', 'var/compound_measurement.cc Flag')], obs=['getters, foo1 results'], bounds='4 writes (6 thorough) in any order')
P('U04', [U('containers.cpp', 'h_fact')],
  title='Factorial tables and ratios are exact',
  stmt='Factorial look-up tables give n! for every n they hold, and the factorial ratio (run-time or compile-time form) gives n!/m! whether n is larger, equal or smaller than m.',
  over=['inputs'], text='n and m in 0..20 (30 thorough)', why='No test uses the header, and the library only uses ratios above one.', files=['src/factorial.hpp'],
  mech=[('ratio', 'src/factorial.hpp factorialRatio'), ('table', 'FactorialLookUpTable')], obs=['returned values'], bounds='0..20 (0..30 thorough); relative tolerance 1e-12')
P('U05', [U('interp.cpp', 'h_nearest h_linear h_quad h_quad_exact h_long')],
  title='Table interpolators honour nodes, brackets and range status',
  stmt='For any strictly increasing table, the nearest-neighbour, linear and quadratic interpolators return the first value with status 1 below the table and the last value with status 2 at or after its last node; inside, status is 0 and the result is, respectively, the value of the nearer bracketing node, the linear combination of the bracketing values, and the parabola through the bracketing nodes and the nearer of their available outer neighbours (exact for quadratic data).',
  over=['inputs'], text='all tables with node spacing at least 1e-3 and all query points', why='The program prints values of one table without checking any.', files=['var/intrp.cc'],
  mech=[('value_at', 'var/intrp.cc NearestNeighborInterpolator, LinearInterpolator, QuadraticInterpolator')], obs=['value_at result and status'],
  bounds='2..4 nodes (6 thorough; quadratic from 3) and one table of 16 nodes with all values; abscissae in [-1000,1000], real arithmetic')

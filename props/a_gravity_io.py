SH = {'h_head': {'shards': 6}, 'h_data': {'shards': 6}, 'h_large': {'shards': 6}, 'h_trunc': {'shards': 6}}
P('G01', [U('icgem.cpp', 'h_head h_head_bad', eopts=SH), U('icgem.cpp', 'h_head', eopts=SH, flags=['-DVAR_COPY'])],
  title='Gravity-model header values are taken from the file exactly',
  stmt='Parsing the header of a well-formed ICGEM gravity-model file yields exactly the gravitational constant, reference radius, maximum degree and normalisation written in it, whatever the order of the header fields, the amount of blank padding around keywords and values, and the free text before the header. A header that is absent, never terminated, or whose gravitational constant, radius or degree is not a (non-zero) number is reported as an error.',
  over=['inputs'], text='all numeric header values, 1..4-digit degrees, orders of the six fields, leading/trailing blanks, five normalisation variants',
  why='The shipped tests parse no gravity file at all; they need data files that are not in the repository.',
  files=['src/gravity/icgemio_rdhead.cpp', 'src/icgemio.hpp', 'var/icgem/src/icgemio_rdhead.cpp'],
  mech=[('keyword resolution', 'src/gravity/icgemio_rdhead.cpp resolve_header_keyword'), ('header loop', 'src/gravity/icgemio_rdhead.cpp parse_header')],
  obs=['return value of the header parse; gm, radius, degree, normalisation accessors'],
  bounds='header of 8..14 lines, values as symbolic numbers in one text layout per field, 1..4 symbolic degree digits, 3 field orders, 0/3 leading and 0..2 trailing blanks')
P('G02', [U('icgem.cpp', 'h_data h_large h_deg1', eopts=SH), U('icgem.cpp', 'h_data h_large h_deg1', eopts=SH, flags=['-DVAR_COPY'])],
  title='Every gravity coefficient lands at its own degree and order',
  stmt='Reading a complete gravity model up to any degree l and order m not exceeding its maximum degree succeeds and gives every C(l,m) and S(l,m) in that range exactly the value the file writes for that degree and order, irrespective of the order of the lines, blank layout, extra columns, records of other types, and whether the last line ends with a newline. A model whose degree-one terms are omitted reads them as zero.',
  over=['inputs'], text='all coefficient values, models of degree up to 3, every requested degree/order, three line orders, two layouts, with and without foreign records',
  why='No test reads a gravity model; a swapped index or a lost line shows only for particular degree/order pairs and file layouts.',
  files=['src/gravity/icgemio_rddata.cpp', 'src/harmonic_coeffs.hpp', 'var/icgem/src/icgemio_rddata.cpp', 'var/icgem/src/harmonic_coeffs.hpp'],
  mech=[('data loop', 'src/gravity/icgemio_rddata.cpp parse_data'), ('coefficient addressing', 'src/harmonic_coeffs.hpp C/S')],
  obs=['return value of the data parse; C(l,m), S(l,m), GM, Re, normalisation of the receiving object'],
  bounds='model degree 2..3 (1..3 thorough) and 11 (one line order), every l<=degree, m<=l, line orders: canonical, reversed, by order')
P('G03', [U('icgem.cpp', 'h_trunc h_large h_index h_request', eopts=SH), U('icgem.cpp', 'h_trunc h_large h_index h_request', eopts=SH, flags=['-DVAR_COPY'])],
  title='Incomplete or impossible gravity data is never reported as success',
  stmt='Reading gravity coefficients reports an error when any coefficient inside the requested degree and order is absent from the file (other than the two nominally zero degree-one C terms when both are absent), when the requested degree or order exceeds the model, the order exceeds the degree, or the receiving object is too small. A line carrying an impossible degree/order pair is refused without touching memory outside the coefficients, and lines beyond the requested range change nothing.',
  over=['inputs', 'fault_sequences'], text='every missing line or pair of lines and every truncation point of a degree-2 model, with and without any one line written twice, every signed one-digit degree/order pair on a foreign line, every request in 0..20 x 0..20',
  why='Truncation points and malformed indices are combinatorial and need symbolic file content; no test feeds a damaged model.',
  files=['src/gravity/icgemio_rddata.cpp', 'var/icgem/src/icgemio_rddata.cpp'],
  mech=[('request validation and count of coefficients', 'src/gravity/icgemio_rddata.cpp parse_data, coeffs_nr')],
  obs=['return value of the data parse; memory safety; coefficients'],
  bounds='model degree 2, and 11 with one of four lines missing; degree and order of the foreign line: all signed one-digit integers; request 0..20')
P('G04', [U('harmonic.cpp', 'h_store h_store_high')],
  title='Spherical-harmonic coefficients have distinct storage',
  stmt='In a coefficient set of any degree, each C(n,m) with 0<=m<=n and each S(n,m) with 1<=m<=n is an independent storage location inside the set: a value written through any accessor is read back by every other accessor (element or row, const or not) after all other coefficients have been written. The second-degree zonal accessor is minus C(2,0).',
  over=['inputs'], text='all coefficient values for every degree in the bound', why='Aliasing between the C and S triangles of the compact storage shows only when all coefficients are live; no test touches the class.',
  files=['src/harmonic_coeffs.hpp', 'src/gravity/harmonic_coeffs.cpp'], mech=[('compact C/S layout', 'src/harmonic_coeffs.hpp C_row/S_row')],
  obs=['accessor results, memory safety'], bounds='degree 1..8 (1..10 thorough) with independent values; degrees 33 and 70 with distinct values')
P('G05', [U('harmonic.cpp', 'h_denorm h_denorm_bad h_denorm_high', eopts={'h_denorm_high': {'loop_bound': 2000000}})],
  title='De-normalising multiplies by the exact normalisation factor',
  stmt='De-normalising a fully normalised coefficient set up to order m multiplies each C(n,k) and S(n,k) with k<=m by sqrt((2-d0k)(2n+1)(n-k)!/(n+k)!), leaves higher orders untouched and marks the set as not normalised; on a set that is not normalised, or already de-normalised, it changes nothing. An order above the degree is refused without any change.',
  over=['inputs'], text='all coefficient values for every degree and order in the bound, both normalisation states', why='The factor depends on degree and order; no test exercises de-normalisation.',
  files=['src/gravity/harmonic_coeffs.cpp'], mech=[('factor', 'src/gravity/harmonic_coeffs.cpp compute_fac'), ('loop', 'denormalize')], obs=['coefficients and flag after the call'],
  bounds='degree 0..8 (0..10 thorough), order -1..degree; selected terms of degrees 20..92; refused orders up to 1000; real arithmetic, tolerance 1e-12')
P('G06', [U('harmonic.cpp', 'h_life', eopts={'h_life': {'shards': 4}})],
  title='Coefficient sets stay usable and leak-free through resize and move',
  stmt='After any sequence of resizing, move construction and move assignment, a coefficient set has the requested degree, every coefficient up to that degree can be written and read back, moved-into sets hold the moved values and attributes, and destroying all sets releases all memory exactly once.',
  over=['histories', 'inputs'], text='every sequence of operations in the bound, all coefficient values', why='Ownership errors need specific operation sequences; no test resizes or moves a set.',
  files=['src/gravity/harmonic_coeffs.cpp', 'src/harmonic_coeffs.hpp'], mech=[('allocation', 'src/gravity/harmonic_coeffs.cpp allocate/deallocate/resize/move')],
  obs=['accessors, degree, live heap allocations'], bounds='sequences of 2 (3 thorough) operations, degrees 1..6 (up to 11 in the first resize)')

P('G10', [U('icgem.cpp', 'h_model', inc=STUB, flags=['-DMODEL', '-DEIGEN_NO_DEBUG'], eopts={'h_model': {'shards': 4}})],
  title='Loading a gravity model gives harmonics of the degree and order asked for',
  stmt='Loading a gravity model file up to a degree and order into a coefficient set, whatever the set held before, succeeds exactly when the file is readable and holds them; then the set has that degree, the model\'s constants and normalisation state, and every coefficient up to that degree and order is the file\'s - multiplied by its normalisation factor, and the set marked so, when unnormalised coefficients are asked for of a normalised model.',
  over=['inputs', 'histories', 'faults'], text='all coefficient values, degrees and orders 0..4 of a degree 3 model, six kinds of file, sets of three earlier degrees used or not',
  why='Needs a model file; combinations of order below degree, denormalisation and reused sets are not sampled by any test.',
  files=['src/gravity/parse_coefficients.cpp', 'src/gravity/icgemio_rddata.cpp', 'src/gravity/harmonic_coeffs.cpp'], mech=[('loading', 'src/gravity/parse_coefficients.cpp parse_gravity_model')],
  obs=['return value, degree, constants, normalisation state, coefficients'], bounds='model degree 3, one file layout')

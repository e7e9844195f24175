RNX = ['-Wno-invalid-constexpr']
SH9 = {'shards': 8}
RX = dict(inc=STUB, flags=RNX)
_rb = 'all file contents as text held in memory; calendar library replaced by an exact integer stand-in'
P('R01', [U('rinex.cpp', 'h_data h_cut', eopts={'h_data': SH9, 'h_cut': {'shards': 4}}, **RX)],
  title='Every DORIS RINEX observation is read at its own place and scale',
  stmt='Iterating over the data records of a DORIS RINEX file yields the records in file order, each with its epoch, its number of stations and, for each of them, the beacon code and one value per observation code of the header, in header order: the recorded number divided by the scale factor of that observable, with its two flags. An observation left blank, recorded as zero, or cut off with the trailing blanks of its line is marked missing and takes no value from elsewhere. The end of the file after a complete record is reported as end of file (-1); a record that ends too early is an error.',
  over=['inputs', 'fault_sequences'], text='all observation values, every position of the omitted observations, 1 to 10 observables, scale factor layouts, trimmed and untrimmed lines, every truncation after a complete line',
  why='No RINEX test runs without data files, which are not in the repository; omitted fields and line ends are combinatorial.',
  files=['src/rinex/doris_rinex.cpp', 'src/rinex/rnx_datablock_iterator.cpp', 'src/doris_rinex.hpp'],
  mech=[('record parsing', 'src/rinex/doris_rinex.cpp read_data_block'), ('iteration', 'src/rinex/rnx_datablock_iterator.cpp next')],
  obs=['return value of next(), record header, values and flags of each beacon'],
  bounds='2 records of 1..2 beacons, 1, 5, 6 or 10 observables (1..10 thorough), one omitted observation or all from one on; values as symbolic 14-column numbers; ' + _rb)
P('R02', [U('rinex.cpp', 'h_head h_head_bad h_many', eopts={'h_head': SH9}, **RX)],
  title='The DORIS RINEX header is read completely or refused',
  stmt='Opening a DORIS RINEX file yields the observation codes in file order, a scale factor for each (one by default, all when a record names none, the named ones otherwise, for any number of such records), satellite, receiver chain, type and version names, every station with its internal code, identifier, name, domes number, type and signed shift factor, the time reference stations, the time of first observation and of the time reference, the L2/L1 date offset (zero when absent) and whether receiver clock offsets are applied already (no when absent). An error number left over from earlier calls has no influence. A file that is not a DORIS observation file, whose header does not end, announces more observables than it names, names unknown ones or an unknown time reference station, gives another number of stations than it lists, or an unusable time system or station line is refused by an exception.',
  over=['inputs', 'histories'], text='all station codes and shift factors, date offsets, 1..10 observables in three rotations, seven scale factor layouts, optional records, stale errno',
  why='No RINEX test runs without data files; optional header records are absent from most files.',
  files=['src/rinex/read_rnx_header.cpp', 'src/rinex/doris_rinex.cpp', 'src/doris/doris_system_info.cpp', 'src/doris_rinex.hpp'],
  mech=[('header parsing', 'src/rinex/read_rnx_header.cpp read_header'), ('station lines', 'src/doris/doris_system_info.cpp set_from_rinex_line')],
  obs=['accessors of the reader, exception'], bounds='1..3 and 9..12 stations, 0..2 time reference stations, 12 kinds of malformed headers; ' + _rb)
P('R03', [U('rinex.cpp', 'h_epoch h_epoch_bad', **RX)],
  title='Record epochs and receiver clock offsets are exact to the nanosecond',
  stmt='Reading a record line yields its epoch to the nanosecond, the epoch flag, the number of stations and the receiver clock offset with its flag, whether or not trailing blanks are cut off; an absent offset is marked missing and the flag is zero. The proper time of a record is the recorded epoch; the corrected epoch is that plus the clock offset, except when offsets are applied already or the offset is missing, over a day boundary too; the second carrier is sampled the recorded L2/L1 date offset later. Lines not starting with the record marker, with unreadable date, flag, number of stations or clock offset, or cut before the number of stations are refused.',
  over=['inputs'], text='all second and sub-second digits in the bound, all clock offsets, flags, 1..3 digit station numbers, header flag absent, zero and one',
  why='No RINEX test runs without data files; the optional fields and day boundaries are rare.',
  files=['src/rinex/doris_rinex.cpp', 'src/doris_rinex.hpp'],
  mech=[('epoch line', 'src/rinex/doris_rinex.cpp resolve_data_epoch'), ('corrected epochs', 'src/doris_rinex.hpp RinexDataBlockIterator')],
  obs=['record header, corrected epochs, return value'], bounds='one date, two times of day, three symbolic digits of the seconds, clock offset in [-100,100] s as symbolic number; ' + _rb)
P('R04', [U('rinex.cpp', 'h_lookup h_codes', **RX)],
  title='Beacon look-ups and observation codes identify exactly their object',
  stmt='Looking a beacon up by its three-character internal code gives the identifier, shift factor and station record of that beacon and no other, whatever follows the third character; looking up the four-character identifier gives its internal code; unknown beacons are reported as not found. Observation letters L C W F P T H denote phase, range, power, frequency offset, pressure, temperature and humidity and no others do; the first three carry a frequency number that must be 1 or 2, for the others it is zero whatever is given; codes are equal when type and frequency are.',
  over=['inputs'], text='all queries over codes that differ in one character each, all letters in the bound, all frequency numbers in the bound', why='Look-ups are only exercised by the programs that need data files.',
  files=['src/rinex/doris_rinex.cpp', 'src/doris_rinex.hpp', 'src/doris/doris_system_info.cpp', 'src/doris_system_info.hpp'],
  mech=[('look-ups', 'src/doris_rinex.hpp beacon_shift_factor, beacon_internal_id2BeaconStation'), ('codes', 'src/doris/doris_system_info.cpp ObservationCode')],
  obs=['results of the look-ups and conversions'], bounds='3 stations, 13 letters, frequency numbers -3..5; ' + _rb)
P('R05', [U('rinex.cpp', 'h_rfo h_rfo_dense h_rfo_bad', eopts={'h_rfo': SH9}, **RX)],
  title='The relative frequency offset fit is the least-squares polynomial',
  stmt='Fitting the relative frequency offset over a list of RINEX files averages every N consecutive values inside the requested time interval (start included, end excluded, by corrected epoch), the remaining ones of a file forming a last group, places each average midway between the first and last epoch of its group in the requested time scale, and returns the polynomial of the requested order, referred to the reference epoch of the first file, that solves the least-squares problem of these points. Epochs without a value contribute nothing; a file without the observable, a missing file or a truncated one is an error.',
  over=['inputs', 'histories'], text='all recorded values, group sizes 1..3, orders 1..2, both time scales, with and without applied clock offsets, time windows, omitted values, records denser than nominal',
  why='Only a program that needs data files calls it, and leftovers, windows and omissions depend on the file.',
  files=['src/rinex/fit_rfo.cpp', 'src/filters/models.hpp', 'src/rinex/doris_rinex.cpp'],
  mech=[('collection of values', 'src/rinex/fit_rfo.cpp parse_rinex_rfos'), ('solution', 'src/rinex/fit_rfo.cpp fit_relative_frequency_offset')],
  obs=['coefficients, order, reference epoch, return value'], bounds='1..2 files, 4..5 (3..6 thorough) hourly records in the first and 2 in the second; real arithmetic; ' + _rb)
P('R06', [U('rinex.cpp', 'h_kalman h_kfile', eopts={'h_kalman': {'shards': 4}}, **RX)],
  title='The sequential frequency offset filter equals the batch solution',
  stmt='After any sequence of updates the estimated offset and drift of the sequential filter are the weighted least-squares solution of all values used so far and the prior, the covariance is the inverse of the accumulated information, and the model value at any epoch is offset plus drift times days since the reference. Fed from a RINEX file it uses the value and epoch of every record that has one, once, in file order, and starts from the first of them; a record whose beacons give different values is refused.',
  over=['inputs', 'histories'], text='all priors, values, three prior and noise scales, three sequences of epochs (increasing, unordered, repeated)',
  why='Needs data files; filter and batch agree trivially on the values a constant file has.',
  files=['src/doris/fit_rfo.cpp'], mech=[('update', 'src/doris/fit_rfo.cpp LinearKalman::update'), ('file loop', 'src/doris/fit_rfo.cpp get_rinex_rfo')],
  obs=['state, covariance, model value'], bounds='3 updates (5 thorough), files of 1..3 records; real arithmetic; ' + _rb)
P('R07', [U('rinex.cpp', 'h_ndop', eopts={'h_ndop': SH9}, **RX)],
  title='Phase counts compare a beacon with its own previous record',
  stmt='Extracting Doppler counts from a file gives, for every record of a beacon seen before, in file order, the epoch, the change of the first two observables since the latest previous record of the same beacon, and the time between the two records; the first record of a beacon, or one with either observable omitted in one of the two records, gives nothing.',
  over=['inputs', 'histories'], text='all observation values, every sequence of four beacon sets over the records', why='Needs data files; a wrong match shows only when beacons leave and return.',
  files=['src/doris/extract_doppler_count.cpp'], mech=[('matching', 'src/doris/extract_doppler_count.cpp compute_ndop, update')],
  obs=['the printed counts, captured'], bounds='3 records (4 thorough), 3 beacons; ' + _rb)

WEB = ['$VERIF/stubs/web', '$REPO/src', '$REPO']
P('W01', [U('web.cpp', 'h_get h_get_force', inc=WEB, flags=['-fno-builtin'])],
  title='A download reports success exactly when the whole file was stored',
  stmt='Fetching a URL into a local file returns zero exactly when the server delivered the file and every byte received has been written and flushed to that local file; any refusal by the server, interrupted transfer, unwritable location, short write or failed flush returns a positive status and leaves no partial file behind. If the local file exists and overwriting was not requested, the result is negative, nothing is requested and the file is untouched; sessions and streams are always released.',
  over=['fault_sequences', 'inputs'], text='every combination of server outcome, open/short-write/flush failure point, prior state of the local path, chunking of the body and body bytes in the bound',
  why='The shipped test needs a live server and samples one download; faults in the middle of a transfer cannot be provoked by it.',
  files=['src/web/http_get.cpp', 'src/cweb.hpp'], mech=[('transfer and cleanup', 'src/web/http_get.cpp http_get'), ('write callback', 'write_data')],
  obs=['return value; content and existence of the local file; calls into libcurl and stdio'], bounds='0..2 chunks (3 thorough) of 1..3 bytes, disk room 0..10 bytes',
  assume=['libcurl, stdio streams and std::filesystem are replaced by models in the harness (transfer calls the write callback, a short count aborts it; HTTP errors become a failure only with FAILONERROR; buffered writes may fail at the flush)'])
P('W02', [U('yaml.cpp', 'h_lookup', inc=STUB, eopts={'h_lookup': {'shards': 4}})],
  title='A configuration value is the one at the key path asked for',
  stmt='Looking up a value two or three keys deep in a configuration returns zero and the value stored under exactly those keys, in that order, when the path leads to a value of the type asked for (number or text, texts terminated and nothing behind them touched); a missing key, a value where a group is expected, an empty entry or a value of another type returns non-zero and never raises an exception.',
  over=['inputs'], text='every path of one- and two-letter keys through a tree with repeated key names at different depths, empty groups, null and scalar entries; integer, real and text values; all values and text characters',
  why='No test reads a configuration value; programs depend on it for every file name and model setting.',
  files=['src/var_utils.hpp', 'src/var/yaml_utils.cpp'], mech=[('look-up', 'src/var_utils.hpp get_yaml_value_depth2, get_yaml_value_depth3'), ('texts', 'src/var/yaml_utils.cpp')],
  obs=['return value, resolved value or text'], bounds='configuration whose root is a map; trees of depth two and three with three entries per map; texts of five characters',
  assume=['yaml-cpp is replaced by a model of its node tree with the documented exceptions (invalid node, bad subscript, bad conversion)'])

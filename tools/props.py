"""Single source of properties.jsonl and MANIFEST.json (run tools/gen.py)."""

P = []


def p(id, title, statement, over, text, why, files, mech, observe, spec,
      level_note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mech=mech,
                  observe=observe, spec=spec, level_note=level_note, na=na))


p('C01', 'Time-frame intersection is exact set intersection of instants',
  'Intersecting two time frames yields exactly the span of time that belongs to both, where a missing '
  'start or end is unbounded, a disabled frame behaves as unbounded and an empty frame absorbs; the result '
  'is marked empty exactly when nothing is shared, and neither operand changes. Slicing data with a frame '
  'keeps exactly the rows whose time lies in it, an overlap check complains exactly when the intersection is '
  'not empty, and no sequence of assignments, also while the frame is disabled, can leave a frame whose start is not before its end.',
  ['inputs', 'histories'], 'all pairs of frames (open, half-open, empty, disabled, end-inclusive), any time zone, and any history of assignments',
  'the tests intersect four hand-written pairs of closed naive frames',
  ['nilmtk/timeframe.py'],
  [('TimeFrame.intersection', 'nilmtk/timeframe.py'), ('TimeFrame start/end setters', 'nilmtk/timeframe.py'), ('TimeFrame.slice', 'nilmtk/timeframe.py')],
  ['TimeFrame.intersection', 'TimeFrame.slice', 'TimeFrame.check_for_overlap', 'TimeFrame.start/end/empty'],
  'TimeFrames', 'all 3-step histories of a frame object over a small clock, replayed on real objects; random longer histories validated')

p('C02', 'Merging, splitting and joining frames neither loses nor invents time',
  'Splitting time frames yields consecutive pieces no longer than the limit that together cover exactly the '
  'original time once; merging a sorted list of disjoint frames with a gap allowance covers all original time, adds only gaps '
  'no longer than the allowance and leaves no two neighbouring results within the allowance. The union of two frames is '
  'the smallest single frame containing both, and adjacency is symmetric and true exactly when the space between the frames is at most the gap.',
  ['inputs'], 'all sorted lists of disjoint frames, all gap allowances and piece lengths, including frames that touch, empty frames and open ends',
  'the tests merge one fixed list and never call split',
  ['nilmtk/timeframe.py'],
  [('merge_timeframes', 'nilmtk/timeframe.py'), ('TimeFrame.split / split_timeframes', 'nilmtk/timeframe.py'), ('TimeFrame.union/adjacent', 'nilmtk/timeframe.py')],
  ['merge_timeframes', 'split_timeframes', 'TimeFrame.union', 'TimeFrame.adjacent'],
  'TimeFrames', 'every sorted list of up to 3 disjoint frames over a small clock with every gap and length, replayed; random larger lists validated')

p('C03', 'Masking a group of frames by another keeps exactly the common time',
  'Intersecting two groups of time frames gives a group covering exactly the time covered by both, with no empty members '
  'in the order of the first group; the uptime of a group is the total length of its members; filtering by minimum length keeps exactly '
  'the members at least that long, in order; none of these modify their inputs. Frames sort by their start, a missing start coming first, and a group made from a PeriodIndex has one frame per period.',
  ['inputs'], 'all pairs of groups of frames (sorted or not) and all thresholds',
  'no test touches frame groups',
  ['nilmtk/timeframegroup.py', 'nilmtk/timeframe.py'],
  [('TimeFrameGroup', 'nilmtk/timeframegroup.py')],
  ['TimeFrameGroup.intersection', 'TimeFrameGroup.uptime', 'TimeFrameGroup.remove_shorter_than'],
  'TimeFrames', 'every pair of small sorted groups replayed; random larger groups validated')

p('C04', 'HDF5 loading delivers exactly the requested rows, for every chunk size',
  'Loading a table for a list of sections (frames, or a PeriodIndex) delivers, section by section and in time order, exactly the stored rows (all requested columns, values intact) '
  'lying inside both the section and the store window, whatever the chunk size; consecutive chunks of a section share exactly one boundary row and nothing else repeats or is missing. '
  'Each chunk says which time span it covers so that the spans tile the section without overlap, and look-ahead rows are exactly the next stored rows.',
  ['inputs', 'configurations'], 'all tables, section lists (open, closed, empty, outside the data), windows, chunk sizes, column choices and look-ahead lengths',
  'the tests load one 10,000-row file with three chunk sizes; off-by-one errors depend on how rows, sections and chunk size align',
  ['nilmtk/datastore/hdfdatastore.py'],
  [('HDFDataStore.load', 'nilmtk/datastore/hdfdatastore.py'), ('chunk time frames', 'nilmtk/datastore/hdfdatastore.py')],
  ['HDFDataStore.load', 'HDFDataStore.get_timeframe'],
  'Load', 'the loader is specified as a cursor machine; every (rows, sections, window, chunk size) combination within small bounds is model checked, then replayed on real HDF5 files; random larger loads are validated chunk by chunk')

p('C05', 'CSV loading delivers exactly the requested rows, for every chunk size',
  'Loading a meter from a directory of CSV files delivers, section by section and in time order, each stored row lying inside both the section and the store '
  'window exactly once, for every chunk size, with the requested columns and intact values; look-ahead rows are exactly the next stored rows, no empty chunk is delivered, and each chunk is labelled with the time from its first to its last row.',
  ['inputs', 'configurations'], 'all tables, section lists, windows, chunk sizes, column choices and look-ahead lengths',
  'the tests load one CSV file once',
  ['nilmtk/datastore/csvdatastore.py'],
  [('CSVDataStore.load', 'nilmtk/datastore/csvdatastore.py')],
  ['CSVDataStore.load', 'CSVDataStore.get_timeframe'],
  'Load', 'the same cursor machine in its CSV mode: combinations within small bounds replayed on real CSV directories, random larger loads validated chunk by chunk')

p('C06', 'A data store remembers exactly what was last written, through any history',
  'After any sequence of put, append, remove, metadata save, close and reopen, a data store (HDF5 or CSV) returns for every key exactly the rows and metadata most recently '
  'written and nothing else; operations on one key never affect another, and listing shows exactly the existing elements. '
  'Converting one store into another keeps all rows and metadata, and a temporary store leaves no file behind once closed. '
  'Opening a store without a name, or of an unknown format, is refused.',
  ['histories'], 'all histories of store operations over several keys',
  'tests never mix operations on one store; loss or leakage needs a particular order',
  ['nilmtk/datastore/hdfdatastore.py', 'nilmtk/datastore/csvdatastore.py', 'nilmtk/datastore/datastore.py', 'nilmtk/datastore/tmpdatastore.py'],
  [('put/append/remove/metadata', 'nilmtk/datastore/hdfdatastore.py, csvdatastore.py'), ('convert_datastore', 'nilmtk/datastore/datastore.py')],
  ['DataStore.put/append/remove/load/load_metadata/save_metadata/elements_below_key', 'convert_datastore', 'TmpDataStore.close'],
  'Store', 'all histories of bounded length over two keys model checked and replayed on real stores; random longer histories validated')

p('C07', 'Good sections are the maximal gap-free runs, however the data is chunked',
  'The good sections of a meter are exactly the maximal runs of consecutive samples whose gaps do not exceed the maximum sample period, each run given '
  'by the times of its first and last sample (a lone sample is no section). The answer is the same for every chunk size and does not depend on how often it is asked for.',
  ['inputs', 'configurations', 'histories'], 'all sample-time patterns, chunk boundaries, look-ahead contents and repeated calls',
  'tests use one fixed pattern; merging across chunk boundaries depends on where the gaps fall relative to the boundaries',
  ['nilmtk/stats/goodsections.py', 'nilmtk/stats/goodsectionsresults.py'],
  [('get_good_sections', 'nilmtk/stats/goodsections.py'), ('GoodSectionsResults.combined', 'nilmtk/stats/goodsectionsresults.py')],
  ['ElecMeter.good_sections', 'get_good_sections', 'GoodSections node'],
  'GoodSections', 'every gap pattern up to a bound, cut at every set of chunk boundaries, checked in the model and replayed on the real node')

p('C08', 'Total energy equals the integral of the readings, for every chunk size',
  'For each AC type the total energy of a meter is computed from cumulative energy if recorded, otherwise from energy, otherwise from power; for power it is the sum over consecutive '
  'readings of power times the elapsed time capped at the maximum sample period, in kWh, missing readings being skipped and readings clipped to the limits of the device. '
  'The total does not depend on the chunk size as long as the reading shared by two chunks is present, and the total of several sections is the sum over the sections.',
  ['inputs', 'configurations'], 'all power/energy series with gaps and missing values, all column sets, chunk sizes and sections',
  'tests integrate two small fixed series',
  ['nilmtk/stats/totalenergy.py', 'nilmtk/stats/totalenergyresults.py', 'nilmtk/preprocessing/clip.py', 'nilmtk/elecmeter.py'],
  [('get_total_energy', 'nilmtk/stats/totalenergy.py'), ('TotalEnergyResults', 'nilmtk/stats/totalenergyresults.py')],
  ['ElecMeter.total_energy', 'get_total_energy'],
  'Energy', 'exhaustive small series and chunkings in exact integer joules; end-to-end random meters validated')

p('C09', 'Dropout rate is the proportion of expected samples that are missing',
  'The dropout rate of a stretch of data is one minus the number of samples over the number expected from its duration and the sample period, never below zero or above one, and undefined with fewer than five samples (a sample is a stored row, whether or not it holds a reading). '
  'Over several stretches the combined rate is the mean of the defined rates weighted by their sample counts; by default the stretches are the good sections of the meter, so that gaps do not count.',
  ['inputs', 'configurations'], 'all sample-time patterns, sample periods, chunkings',
  'one fixed file is tested',
  ['nilmtk/stats/dropoutrate.py', 'nilmtk/stats/dropoutrateresults.py'],
  [('get_dropout_rate', 'nilmtk/stats/dropoutrate.py'), ('DropoutRateResults.combined', 'nilmtk/stats/dropoutrateresults.py')],
  ['ElecMeter.dropout_rate', 'get_dropout_rate', 'DropoutRate node'],
  'Dropout', 'rates as exact fractions; exhaustive small patterns replayed, random ones validated')

p('C10', 'Cached statistics are indistinguishable from freshly computed ones',
  'Whatever sequence of total-energy, dropout-rate and good-section requests was made before (other sections, AC types, windows, meters, buildings or datasets, with the cache cleared or not), '
  'each request returns what a computation from the stored data without any cache returns for the same request.',
  ['histories'], 'all histories of statistics requests over several meters, sections, windows and AC types, with cache clears',
  'tests call each statistic once on a fresh cache',
  ['nilmtk/elecmeter.py', 'nilmtk/results.py', 'nilmtk/stats/goodsectionsresults.py', 'nilmtk/stats/totalenergyresults.py', 'nilmtk/stats/dropoutrateresults.py'],
  [('_get_stat_from_cache_or_compute', 'nilmtk/elecmeter.py'), ('import_from_cache/export_to_cache', 'nilmtk/results.py')],
  ['ElecMeter.total_energy', 'ElecMeter.dropout_rate', 'ElecMeter.good_sections', 'ElecMeter.clear_cache'],
  'StatsCache', 'all bounded request histories model checked (cached = fresh) and replayed; random longer histories validated')

p('C11', 'Result tables never cover the same time twice and add up what they hold',
  'A results object accepts a new entry exactly when its period overlaps none already held and otherwise refuses it unchanged; merging two results objects keeps every entry of both, ordered by start, or refuses when they overlap. '
  'The combined value is the sum of all entries; unifying two meters requires identical periods (results of another kind are refused) and adds (energy), averages (dropout: the mean over all meters unified, however many) or intersects (good sections) entry by entry.',
  ['histories', 'inputs'], 'all histories of append, update and unify over overlapping and disjoint periods, with several value columns',
  'tests append two disjoint entries',
  ['nilmtk/results.py', 'nilmtk/stats/totalenergyresults.py', 'nilmtk/stats/dropoutrateresults.py'],
  [('Results.append/update/unify', 'nilmtk/results.py')],
  ['Results.append', 'Results.update', 'Results.unify', 'Results.combined', 'Results.timeframes'],
  'ResultTable', 'all bounded histories over a small clock replayed on real results objects')

p('C12', 'Pipeline nodes run only when required metadata is present, and clip exactly',
  'A processing node refuses to run, before yielding data, exactly when some required property is absent upstream or has another value, and a chain of nodes is satisfied by the conditions its upstream nodes provide. '
  'Clipping leaves every reading inside the limits of its own measurement, changes only readings outside them, and every node passes on all chunks, in order, with their time span and look-ahead.',
  ['inputs', 'configurations'], 'all requirement and state trees, node chains, limits and readings',
  'two small examples are tested',
  ['nilmtk/node.py', 'nilmtk/preprocessing/clip.py', 'nilmtk/preprocessing/apply.py'],
  [('find_unsatisfied_requirements / check_requirements', 'nilmtk/node.py'), ('Clip.process', 'nilmtk/preprocessing/clip.py')],
  ['find_unsatisfied_requirements', 'Node.check_requirements', 'Clip', 'Apply'],
  'Pipeline', 'all small requirement/state trees and node chains replayed; random ones validated')

p('C13', 'A measurement request selects exactly the matching columns or is refused',
  'Asking a meter for a physical quantity and/or AC type loads exactly the recorded columns matching both, asking for the best AC type loads per quantity the first available of active, apparent, reactive, asking for explicit columns loads exactly those in the order asked for, and asking for nothing loads all. If nothing matches, a requested column is not recorded, or both styles of request are mixed, the request is refused instead of loading something else.',
  ['inputs', 'configurations'], 'all sets of recorded measurements and all requests',
  'a few examples are tested',
  ['nilmtk/elecmeter.py', 'nilmtk/measurement.py'],
  [('column selection', 'nilmtk/elecmeter.py'), ('select_best_ac_type', 'nilmtk/measurement.py')],
  ['ElecMeter.load', 'ElecMeter.available_ac_types', 'select_best_ac_type'],
  'Columns', 'every set of recorded columns over three quantities and every request replayed on real meters')

p('C14', 'Loading a meter group adds power and averages voltage, sample by sample',
  'Loading a group resamples every member to the sample period of the group (that of its slowest meter unless another is asked for). At every step of the requested sections, for each requested column, the group reports the sum of the resampled readings of those of its meters that have one (the mean for voltage-like quantities), '
  'and no reading only if none of them has one; no step is repeated or left out. The result does not depend on the order of the meters, nor on the chunk size where no meter has a gap, and the total energy of a group is, per AC type, the sum over its meters.',
  ['inputs', 'configurations'], 'all sets of meter series with gaps, columns, sections and chunk sizes',
  'one test adds three constant meters',
  ['nilmtk/metergroup.py'],
  [('combine_chunks_from_generators', 'nilmtk/metergroup.py'), ('MeterGroup.load', 'nilmtk/metergroup.py')],
  ['MeterGroup.load', 'MeterGroup.total_energy', 'MeterGroup.get_timeframe', 'MeterGroup.sample_period'],
  'GroupLoad', 'small groups enumerated in the model and replayed on real HDF5 data; random groups validated')

p('C15', 'Looking up and selecting meters returns exactly the meters that match',
  'Selecting from a meter group by metadata or by appliance returns exactly the members that satisfy every criterion, looking up by number, identifier, name or appliance returns the one matching member or is refused, and never a non-matching one. '
  'Mains and submeters partition the members into site meters and the rest, unions contain exactly the members of both, grouping by appliance type puts each appliance meter under its own type, equal groups have equal hashes, and every meter reports the device its own dataset describes.',
  ['inputs', 'histories'], 'all groups over small metadata domains, all keys and criteria, and all orders of adding members',
  'tests look up a handful of keys in one fixed group',
  ['nilmtk/metergroup.py', 'nilmtk/appliance.py', 'nilmtk/elecmeter.py', 'nilmtk/hashable.py'],
  [('MeterGroup.__getitem__/select/select_using_appliances/union', 'nilmtk/metergroup.py'), ('Appliance.matches / ElecMeter.matches', 'nilmtk/appliance.py, elecmeter.py')],
  ['MeterGroup.__getitem__', 'MeterGroup.select', 'MeterGroup.select_using_appliances', 'MeterGroup.mains', 'MeterGroup.submeters'],
  'Group', 'small buildings enumerated; every key and criterion replayed on real groups')

p('C16', 'The wiring tree mirrors the metering hierarchy',
  'For every building the wiring graph has an edge from each upstream meter to its submeter and no other edge, every meter reports as upstream the meter its metadata names in its own building and dataset (or none for a site meter), '
  'where submeter_of 0 means the enabled site meters of the building; the meters directly downstream of mains are exactly the children of the single root of that graph (refused when there is no single root). Loading a dataset again or swapping in its alternative mains never leaves old meters in the graph.',
  ['inputs', 'configurations'], 'all metering trees, across several buildings and datasets loaded together',
  'one fixed two-level tree is tested',
  ['nilmtk/metergroup.py', 'nilmtk/elecmeter.py'],
  [('MeterGroup.wiring_graph', 'nilmtk/metergroup.py'), ('ElecMeter.upstream_meter', 'nilmtk/elecmeter.py')],
  ['ElecMeter.upstream_meter', 'MeterGroup.wiring_graph', 'MeterGroup.meters_directly_downstream_of_mains'],
  'Group', 'every tree up to a bound replayed on real groups, with a second building and dataset present')

p('C17', 'Appliance activations are exactly the qualifying on-periods',
  'The activations of a power series are the runs of readings at or above the on threshold that are complete within the stretch loaded, with off-periods no longer than the minimum off duration bridged and on-periods shorter than the minimum on duration dropped, each activation being a contiguous slice of the series (the run, the reading before it and the requested border; slices containing a missing reading are dropped) and together missing no qualifying run. Questions about when a meter is on report exactly the readings at or above the threshold, and switch times are exactly the readings that differ from the previous one by more than the threshold. The activity script of a data set holds, in order, the start and the end of every activation of every submeter and nothing else.',
  ['inputs'], 'all on/off patterns, thresholds, minimum durations and borders',
  'no test touches activations',
  ['nilmtk/electric.py'],
  [('get_activations', 'nilmtk/electric.py'), ('Electric.when_on', 'nilmtk/electric.py')],
  ['get_activations', 'Electric.get_activations', 'Electric.when_on', 'DataSet.get_activity_script'],
  'Activations', 'every on/off pattern up to a bound with every duration setting replayed; random series validated')

p('C18', 'Event detection pairs each edge at most once and power levels are steady',
  'Steady-state detection reports a transition only between stretches of readings that stay within the tolerance, with a size equal to the change of level; the pairing buffer matches each rising edge with at most one later falling edge whose size is equal within the tolerance, nearest neighbours first, no edge in two pairs, with a bounded memory of unmatched edges. Hart85 predictions have one row per reading of each mains chunk, and report an appliance on only between a rise and the following fall it was given, at the power level of its cluster.',
  ['inputs', 'histories'], 'all power sequences and all sequences of edges, any chunking of the edges',
  'no test touches the detector',
  ['nilmtk/disaggregate/hart_85.py', 'nilmtk/feature_detectors/steady_states.py'],
  [('PairBuffer', 'nilmtk/disaggregate/hart_85.py'), ('find_steady_states', 'nilmtk/feature_detectors/steady_states.py')],
  ['PairBuffer.add_transition/pair_transitions', 'find_steady_states'],
  'Hart', 'pairing buffer specified as a state machine; all bounded edge sequences replayed; steady states over all short power sequences')

p('C19', 'Combinatorial disaggregation picks the nearest combination of known states',
  'For every mains reading, combinatorial optimisation assigns to each appliance one of its learned power states (off included) such that the sum of the assigned powers is as close to the reading as any combination of states can be, one row per reading on the same time stamps. An appliance whose training readings take at most two levels (at least twenty readings) has exactly those levels above 10 W, and off, as its states.',
  ['inputs', 'configurations'], 'all appliance state sets and mains readings',
  'a single synthetic dataset is tested',
  ['nilmtk/disaggregate/combinatorial_optimisation.py', 'nilmtk/utils.py'],
  [('CO.disaggregate_chunk', 'nilmtk/disaggregate/combinatorial_optimisation.py'), ('find_nearest', 'nilmtk/utils.py')],
  ['CO.disaggregate_chunk', 'find_nearest'],
  'Disagg', 'small state sets and readings enumerated; the optimum is computed by the specification')

p('C20', 'Factorial HMM states decompose uniquely into appliance states',
  'Combining the models of several appliances gives a joint model with one state per combination of appliance states, whose means are the sums and whose start and transition probabilities are the products of the individual ones, and decoding a joint state returns exactly the appliance states it stands for. Sorting the learnt states of a model by mean keeps every state with its own probabilities, and where all start and transition probabilities are equal a prediction is, for every reading, the combination of states whose joint mean is nearest.',
  ['inputs', 'configurations'], 'all numbers of appliances and states, all joint states',
  'a single synthetic dataset is tested',
  ['nilmtk/disaggregate/fhmm_exact.py'],
  [('create_combined_hmm, compute_means_fhmm, decode_hmm', 'nilmtk/disaggregate/fhmm_exact.py')],
  ['decode_hmm', 'compute_means_fhmm', 'create_combined_hmm', 'sort_learnt_parameters'],
  'Fhmm', 'exact rational products on all small state vectors, replayed')

p('C21', 'The mean model predicts the mean of all training data, however it is fed',
  'Trained on data in any number of pieces, the mean model predicts for every appliance at every reading the mean of all training readings seen for that appliance, with one prediction per mains reading on the same time stamps; '
  'saving and loading the model does not change its predictions.',
  ['histories', 'inputs'], 'all splits of training data into chunks and all interleavings with save and load',
  'no test touches it',
  ['nilmtk/disaggregate/mean.py', 'nilmtk/disaggregate/disaggregator.py'],
  [('Mean.partial_fit/disaggregate_chunk/save_model/load_model', 'nilmtk/disaggregate/mean.py')],
  ['Mean.partial_fit', 'Mean.disaggregate_chunk', 'Mean.save_model', 'Mean.load_model'],
  'MeanModel', 'all bounded histories of fit/predict/save/load replayed')

p('C22', 'Experiments compare predictions and truth on the same instants of the same home',
  "When an experiment loads mains and appliances, incomplete samples are dropped so that every series handed to an algorithm is defined on the same instants, and every complete sample of the requested period reaches the algorithm, also when the data is handed over in chunks of mains (appliances being loaded over the span of each chunk); of several AC types asked for, each meter delivers the first it has; an artificial aggregate is the sum of the appliances. Predictions come back on exactly the test instants with one column per appliance, and each error is computed between an appliance's own prediction and its own ground truth for that building and chunk, per algorithm and in the order requested.",
  ['inputs', 'configurations'], 'all patterns of missing samples, numbers of appliances, buildings, datasets and chunkings',
  'no test touches the experiment API',
  ['nilmtk/api.py'],
  [('API.train/test, dropna, predict, compute_loss', 'nilmtk/api.py')],
  ['API(...) with recording disaggregators'],
  'Experiment', 'random and enumerated small datasets run through the real API with a recording algorithm; recorded calls validated')

p('C23', 'Disaggregation metrics and losses follow their definitions',
  'Each error metric equals its published definition on aligned predicted and true power: mean absolute error, root mean square error, on/off F1 score at the threshold, relative error, normalised disaggregation error, normalised error in assigned power and R2; perfect predictions score best and each metric is finite on any non-degenerate input. Metrics over meter groups compare each predicted meter with the meter of the same instance, aligned by sample periods inside the good sections of the prediction, and evaluate the definition over the aligned samples (F1: the mean over chunks weighted by their samples). The table of root mean square errors compares every appliance of the truth with the predictions of the same appliance at the instants both have a reading, lists no other appliance, and calls each by its label, with building and instance where two share one.',
  ['inputs'], 'all pairs of power series',
  'only two metrics are tested on one dataset',
  ['nilmtk/losses.py', 'nilmtk/metrics.py', 'nilmtk/utils.py'],
  [('losses', 'nilmtk/losses.py'), ('metrics', 'nilmtk/metrics.py')],
  ['nilmtk.losses.*', 'nilmtk.metrics.*', 'nilmtk.utils.compute_rmse'],
  'Metrics', 'exact integer sums in the specification, compared as scaled numbers over enumerated and random series')

p('C24', 'Resampling averages each bin and fills only short gaps',
  'Loading a meter at a coarser or equal sample period gives one row per period from the first to the last reading, each the mean of the readings in that bin; an empty bin repeats the last value only if within the allowed gap of the meter, and is missing otherwise. '
  'Of duplicate time stamps only the first reading counts, and regardless of daylight-saving changes bins are aligned to the same instants. '
  'Asked for the greatest, least, first or last reading of each bin instead, or to fill backwards or over fewer bins, it does exactly that; what one load was asked for does not carry over to the next.',
  ['inputs', 'configurations'], 'all reading times, duplicate stamps, gaps, sample periods and time zones',
  'no test covers resampling of gaps',
  ['nilmtk/utils.py', 'nilmtk/electric.py', 'nilmtk/elecmeter.py'],
  [('safe_resample', 'nilmtk/utils.py'), ('_prep_kwargs_for_sample_period_and_resample', 'nilmtk/electric.py')],
  ['ElecMeter.load(sample_period=...)'],
  'Resample', 'small patterns enumerated and replayed, random ones validated')

p('C25', 'Keys and identifiers round-trip and never collide',
  'Every building/meter location has one canonical key text that parses back to the same building, meter and utility, distinct locations have distinct keys, malformed keys are refused, and joining key parts is insensitive to extra slashes around the parts and to how the parts are grouped.',
  ['inputs'], 'all building and meter numbers and all groupings of key parts',
  'three fixed examples',
  ['nilmtk/datastore/key.py', 'nilmtk/datastore/datastore.py'],
  [('Key', 'nilmtk/datastore/key.py'), ('join_key', 'nilmtk/datastore/datastore.py')],
  ['Key', 'join_key'],
  'Keys', 'all small numbers and slash placements replayed')

p('C26', 'Whole-series loading joins chunks with no reading lost or repeated',
  "Reading all of a meter's power as one series gives every stored reading of the requested sections exactly once, whatever the chunk size and also where the sections overlap, in time order when the sections are in order; it is the sum over the AC types recorded unless one is asked for, and chunk-wise power series together contain exactly the same readings.",
  ['inputs', 'configurations'], 'all tables and chunk sizes',
  'no test joins chunks',
  ['nilmtk/electric.py'],
  [('power_series_all_data / load_series', 'nilmtk/electric.py')],
  ['Electric.power_series_all_data', 'Electric.power_series', 'Electric.load_series'],
  'Series', 'all small tables and chunk sizes replayed')

p('C27', 'Clearing model checkpoints deletes only that model\'s checkpoint files',
  'Clearing the checkpoints of a model removes exactly the files (and links to files) directly in the working directory whose names start with the file prefix of that model and end in .h5, and nothing else: files with other names or endings, folders, links to folders and all files elsewhere, also those that links point to, survive, and a model without a file prefix removes nothing.',
  ['inputs', 'histories'], 'all file names in the directory and all model names',
  'no test covers it',
  ['nilmtk/disaggregate/disaggregator.py'],
  [('Disaggregator.clear_model_checkpoints', 'nilmtk/disaggregate/disaggregator.py')],
  ['Disaggregator.clear_model_checkpoints'],
  'Checkpoints', 'all small directories of names replayed in a scratch directory')

p('C28', 'Histograms of chunked data count every reading once',
  'The histogram of a stream of chunks has the same counts and bin edges as the histogram of all readings together over the same range, for every chunking, missing readings and chunks without readings being ignored. An end of the range that is not given is the least or greatest reading of the first chunk that has any.',
  ['inputs', 'configurations'], 'all series, bin settings and chunkings',
  'no test covers it',
  ['nilmtk/stats/histogram.py'],
  [('histogram_from_generator', 'nilmtk/stats/histogram.py')],
  ['histogram_from_generator'],
  'Histogram', 'all small series, chunkings and ranges replayed')

p('C29', 'Dataset conversion keeps every reading under the right meter',
  "Converting a raw REDD, UK-DALE, REFIT, DRED, AMPds or COMBED directory stores, for every house and channel found, exactly the readings of that channel's file under that building and meter and no others, in the local time zone of the dataset and with the measurement columns its layout prescribes. REDD, REFIT and DRED readings are sorted by time and none is dropped; UK-DALE readings keep the order of the file and, unless asked otherwise, only the first reading of a repeated stamp; one-second UK-DALE mains come from mains.dat; incomplete AMPds rows are dropped; the files of a COMBED meter are joined by time. HDF5 and CSV output hold the same.",
  ['inputs', 'configurations'], 'all sets of houses and channels, reading orders and duplicates',
  'no test covers the converters',
  ['nilmtk/dataset_converters/redd/convert_redd.py', 'nilmtk/dataset_converters/ukdale/convert_ukdale.py', 'nilmtk/dataset_converters/refit/convert_refit.py', 'nilmtk/dataset_converters/dred/convert_dred.py', 'nilmtk/dataset_converters/ampds/convert_ampds.py', 'nilmtk/dataset_converters/combed/convert_combed.py'],
  [('_convert, _load_csv', 'nilmtk/dataset_converters/redd/convert_redd.py'), ('convert_*', 'nilmtk/dataset_converters')],
  ['convert_redd', 'convert_ukdale', 'convert_refit', 'convert_dred', 'convert_ampds', 'convert_combed'],
  'Convert', 'raw directories over all short orders and repetitions of stamps are generated by TLC, converted by the real converters and read back; random directories validated')

p('C30', 'A window set on a dataset bounds everything loaded through it',
  "After any sequence of window changes on a dataset, every load, time frame and statistic of each of its meters covers exactly the stored readings inside the current window interpreted in the dataset's time zone (statistics include a reading at the very end of the window), clearing the window restores everything, and a bound that is refused (or any bound, while the data set is not open or its time zone unknown) leaves the window as it was. The instant proposed for splitting a building into training and testing data has exactly the requested fraction of the good sections of its mains before it.",
  ['histories', 'configurations'], 'all sequences of window settings (strings, time stamps, open ends) and time zones',
  'one fixed window is tested',
  ['nilmtk/dataset.py', 'nilmtk/datastore/datastore.py'],
  [('DataSet.set_window', 'nilmtk/dataset.py'), ('DataStore.window', 'nilmtk/datastore/datastore.py')],
  ['DataSet.set_window', 'ElecMeter.load', 'ElecMeter.get_timeframe'],
  'Window', 'all bounded histories of window changes and loads replayed on a real dataset')

p('C31', 'Derived energy figures follow from energies and good sections',
  "The up time of a meter is the total length of its good sections, its average energy per period is its energy divided by the up time in such periods, and its proportion of another meter is the ratio of their energies over the good sections of that other meter, averaged over the AC types both record, or for its upstream meter at the best AC type both record. Energy per meter, with the remainder to the mains, fractions per meter and the top meters of a group follow from the energies of the single meters: remainder and meters add up to the mains, fractions add up to one, and no meter left out of the top used more than one kept. The dropout rate of a group is the mean of the rates of its meters, and the description of a group, of a building (with what is known about it) or of a data set (with a column per building) states the counts, periods, up time and stretch of its meters.",
  ['inputs', 'configurations'], 'all groups of meters with different AC types, gaps and good sections',
  'no test covers them',
  ['nilmtk/electric.py', 'nilmtk/elecmeter.py', 'nilmtk/metergroup.py'],
  [('Electric.proportion_of_upstream, proportion_of_energy, average_energy_per_period', 'nilmtk/electric.py'), ('ElecMeter.uptime', 'nilmtk/elecmeter.py'), ('MeterGroup.energy_per_meter, fraction_per_meter, select_top_k, proportion_of_energy_submetered', 'nilmtk/metergroup.py')],
  ['ElecMeter.uptime', 'Electric.average_energy_per_period', 'Electric.proportion_of_energy', 'Electric.proportion_of_upstream', 'MeterGroup.energy_per_meter', 'MeterGroup.fraction_per_meter', 'MeterGroup.select_top_k', 'MeterGroup.proportion_of_energy_submetered'],
  'Derived', 'small homes generated by TLC and random homes, run on real meters, every figure validated against the specification')

p('C32', 'Meters compared over time',
  "The correlation of two aligned meters or groups over the requested sections is the Pearson correlation of their readings there, simultaneous switches are exactly the instants where two or more submeters change by more than the threshold at once, with how many do, and the activity histogram counts, for each part of the period, in how many periods the greatest reading reaches the threshold. The table of all meters holds every reading of each meter in that meter's column and none from outside the requested sections, and the vampire power is the least reading.",
  ['inputs', 'configurations'], 'all sets of short series, thresholds, sections and bins',
  'no test covers them',
  ['nilmtk/electric.py', 'nilmtk/metergroup.py'],
  [('Electric.correlation, activity_histogram, vampire_power', 'nilmtk/electric.py'), ('MeterGroup.pairwise, simultaneous_switches, dataframe_of_meters', 'nilmtk/metergroup.py')],
  ['Electric.correlation', 'MeterGroup.pairwise_correlation', 'MeterGroup.correlation_of_sum_of_submeters_with_mains', 'MeterGroup.simultaneous_switches', 'Electric.activity_histogram', 'MeterGroup.dataframe_of_meters', 'Electric.vampire_power'],
  'Compare', 'all pairs of short series generated by TLC and random groups, run on real meters and validated against the specification')

p('C33', 'Disaggregating to a data store writes estimates that load as a data set',
  'Disaggregating mains into a data store with the combinatorial, factorial-HMM or Hart model of nilmtk.legacy reads the given sections (good sections by default) at the given sample period, skips every piece with fewer rows than the minimum, '
  'and stores a copy of the mains under meter 1 and, for every modelled meter, one estimate per kept row under its own instance: for the combinatorial and HMM models the combination of known states nearest to the mains, for Hart85 the level of the cluster switched on. '
  'The output loads as a data set with the building, sample period, overall time frame, a site meter, one submeter per model and its appliances; a model exported and imported again gives the same results, and training learns the levels of each submeter of the group.',
  ['inputs', 'configurations'], 'all mains records, models, sections, sample periods and minimum lengths',
  'the tests run one algorithm on one fixed file and inspect little of the output',
  ['nilmtk/legacy/disaggregate/disaggregator.py', 'nilmtk/legacy/disaggregate/combinatorial_optimisation.py', 'nilmtk/legacy/disaggregate/fhmm_exact.py', 'nilmtk/legacy/disaggregate/hart_85.py'],
  [('CombinatorialOptimisation/FHMM/Hart85.disaggregate', 'nilmtk/legacy/disaggregate'), ('Disaggregator._save_metadata_for_disaggregation', 'nilmtk/legacy/disaggregate/disaggregator.py')],
  ['CombinatorialOptimisation.disaggregate', 'FHMM.disaggregate', 'Hart85.disaggregate', 'export_model', 'import_model', 'DataSet'],
  'Estimates', 'section-by-section model checked with TLC; outputs of real runs on real stores validated against the specification')

p('C34', 'Training the event detector learns recurring edge sizes and matches appliances',
  'Hart85.partial_fit (on the first chunk of mains) and the training of nilmtk.legacy Hart85 (on all chunks of a meter group) pair the edges of the mains, and learn one power level per well-separated group of pair sizes (size of a pair: mean of its rise and fall): the mean size of the group, largest group first. '
  'partial_fit gives every appliance the level whose predicted switching on the training mains has the least squared error against the record of that appliance; predictions then follow the edges with that level, and a model exported and imported again has the same levels and gives the same predictions. The training data is not modified.',
  ['inputs', 'histories'], 'all mains records and appliance records, thresholds, tolerances and buffer sizes, any chunks',
  'no test trains the event detector of the current interface; clustering depends on all pairs at once',
  ['nilmtk/disaggregate/hart_85.py', 'nilmtk/legacy/disaggregate/hart_85.py', 'nilmtk/feature_detectors/cluster.py', 'nilmtk/feature_detectors/steady_states.py'],
  [('Hart85.partial_fit / min_rmse_column', 'nilmtk/disaggregate/hart_85.py'), ('hart85_means_shift_cluster', 'nilmtk/feature_detectors/cluster.py')],
  ['Hart85.partial_fit', 'Hart85.centroids', 'Hart85.best_matches', 'Hart85.disaggregate_chunk', 'Hart85.export_model', 'Hart85.import_model', 'nilmtk.legacy Hart85.train'],
  'HartTrain', 'every home whose appliances are switched one at a time, model checked with TLC; training of the real detectors validated against the specification')

p('C35', 'Groups describe their meters and carry over to other data sets',
  'A meter is labelled by its name if it has one, otherwise as site meter, otherwise by its dominant appliance: the one marked as dominant, or else the first; the labels of a group are those of its meters. '
  'A group lists every appliance connected to its meters exactly once, also where appliances of different buildings have the same type and number, and the values of a metadata key are those of its (dominant) appliances and no others; a group is a site meter if any of its meters is. '
  'The buildings and data sets of a group are those of its meters, and its upstream meter is the one all its meters share (refused if they do not). '
  'A group carried over to another data set holds exactly the meters of the same number and building there, nested alike, and pairing the submeters of two groups pairs each with the equal one; both are refused when one is missing.',
  ['inputs', 'histories'], 'all buildings and groups, nested groups, twins of buildings in other data sets, any history of naming meters, marking appliances, swapping mains and loading again',
  'the tests name no meter, mark no appliance and load one data set at a time',
  ['nilmtk/metergroup.py', 'nilmtk/elecmeter.py', 'nilmtk/appliance.py', 'nilmtk/dataset.py'],
  [('MeterGroup.from_other_metergroup / from_list', 'nilmtk/metergroup.py'), ('ElecMeter.label / dominant_appliance', 'nilmtk/elecmeter.py'), ('MeterGroup.appliances / values_for_appliance_metadata_key', 'nilmtk/metergroup.py')],
  ['ElecMeter.label', 'ElecMeter.dominant_appliance', 'ElecMeter.name', 'MeterGroup.appliances', 'MeterGroup.dominant_appliances', 'MeterGroup.values_for_appliance_metadata_key', 'MeterGroup.get_labels', 'MeterGroup.building', 'MeterGroup.upstream_meter', 'MeterGroup.from_other_metergroup', 'iterate_through_submeters_of_two_metergroups'],
  'Describe', 'a home described twice with every naming and marking, model checked with TLC and replayed; random pairs of data sets validated against the specification')

p('C36', 'Conversion of daily, yearly and shared files keeps readings and meters',
  "Converting raw IDEAL, SMART, Dataport, ECO, iAWE, HIPE, GREEND, HES and CAXE directories stores, under the meter each reading belongs to, exactly the readings the layout keeps, at their instants in the zone of the dataset, whatever order directories list their entries in, however rows are split over files and chunks, and from any working directory: IDEAL homes with both mains and appliance readings; the use and every circuit of the half-hourly SMART files, years one after the other; for every eligible Dataport building the use (grid plus solar) and every appliance, each under one meter described once by its column across all files; ECO phases and plugs without readings of -1, with the reactive power that follows from the phase angle; iAWE means per minute on the fixed grid, filled with zero power and the median of other columns; absolute HIPE powers; one GREEND meter per column in order of first appearance by date with one reading per stamp; for every HES house each channel's own readings, every appliance described; CAXE means per minute of the readings that are complete. Kilowatts become watts for SMART, Dataport and HIPE, and HDF5 and CSV output hold the same.",
  ['inputs', 'configurations'], 'all layouts, listing orders, chunkings and orders of readings',
  'no test covers the converters',
  ['nilmtk/dataset_converters/ideal/convert_ideal.py', 'nilmtk/dataset_converters/smart/convert_smart.py', 'nilmtk/dataset_converters/dataport/csv_converter.py', 'nilmtk/dataset_converters/eco/convert_eco.py', 'nilmtk/dataset_converters/iawe/convert_iawe.py', 'nilmtk/dataset_converters/hipe/convert_hipe.py', 'nilmtk/dataset_converters/greend/convert_greend.py', 'nilmtk/dataset_converters/hes/convert_hes.py', 'nilmtk/dataset_converters/caxe/convert_caxe.py'],
  [('convert_*', 'nilmtk/dataset_converters')],
  ['convert_ideal', 'convert_smart', 'convert_dataport', 'convert_eco', 'convert_iawe', 'convert_hipe', 'convert_greend', 'convert_hes', 'convert_caxe'],
  'Import', 'raw directories over all short orders and repetitions of stamps are generated by TLC, converted by the real converters (with shuffled directory listings and small chunks) and read back; random directories validated')

p('C37', 'Entropy and mutual information follow the distances to neighbours',
  'The entropy of a meter and the mutual information of two meters with aligned readings are the nearest-neighbour estimates the documentation describes (Kozachenko-Leonenko; Kraskov, Stoegbauer and Grassberger): the k-th nearest of the other readings of each reading, in the larger of the two differences for a pair of meters, with the points on that boundary left out of the counts at every distance; in the requested base (bits by default, k of 3 by default). A series longer than the most that are looked at together is cut into a whole number of nearly equal pieces, one after the other, and the estimates are averaged.',
  ['inputs'], 'all pairs of series without ties between neighbours, k, bases, lengths above and below the limit for one piece',
  'no test computes either; boundary points and pieces only matter at particular distances and lengths',
  ['nilmtk/electric.py'],
  [('Electric.entropy', 'nilmtk/electric.py'), ('Electric.mutual_information', 'nilmtk/electric.py')],
  ['Electric.entropy', 'Electric.mutual_information'],
  'Information', 'all small pairs of series and the laws of the estimates model checked with TLC in fixed-point arithmetic and replayed; random series validated to 0.006 bit')

"""Write properties.jsonl (run by hand after editing; the jsonl is committed)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


p('C01', 'Data and metadata survive storage in SAC, Q and HDF5',
  'A stream written with RFStream.write/RFTrace.write to SAC, Q (SeismicHandler) or HDF5 and read back with read_rf, also after any chain of conversions between these formats, has the same traces: same network, station, location and channel codes, sampling rate, start time and samples (to format precision). '
  'Every header the format supports (station and event coordinates, elevation, depth, magnitude, event_time, onset, type, phase, moveout, distance, back_azimuth, inclination, slowness, pp_*, box_pos, box_length; for HDF5 all headers) has the value it had before, including values that are 0, negative or an empty location code. '
  'A header that was absent is still absent (SAC itself may derive distance and back_azimuth from coordinates), and sh_compat=True only drops the headers which live in the COMMENT field. Files of other programs, with any subset of the headers and any comment, are read with the headers they have, and options of the writers are respected.',
  ['inputs', 'configurations'],
  'all combinations of format chain, header subset, header values at the limits (0, negative, date line, southern hemisphere, sub-sample onsets), location code, component set, number of traces',
  'test_io writes one example stream per format and compares a handful of headers; it never varies header subsets, location codes or start times, and never converts between formats.',
  ['rf/rfstream.py', 'rf/batch.py'],
  [('header tables and their format maps', 'rf/rfstream.py _HEADERS/_FORMATHEADERS/_HEADER_CONVERSIONS'),
   ('read/write of format specific headers', 'rf/rfstream.py RFTrace._read_format_specific_header/_write_format_specific_header'),
   ('Q station code packing', 'rf/rfstream.py RFTrace.__init__ and RFStream.write')],
  ['stats and data of the stream returned by read_rf'])

p('C02', 'Writing leaves the stream and the process untouched, even when it fails',
  'RFStream.write and RFTrace.write, for every format, whether they succeed or raise at any point of the underlying file access, leave trace ids, samples, headers visible to the user (apart from the format specific sub-dictionaries) and the number and order of traces of the stream as they were. '
  'The process-wide HDF5 index used by obspyh5 is the same after the call as before it. '
  'A write after other (failed or successful) writes gives the same file content as it would have given before them (apart from the format specific sub-dictionaries).',
  ['fault_sequences', 'crash_points', 'histories'],
  'all sequences of writes in different formats with a failure injected at each file-open and each HDF5 dataset creation of the history',
  'tests only write successfully; no test makes a write fail at any point or looks at the stream or the obspyh5 index afterwards.',
  ['rf/rfstream.py'],
  [('index switch and restore, station renaming for Q and restore', 'rf/rfstream.py RFStream.write')],
  ['stream after the call', 'obspyh5._INDEX', 'files in the scratch directory'],
  [('obspyh5 index', 'process wide format of HDF5 group names', 'obspyh5._INDEX')])

p('C03', 'Traces are grouped into components of one record exactly once',
  'IterMultipleComponents(stream, key, number_components) yields substreams which partition the traces: two traces are in the same substream exactly if network, station, location, band and instrument code and (if key is given) the stats entry key agree, the traces themselves (not copies) are used and their stream order is kept inside a substream. '
  'Only substreams whose number of traces is in number_components (an int, a tuple or None for any) are returned; every such substream is returned exactly once, len() agrees with the iteration, and iterating repeatedly or over a reordered stream gives the same groups.',
  ['inputs', 'histories'],
  'all streams of up to n traces over an alphabet of ids and key values, every permutation, every key and number_components value',
  'test_util checks one example with three stations and one key.',
  ['rf/util.py'], [('grouping by id without component and key', 'rf/util.py IterMultipleComponents')],
  ['substreams yielded'])

p('C04', 'rf() on a collection equals rf() on each record alone',
  'RFStream.rf applied to a stream holding any number of records (stations, events, component subsets) in any trace order gives for every trace the same samples and headers as applying the documented steps filter, trim, downsample, rotate, deconvolve to its record alone; no trace influences traces of another record and the traces keep their position in the stream. '
  'Steps switched off with None/False are not applied, and all keyword arguments reach the deconvolution of every record, not just of the first.',
  ['inputs', 'histories', 'configurations'],
  'all multisets of up to n records over an alphabet, all permutations of their traces up to a bound, all combinations of steps and deconvolution methods',
  'tests call rf() on one to three records in file order with a few option sets and check only peak positions.',
  ['rf/rfstream.py', 'rf/util.py', 'rf/deconvolve.py'],
  [('loop over records for rotation and deconvolution, shared kwargs', 'rf/rfstream.py RFStream.rf')],
  ['samples and stats after rf()'])

p('C05', 'Polarity, time axis and header conventions of receiver functions',
  'After rf() Q components have opposite sign to the rotated ones, all other components keep theirs; for method S every trace is mirrored in time and its onset mirrored with it, so that the sample at time t relative to onset moves to -t, for every onset position and trace length. '
  'All traces get type rf and a phase whose last letter is the method; the method is determined from the last letter of the phase header if not given, a phase ending on the method (e.g. PP, SKS) is kept, and every other method than P or S is refused with ValueError before anything is changed. '
  'By default L or Z is the source component for P and Q or R for S.',
  ['inputs', 'configurations'],
  'all combinations of method, phase header, rotation, component set, onset position, trace length parity, deconvolution on/off',
  'tests look at the position of the largest peak of two examples; sign, mirrored onset and other phases are not tested.',
  ['rf/rfstream.py'],
  [('sign flip, mirror and header update', 'rf/rfstream.py RFStream.rf')], ['samples, onset, type and phase after rf()'])

p('C06', 'Deconvolution recovers the earth response at the right time and amplitude',
  'If the response components are the source wavelet convolved with a few spikes, rf() and deconvolve() with each of the methods time, waterlevel, iterative and multitaper return traces whose main extremum on every component lies at the spike delay relative to the onset header (within one sample) with the right sign and, for all but the multitaper method (which damps later arrivals), the right amplitude relative to the source component; the source component itself peaks at the onset with value 1. '
  'This holds independent of sampling rate, trace length and parity, onset position in the trace, sub-sample onset offsets, source window and component order.',
  ['inputs', 'configurations'],
  'all combinations of method, sampling rate, trace length, onset offset, source window, component order, delay and amplitude in the alphabet',
  'tests run one synthetic per method at one sampling rate with an even number of samples.',
  ['rf/deconvolve.py', 'rf/rfstream.py'],
  [('choice of windows and shifts for each method', 'rf/deconvolve.py deconvolve'), ('alignment of cross-correlation', 'rf/deconvolve.py _xcorrt')],
  ['position and amplitude of extrema'])

p('C07', 'The deconvolution solvers compute what their documentation defines',
  'deconv_time returns (STS + spiking*I)^-1 STR for the documented autocorrelation matrix and shifted cross-correlation, deconv_waterlevel the waterlevel-regularised Gauss-filtered spectral division, deconv_iterative the greedy spike-train fit with the documented stopping rule and mute option, deconv_multitaper the Slepian multitaper estimate, for all lengths, parities, shifts and parameter values. '
  'Each result is normalised exactly as requested by normalize (index, None, or src for waterlevel), has the requested length, does not depend on the other responses in the list when normalize is None, and a single array gives the same result as a list with that array (time, waterlevel, iterative). '
  'Inputs are never modified.',
  ['inputs', 'configurations'],
  'all short signals over a small alphabet crossed with all parameter combinations (length, shift, nfft, gauss, waterlevel, normalize, tshift, itmax, mute_shift, ...)',
  'unit tests deconvolve a few random signals and compare loosely (decimal=1) with expected spikes.',
  ['rf/deconvolve.py'],
  [('solvers', 'rf/deconvolve.py deconv_time/deconv_waterlevel/deconv_iterative/deconv_multitaper')],
  ['returned arrays'])

p('C08', 'deconvolve() uses the right traces and windows and touches nothing else',
  'Stream.deconvolve picks exactly the one trace whose component is in source_components as source and the traces whose component is in response_components (all if None) as responses; any other number of sources, no response or more than three responses is refused with ValueError and unknown methods with NotImplementedError. '
  'The source is cut to the window winsrc around the onset (zero padded), tapered, and handed together with sampling rate and shift to the selected method or the user function; onsets are moved to the nearest sample; results are normalised by the source trace or, if it is not in the responses, by the first response, unless normalize is given. '
  'Traces that are not responses keep samples and headers except the onset of the source, and results are returned in the input order with their own headers.',
  ['inputs', 'configurations'],
  'all subsets and orders of components, all values of source_components/response_components/method/winsrc/normalize/noise in the alphabet, including invalid ones',
  'tests use complete three component streams and default component choices only.',
  ['rf/deconvolve.py', 'rf/rfstream.py'],
  [('component choice, windows, default normalisation', 'rf/deconvolve.py deconvolve')],
  ['returned stream, arguments seen by the user function, input traces'])

p('C09', 'Moveout correction follows 1D ray theory',
  'moveout(phase, ref, model) moves the amplitude found at the delay time of a conversion or multiple from depth z for the slowness of the trace to the delay time of the same depth for the reference slowness, for all depths down to the layer above the one where one of the rays turns, all phases (Ps, Sp, Ppss, Ppps, Psss and other multiples) and models; samples before the onset (after it for S-side phases with reversed time) are unchanged and a trace with slowness equal to ref is unchanged. '
  'The headers are set to moveout=phase, slowness=ref and slowness_before_moveout=previous slowness, the default phase is Ps for P and Sp for S receiver functions. '
  'An onset outside of the trace or a phase of odd length is refused with ValueError.',
  ['inputs', 'configurations'],
  'all combinations of phase, slowness, reference, model, trace length, onset position (on and off sample) and sampling rate in the alphabet',
  'tests compare delay times of one phase and model and check that a corrected spike lies near the expected time.',
  ['rf/simple_model.py', 'rf/rfstream.py'],
  [('delay times and stretching', 'rf/simple_model.py SimpleModel.stretch_delay_times/moveout')],
  ['samples and headers after moveout()'])

p('C10', 'Model based results do not depend on what was computed before',
  'moveout, ppoints, rfstats with piercing points, calculate_delay_times and plot_profile give for given arguments the same result in every order and number of calls, whatever phases, reference slownesses, depths, models (named, by file name, or own SimpleModel instances) and streams were used before in the same process, and whether earlier calls failed or were interrupted at any point. '
  'Neither the arguments nor models handed out by load_model are altered by a call.',
  ['histories'],
  'all call sequences up to a bound over an alphabet of operations with different phases, references, slownesses, depths and models',
  'each test calls these functions once or twice in a fresh context; the cached models and cached reference delay times are never exercised across calls with different arguments.',
  ['rf/simple_model.py', 'rf/rfstream.py'],
  [('model cache and cache of reference delay times', 'rf/simple_model.py load_model, SimpleModel.t_ref')],
  ['samples, coordinates and delay times returned by the call'],
  [('_MODEL_CACHE', 'models already read', 'rf/simple_model.py'), ('t_ref', 'reference delay times already computed', 'rf/simple_model.py SimpleModel')])

p('C11', 'Piercing points lie where the ray pierces the depth',
  'ppoints, rfstats(pp_depth=...) and SimpleModel.ppoint place the piercing point from the station in direction of the back azimuth at the horizontal distance a ray of the given slowness travels as P or S (or as multiple, summed over its legs) between the surface and the depth in the 1D model, and store latitude, longitude and depth in pp_latitude, pp_longitude, pp_depth. '
  'The default phase is S for P receiver functions and P for S receiver functions, the array returned by ppoints lists the coordinates in trace order, a deeper point lies farther away, and nothing but the pp_* headers changes.',
  ['inputs', 'configurations'],
  'all combinations of depth (on, between and below layer boundaries), slowness, phase, model, station coordinates (poles, date line, both hemispheres) and back azimuth in the alphabet',
  'one test compares two distances computed in two ways for one model.',
  ['rf/simple_model.py', 'rf/rfstream.py'],
  [('distance by summation over layers, geodesic', 'rf/simple_model.py SimpleModel.ppoint_distance/ppoint')],
  ['pp_* headers and returned coordinates'])

p('C12', 'rfstats computes the ray of the requested phase',
  'For every event, station and phase, rfstats sets distance to the epicentral distance, back_azimuth to the direction from station to event (0 to 360 degrees), and onset, slowness and incidence angle to travel time after origin, ray parameter and incidence angle of the first arrival of the phase at the station for the event depth in the requested travel time model; event and station attributes and phase are stored in their headers with depth in km. '
  'Event origin and magnitude are the preferred ones if marked as preferred, otherwise the first ones, and the result does not depend on whether the values come from objects, from headers, or from both.',
  ['inputs', 'configurations'],
  'all combinations of event positions and depths, station positions (including poles, date line and equator), phases, travel time models, preferred/first origins and ways to pass the arguments in the alphabet',
  'tests check one event-station pair against fixed numbers.',
  ['rf/rfstream.py'],
  [('geometry and arrivals', 'rf/rfstream.py rfstats'), ('event and station attributes', 'rf/rfstream.py obj2stats and getters')],
  ['headers set by rfstats'])

p('C13', 'rfstats keeps exactly the records inside the distance range',
  'rfstats on a single stats object returns None and leaves it without ray headers exactly if the epicentral distance is outside of dist_range (bounds inclusive; default 30-90 degrees for P, 50-85 for S, required for other phases with ValueError); on a stream it removes exactly those traces, keeps all others in order and returns the same stream object. '
  'Missing origin, origin time, coordinates, depth or magnitude raise ValueError, a phase without arrival raises, an unset dist_range (None) keeps everything, and several arrivals give a warning and the first arrival.',
  ['inputs', 'configurations', 'histories'],
  'all streams of up to n traces with distances at, just inside and just outside of the bounds, all ways to pass event/station and ranges, all incomplete events',
  'a single test discards one record of the example data.',
  ['rf/rfstream.py'], [('distance test and stream filtering', 'rf/rfstream.py rfstats')],
  ['returned object, traces left in stream'])

p('C14', 'iter_event_data yields every complete record once, whatever the data source does',
  'For every catalog, inventory and behaviour of get_waveforms (data, exceptions, None, missing or additional components, gaps, overlaps, split traces, different sampling rates, empty streams), iter_event_data asks exactly once for each event-station(-location, band) pair which has coordinates at origin time and lies in the distance range, with the request window around the onset widened by pad, and yields exactly the records which can be cut to three gap-free components, in event-major order, trimmed to the request window and with all rfstats headers attached to each trace. '
  'The data of the source is never changed, not even if yielded records are modified. No answer of the data source stops the iteration or affects other records, iterators can be interleaved, the progress bar counts every pair, and iter_event_metadata lists the same pairs. Data which is dropped because of its components, gaps or overlaps is announced by a warning.',
  ['fault_sequences', 'inputs', 'histories'],
  'all assignments of data-source answers to requests up to a bound, all small catalogs/inventories (several locations, bands, epochs), windows, phases and pads',
  'a single test iterates over the example data with a well-behaved source.',
  ['rf/util.py', 'rf/batch.py'],
  [('request loop and rejection of bad answers', 'rf/util.py iter_event_data'), ('list of stations', 'rf/util.py _get_stations')],
  ['requests seen by get_waveforms, yielded streams'])

p('C15', 'stack() is the mean per seed id with that station\'s headers',
  'RFStream.stack returns exactly one trace per distinct seed id of the stream whose samples are the arithmetic mean of all traces with that id, independent of the order of traces. '
  'The stacked trace carries id, sampling rate, station coordinates, phase and moveout of the traces of that id, the onset is at the same time relative to the start of the trace as in the stacked traces, and event specific headers are gone. '
  'Stacking traces of equal id and different length raises ValueError.',
  ['inputs', 'histories'],
  'all multisets of up to n traces over an alphabet of ids, headers and samples, in all orders',
  'tests count traces of stacks of the example data.',
  ['rf/rfstream.py'], [('stacking by id', 'rf/rfstream.py RFStream.stack')], ['returned stream'])

p('C16', 'profile() bins every trace by its piercing point and averages per bin',
  'get_profile_boxes returns one box per pair of adjacent bin edges, centred on the great circle through the starting point with the given azimuth, with the right length, width and position, and a profile contains for every box and component with at least one piercing point inside one trace with the mean of exactly these traces, their number, the box and profile headers, slowness, phase, moveout and onset. '
  'Piercing points outside of all boxes contribute nowhere, the result does not depend on trace order or on whether a stream, list or iterator is passed, and holds at every latitude, azimuth and across the date line.',
  ['inputs', 'configurations', 'histories'],
  'all assignments of up to n traces to bins/outside, all orders, profile origins, azimuths, widths and bin edges in the alphabet',
  'one test computes one profile in Chile with three boxes.',
  ['rf/profile.py'],
  [('box geometry', 'rf/profile.py _get_box/get_profile_boxes'), ('search of box', 'rf/profile.py _find_box'), ('averaging', 'rf/profile.py profile')],
  ['returned profile stream'])

p('C17', 'Harmonic decomposition is the least squares solution of the documented system',
  'harmonics() returns for components R, Q, T, RT or QT and both methods traces (5, or 10 for two components) which are at every sample the least squares solution of the system given in the references for the back azimuths, azim and scalars; data composed of harmonics are reproduced exactly, independent of the order of the traces in the stream. '
  'Channels 0-4 with headers term, components, location mod/unmod, type harmonic, the onset and sampling are set, event specific headers are removed, and unsupported components, missing components or methods are refused; less than four receiver functions of a component give a warning.',
  ['inputs', 'configurations'],
  'all combinations of components, method, azim, scalars, sets of back azimuths and trace orders in the alphabet',
  'one test decomposes one synthetic example per method with tolerance.',
  ['rf/harmonics.py'],
  [('design matrices', 'rf/harmonics.py decomp_one/decomp_two'), ('fit and headers', 'rf/harmonics.py harmonics')],
  ['returned stream'])

p('C18', 'Derived streams never alias or change their sources',
  'stack, profile, harmonics, plots, copy and the minimal_example functions leave the stream they work on untouched, and whatever is done afterwards to their result (in-place processing, header or sample changes) does not show up in the source, and vice versa, nor in later results of the same functions. '
  'The in-place operations (rf, moveout, deconvolve, trim2, ppoints, rfstats) change only the stream they are called on and not a copy made before.',
  ['histories'],
  'all sequences of derive and mutate operations up to a bound on sources, copies and derived streams',
  'tests never modify a derived stream and look at the source afterwards, or call a cached example function after modifying an earlier result.',
  ['rf/rfstream.py', 'rf/profile.py', 'rf/harmonics.py', 'rf/util.py'],
  [('copies of data and headers', 'rf/rfstream.py RFStream.stack, rf/profile.py profile, rf/harmonics.py harmonics'), ('cache of examples', 'rf/util.py minimal_example_rf')],
  ['samples and headers of all streams alive'],
  [('__CACHE', 'examples already calculated', 'rf/util.py')])

p('C19', 'Every processing step is recorded once on every resulting trace',
  'After any sequence of rf, deconvolve, moveout, stack, profile and harmonics each trace of the result carries in its processing header, in the order of the calls, exactly one entry per call naming the function, the version and all its arguments with their values including defaults; entries already present are kept (harmonics, which combine traces with different histories, start a new list), and traces not involved get no entry. '
  'Recording never changes arguments, result or outcome of the call.',
  ['histories', 'configurations'],
  'all sequences of operations up to a bound with positional, keyword and default arguments',
  'no test looks at the processing header.',
  ['rf/util.py'], [('recording decorator', 'rf/util.py _add_processing_info')], ['stats.processing'])

p('C20', 'trim2 and slice2 cut relative to the reference time of each trace',
  'trim2 and slice2 with relative or absolute start and end times cut every trace to the samples between reftime+start and reftime+end where reftime (a stats entry such as onset, or an UTCDateTime) is taken per trace, None bounds are open, and an absolute time is used as it is. '
  'trim2 works in place, returns the stream and drops traces left without samples; slice2 returns a new stream sharing order and headers, drops empty traces unless keep_empty_traces, and leaves the source as it was; further keyword arguments (pad, fill_value, nearest_sample) are honoured.',
  ['inputs', 'configurations'],
  'all combinations of bounds (inside, at and outside of the data, reversed, None, absolute), reference times, onsets on and off samples, keyword arguments and number of traces',
  'one test trims one stream.',
  ['rf/rfstream.py'], [('relative times', 'rf/rfstream.py RFStream.trim2/slice2, RFTrace._seconds2utc')], ['traces after the call'])

p('C21', 'Batch commands give the library\'s results, in every format and split',
  'For each of the formats Q, SAC and H5 and each way to split the chain data, calc, moveout, stack, profile, convert into command calls (also `data calc moveout` in one call, or converting in between), the files contain exactly the records which the library functions give for the same configuration, one per event and station with data, with the same samples and headers to format precision, and existing files of other events and stations are left alone. '
  'Repeating a command gives the same files again, also after it was interrupted at any file access; '
  'an interruption damages no more than the files of the record being written.',
  ['histories', 'configurations'],
  'all splittings of the command chain, formats and conversion points up to a bound on a catalog with several events, stations and locations',
  'test_batch runs a fixed command list and only looks at exceptions and existence of output.',
  ['rf/batch.py', 'rf/rfstream.py', 'rf/util.py'],
  [('file names and writing', 'rf/batch.py FNAMES/write'), ('reading back', 'rf/batch.py iter_event_processed_data'), ('command loop', 'rf/batch.py run_commands')],
  ['files written, read with read_rf'])

p('C22', 'Batch configuration and command line are interpreted as documented',
  'Every option can be given in the configuration file (JSON with # comments, which are stripped everywhere but inside strings) or on the command line, where the command line has precedence; options reach exactly the command they belong to, with JSON given on the command line parsed, phase and moveout_phase shortcuts and boxbins mapped to the documented options and defaults otherwise. '
  'Unknown options and repeated or invalid commands are refused with ParseError or an exit before any file is written, and unreadable configuration, events or stations end the run with a message and without output; create writes the example configuration and with --tutorial the example files.',
  ['inputs', 'configurations'],
  'all combinations of option source (file, command line, both, none), commands and a grammar of configuration texts with comments and strings',
  'tests run a handful of command lines with one configuration file.',
  ['rf/batch.py'],
  [('comment stripping', 'rf/batch.py ConfigJSONDecoder'), ('merging of options', 'rf/batch.py run/run_commands/run_cli')],
  ['calls seen by the library functions, files, output, exit'])

p('C23', 'Batch commands survive missing or damaged files and data',
  'For every subset of records whose input file is missing, empty, truncated or not a waveform file, or whose waveform request fails or returns nothing, each batch command processes all other records exactly as if the damaged ones did not exist and terminates normally. '
  'Data sources given as file name, glob pattern, plugin or client are queried with exactly the requested window and id and a failing request is reported and skipped; the plugin is found in the current directory and the module search path is restored.',
  ['fault_sequences', 'crash_points'],
  'all assignments of damage kinds to the records of a small data set for each command and format, all answers of a scripted client/plugin',
  'tests only run on complete data.',
  ['rf/batch.py', 'rf/util.py'],
  [('skipping of unreadable files', 'rf/batch.py iter_event_processed_data'), ('error handling of requests', 'rf/batch.py init_data')],
  ['files written, requests seen'])

p('C24', 'Plots show the data they are given',
  'plot_rf, plot_profile and plot_harmonics draw every trace exactly once at its position (index, box position, harmonic term), against time relative to its onset, with the samples scaled by the documented factor (global or per trace maximum), the stack or histogram on top and the depth axis consistent with the delay times of the model; info axes show the header values in trace order. '
  'trim, show_traces, show_vlines, trace_scale, scale and fill options work in every combination, an empty stream gives no figure, and the stream is not modified. Maps show every station, piercing point and profile box at its coordinates.',
  ['inputs', 'configurations'],
  'all combinations of plot options and small streams (1-3 traces, different lengths and channels, sub-sample onsets, masked fill colours)',
  'tests only check that plotting does not raise for two option sets.',
  ['rf/imaging.py'],
  [('drawing', 'rf/imaging.py plot_rf/plot_profile/plot_harmonics')], ['artists of the returned figure'])

p('C25', 'RFStream and RFTrace behave as Stream and Trace with receiver function headers',
  'Constructing an RFStream from a trace, a list of traces or a stream keeps the traces in order with samples and headers, turns each into an RFTrace, and the Stream operations (copying, pickling, select, slice, sort, +, indexing, list and signal processing methods) give the same traces as in ObsPy and stay inside these classes. '
  'type and method reflect the unique header values of the traces (None if absent, a warning and None if different; method is the last letter of the phase in upper case) and setting them sets every trace. '
  'Printing a trace or stream works for every combination of headers and shows id, time range relative to the onset, sampling, and the headers magnitude, distance, back azimuth, position, slowness and moveout if they are present.',
  ['inputs', 'histories', 'configurations'],
  'all subsets of headers, all combinations of type and phase values on up to n traces, all sequences of stream operations up to a bound',
  'tests print one example and build one stream.',
  ['rf/rfstream.py'],
  [('construction', 'rf/rfstream.py RFStream.__init__, RFTrace.__init__'), ('unique headers', 'rf/rfstream.py type/method properties'), ('string', 'rf/rfstream.py RFTrace.__str__')],
  ['objects and strings returned'])

p('C26', 'Streams processed in several threads do not influence each other',
  'Calls made at the same time in two threads on different streams (or events and stations) give exactly the results, headers and processing information they give alone, at whatever point one thread is interrupted by the other, also when both load and use the same velocity model for the first time or different models. '
  'This covers moveout, piercing points, rfstats, rf and deconvolve with all methods and custom functions, stack, profile, harmonics, trim2, slice2, printing, iter_event_data, iter_event_metadata, IterMultipleComponents and writing and reading SAC and Q files. HDF5 files and plots are excluded (obspyh5 and pyplot keep global state).',
  ['schedules', 'histories'],
  'all schedules of two calls with one preemption before any line of rf (two preemptions for calls using models), each in a fresh process',
  'tests are single threaded.',
  ['rf/simple_model.py', 'rf/rfstream.py', 'rf/deconvolve.py', 'rf/util.py', 'rf/profile.py', 'rf/harmonics.py'],
  [('shared models', 'rf/simple_model.py load_model, SimpleModel'), ('no module state', 'rf/util.py _add_processing_info, rf/deconvolve.py')],
  ['results of the calls'])

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')

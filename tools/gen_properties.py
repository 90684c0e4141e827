#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays valid JSON)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
            'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'Header metadata survives a save/load round trip',
     'Writing a stream as SAC, SeismicHandler Q or HDF5 and reading it back yields, for every header of the '
     'documented mapping table that was set, the same value (to the resolution of the file format), and a header '
     'that was not set is not invented. This holds for every combination of set and unset headers and also for '
     'falsy values such as 0. The trace id and the samples survive as well.',
     ['inputs'], 'all header values, all subsets of the 21 mapped headers, the three formats',
     'the tests write one fully populated trace with one set of nonzero values; 2^21 subsets and zero/negative/numpy '
     'values are not sampled',
     ['rf/rfstream.py'],
     [('_write_format_specific_header / _read_format_specific_header', 'rf/rfstream.py RFTrace'),
      ('header mapping tables and SAC time conversions', 'rf/rfstream.py module level'),
      ('SeismicHandler station field used for the id', 'rf/rfstream.py RFStream.write, RFTrace.__init__')],
     [('stats', 'header dictionary of a trace', 'RFTrace.stats'),
      ('stats.sac / stats.sh', 'format specific headers', 'RFTrace.stats')],
     ['RFStream.write', 'read_rf'])

prop('C02', 'Saving leaves the stream in memory and the HDF5 index setting unchanged',
     'After a stream has been written to any format, every trace in memory has the same id, samples and mapped '
     'header values as before, and the process-wide index setting of the HDF5 plugin is what it was. The same holds '
     'when the write fails with an exception at the file level. Writing an empty stream does nothing.',
     ['inputs', 'fault_sequences'], 'all streams, formats, and failures of the underlying writer',
     'no test compares the stream before and after writing and none makes the writer fail',
     ['rf/rfstream.py'],
     [('RFStream.write: temporary station name, temporary H5 index, both restored', 'rf/rfstream.py')],
     [('obspyh5._INDEX', 'process-wide index template', 'obspyh5')],
     ['RFStream.write', 'RFTrace.write'])

prop('C03', 'Ray headers are the geometry and first arrival of the event-station pair',
     'For an event and a station the calculated headers are the event attributes (depth in km) and the station '
     'attributes, the epicentral distance in degrees (111.2 km per degree), the back azimuth as azimuth from station '
     'to event, and onset (origin time plus travel time), slowness and incidence angle of the first arrival of the '
     'requested phase. Event and station may also be given one as an object and the other in existing headers. '
     'A missing origin, missing origin attribute, missing magnitude or absent phase raises an error.',
     ['inputs'], 'all event/station coordinates, depths, origin times, phases, models',
     'one event-station pair is tested with loose tolerances',
     ['rf/rfstream.py'],
     [('rfstats', 'rf/rfstream.py'), ('obj2stats and the attribute getters', 'rf/rfstream.py')],
     (), ['rfstats'])

prop('C04', 'Event selection keeps exactly the traces inside the distance interval',
     'Headers are calculated for a pair if and only if its distance lies in the closed distance interval: the given '
     'one, else 30 to 90 degrees for P and 50 to 85 degrees for S; other phases without an interval raise ValueError. '
     'Applied to a stream, exactly the traces outside the interval are discarded; all others stay in order, with their '
     'samples, and carry their own ray headers.',
     ['inputs'], 'all distances, intervals, phases and streams of any length',
     'tests only use traces inside the default interval',
     ['rf/rfstream.py'], [('rfstats: interval test and stream recursion', 'rf/rfstream.py')], (), ['rfstats'])

prop('C05', 'Component grouping is an exact partition of the stream',
     'Grouping a stream by station/channel code without component letter, and optionally by a header value, puts '
     'two traces in the same group if and only if both agree; every trace is in exactly one group, in stream order. '
     'Only groups whose number of traces is allowed are delivered, each once, as streams of the input type, '
     'and the reported length is the number of delivered groups.',
     ['inputs'], 'streams of any length and composition, any key, any component-count filter',
     'only used implicitly by tests on 3 events of one station',
     ['rf/util.py'], [('IterMultipleComponents', 'rf/util.py')], (), ['IterMultipleComponents'])

prop('C06', 'Waveform retrieval visits every event-station pair and survives failures',
     'Each event-station pair inside the distance range is requested exactly once, for the window around the '
     'onset enlarged by the padding, and its stream is delivered if and only if it has exactly three gap-free '
     'components; it is cut to the window without padding and carries the ray headers of the pair. A pair whose '
     'coordinates, ray headers or waveforms cannot be obtained, or whose provider returns nothing, is skipped and '
     'never stops or alters the processing of the other pairs.',
     ['inputs', 'fault_sequences'], 'all catalogs, inventories, provider answers and failures, windows, paddings',
     'tests use one local file in which every request succeeds',
     ['rf/util.py', 'rf/batch.py'],
     [('iter_event_data', 'rf/util.py'), ('init_data wrapper', 'rf/batch.py')], (), ['iter_event_data'])

prop('C07', 'Relative trimming and slicing use each trace\'s own reference time',
     'Trimming or slicing with relative times cuts every trace at its own reference time plus the given seconds; '
     'absolute times are used as given and an omitted end stays open. Traces left without samples are removed '
     '(slicing can be told to keep them), the others stay in order and receive all further options unchanged. '
     'Slicing leaves the original stream untouched; trimming works in place.',
     ['inputs'], 'all streams, all mixes of relative/absolute/open ends, all reference headers',
     'tests cut one stream at interior times with one reference',
     ['rf/rfstream.py'],
     [('trim2 / slice2', 'rf/rfstream.py'), ('_seconds2utc', 'rf/rfstream.py')], (),
     ['RFStream.trim2', 'RFStream.slice2'])

prop('C08', 'Receiver function calculation runs the documented steps on every group',
     'Calculating receiver functions performs filter, onset-relative trim, downsampling to the given frequency, '
     'rotation and deconvolution in that order, each only if requested, rotation and deconvolution once for each '
     'two- or three-component group of one station and onset. Q components are sign-inverted exactly once, between '
     'rotation and deconvolution; the method (argument, else from the phase header) selects source components L/Z '
     'for P and Q/R for S and the default source window unless given. Afterwards all traces have type rf and the '
     'method; an undetermined or unknown method raises ValueError and changes nothing.',
     ['inputs', 'configurations'], 'all streams and all combinations of the options',
     'tests run about four option combinations on two data sets',
     ['rf/rfstream.py'], [('RFStream.rf', 'rf/rfstream.py'), ('method / type properties', 'rf/rfstream.py')],
     (), ['RFStream.rf'])

prop('C09', 'S receiver functions are mirrored exactly at the onset, P are not',
     'For S receiver functions every trace is time-reversed and its onset reflected inside the unchanged trace '
     'window, so that the sample at time t after the onset is found at time t before the new onset. '
     'For P receiver functions neither samples nor onset are mirrored.',
     ['inputs'], 'all sample values, trace lengths, onset positions and sampling rates',
     'tests look at the position of one peak of one data set',
     ['rf/rfstream.py'], [('mirror step of RFStream.rf', 'rf/rfstream.py')], (), ['RFStream.rf'])

prop('C10', 'Deconvolution picks one source and the documented window, and keeps headers',
     'Deconvolution needs exactly one trace whose component is a source component and one to three response traces, '
     'else ValueError; an unknown method raises NotImplementedError. The source is cut to the source window around '
     'the onset (zero-padded where it leaves the trace) and tapered by the window\'s taper length, from a copy if the '
     'source is also a response; the onset of source and responses is moved to the sample nearest to the source onset. '
     'The result has the response traces in order with unchanged start, sampling and length, each holding the '
     'deconvolution of its own samples, normalized by default to the source component.',
     ['inputs', 'configurations'], 'all streams, component selections, methods, windows and further options',
     'tests use complete three-component streams and four windows',
     ['rf/deconvolve.py'], [('deconvolve', 'rf/deconvolve.py'), ('nearest-sample search', 'rf/deconvolve.py')],
     (), ['deconvolve', 'RFStream.deconvolve'])

prop('C11', 'Time domain deconvolution solves the damped normal equations',
     'Time domain deconvolution returns for each response the solution of the Toeplitz system whose first column is '
     'the source autocorrelation scaled to 1 at zero lag with the damping added at zero lag only, and whose right hand '
     'side is the cross-correlation of response and source at the lags implied by the requested shift and length. '
     'With normalization all results are multiplied by one common factor that makes the largest absolute value of the '
     'reference result 1; without, they are left as they are. The inputs are not modified.',
     ['inputs'], 'all sample values, lengths (odd/even, source longer or shorter), shifts, dampings',
     'peak positions of a few traces are tested',
     ['rf/deconvolve.py'],
     [('deconv_time', 'rf/deconvolve.py'), ('_acorrt, _xcorrt, _add_zeros', 'rf/deconvolve.py')], (),
     ['rf.deconvolve.deconv_time'])

prop('C12', 'Frequency domain deconvolution follows the water level formula',
     'Water level deconvolution returns for each response the inverse transform of response spectrum times conjugate '
     'source spectrum divided by the source power clipped from below at water level times its maximum, low-pass '
     'filtered by the Gaussian (if any) and shifted so that zero lag appears at the requested delay, cut to the '
     'requested length. Normalization multiplies all results by one common factor (reference trace or source maximum '
     'becomes 1), none leaves them unscaled; a single array gives a single array. The inputs are not modified.',
     ['inputs', 'configurations'], 'all sample values, lengths, fft lengths, water levels, Gauss widths, delays',
     'peak positions of a few traces are tested',
     ['rf/deconvolve.py'],
     [('deconv_waterlevel', 'rf/deconvolve.py'), ('_gauss_filter, _phase_shift_filter', 'rf/deconvolve.py')], (),
     ['rf.deconvolve.deconv_waterlevel'])

prop('C13', 'Iterative deconvolution stays within its iteration and lag limits',
     'Iterative deconvolution uses, for each response independently, at most the allowed number of iterations, stops '
     'as soon as the misfit changes by no more than the threshold, and reports iteration count and misfit after each '
     'iteration. Each iteration adds one spike at the lag of largest absolute correlation outside the muted lags, with '
     'the least-squares amplitude, so the misfit never increases. The results are filtered, delayed, cut to the '
     'response lengths and scaled by one common factor if normalization is requested; the inputs are not modified.',
     ['inputs'], 'all sample values, lengths, delays, iteration limits, thresholds, mute settings',
     'peak positions of two traces are tested; limits are never reached',
     ['rf/deconvolve.py'],
     [('deconv_iterative', 'rf/deconvolve.py'), ('_apply_filter', 'rf/deconvolve.py')], (),
     ['rf.deconvolve.deconv_iterative'])

prop('C14', 'Moveout correction moves each delay to its reference-slowness delay',
     'Moveout correction maps the sample at the delay of a conversion depth for the trace slowness to the delay of '
     'the same depth for the reference slowness; at reference slowness it is the identity within the delays the model '
     'covers. Samples on the uncorrected side of the onset and the trace length stay unchanged. Afterwards each trace '
     'records the phase, its former slowness and the reference slowness; an onset outside the trace raises ValueError.',
     ['inputs'], 'all slownesses, phases, onset positions, sampling rates, sample values',
     'one trace with one slowness and four phases is compared to stored values',
     ['rf/simple_model.py', 'rf/rfstream.py'],
     [('SimpleModel.moveout', 'rf/simple_model.py'), ('SimpleModel.stretch_delay_times', 'rf/simple_model.py'),
      ('RFStream.moveout', 'rf/rfstream.py')], (), ['RFStream.moveout', 'SimpleModel.moveout'])

prop('C15', 'Model results depend only on their arguments, not on earlier calls',
     'Delay times, moveout corrections and piercing points for given arguments are the same whatever was calculated '
     'before with the same model, in particular with another reference slowness or phase. Loading a model twice gives '
     'the same velocities, and example streams handed out earlier and modified by the caller do not affect later ones.',
     ['histories'], 'all sequences of model, moveout and example calls',
     'each test makes one call per phase and never changes the reference slowness',
     ['rf/simple_model.py', 'rf/util.py'],
     [('reference delay cache', 'rf/simple_model.py SimpleModel.stretch_delay_times'),
      ('model cache', 'rf/simple_model.py load_model'), ('example cache', 'rf/util.py')],
     [('SimpleModel.t_ref', 'cached reference delays', 'rf/simple_model.py'),
      ('_MODEL_CACHE', 'loaded models', 'rf/simple_model.py')],
     ['SimpleModel.stretch_delay_times', 'load_model', 'minimal_example_rf'])

prop('C16', 'Delay times follow the layered-model travel time formula',
     'The delay time of a converted phase or multiple after the direct wave is, at each depth, the sum over the layers '
     'above of thickness times (number of P legs times P vertical slowness plus number of S legs times S vertical '
     'slowness minus twice that of the direct wave), with vertical slowness sqrt(1/v^2 - p^2) and p in s/km at 111.2 '
     'km per degree. Phase names are case-insensitive, and a name of odd length is rejected with ValueError by the '
     'stretch calculation, which returns original and reference delays of equal length at the same depths.',
     ['inputs'], 'all layered models, slownesses and phase names',
     'a few values of one model are compared',
     ['rf/simple_model.py'],
     [('calculate_vertical_slowness, calculate_delay_times, stretch_delay_times', 'rf/simple_model.py')], (),
     ['SimpleModel.calculate_delay_times', 'SimpleModel.stretch_delay_times'])

prop('C17', 'Piercing points lie at the ray\'s horizontal offset along the back azimuth',
     'The piercing point of a ray at a depth lies from the station in direction of the back azimuth at the horizontal '
     'offset the ray accumulates in the layers above that depth (zero at the surface, exact at layer boundaries, '
     'linear within a layer), for every leg named in the phase. A phase of even length raises ValueError. Coordinates '
     'and depth are stored in the headers of exactly that trace and returned in stream order.',
     ['inputs'], 'all models, depths inside the model, slownesses, azimuths, station positions',
     'one depth is compared within 5 to 20 percent',
     ['rf/simple_model.py', 'rf/rfstream.py', 'rf/util.py'],
     [('ppoint_distance, ppoint', 'rf/simple_model.py'), ('RFStream.ppoints', 'rf/rfstream.py'),
      ('direct_geodetic', 'rf/util.py')], (), ['RFStream.ppoints', 'SimpleModel.ppoint'])

prop('C18', 'Stacking averages the traces of each id and nothing else',
     'Stacking returns exactly one trace per distinct trace id, whose samples are the mean of all traces with this id '
     'and whose sampling rate, phase, moveout, station and relative onset headers are those of a trace with this id. '
     'The input traces, including their processing records, are not changed.',
     ['inputs'], 'streams with any number of stations, channels and traces',
     'only single-station stacks are tested and no header is checked',
     ['rf/rfstream.py'], [('RFStream.stack', 'rf/rfstream.py')], (), ['RFStream.stack'])

prop('C19', 'Profile boxes tile the profile line without gaps',
     'For given bin edges there is one box per bin, in order, with the bin\'s length, its midpoint distance and '
     'midpoint coordinates, and corners half the width to either side of the profile line at the bin edges. '
     'Distances are measured along the azimuth from the profile start, and the first box describes the whole profile.',
     ['inputs'], 'all start points, azimuths, bin edges, widths',
     'one set of boxes is used and only one position is compared',
     ['rf/profile.py', 'rf/util.py'],
     [('get_profile_boxes, _get_box', 'rf/profile.py'), ('direct_geodetic', 'rf/util.py')], (),
     ['get_profile_boxes'])

prop('C20', 'Profile stacking averages per box and component without loss or mixing',
     'Each trace contributes to exactly the first box containing its piercing point, or to none if no box contains it. '
     'For every box and component with contributions the profile has one trace: their mean, their number, the '
     'box geometry and the profile geometry; traces are sorted by component and position and have type profile. '
     'Input traces are not changed.',
     ['inputs'], 'all streams, box sets and piercing points',
     'one data set; means and counts are not checked',
     ['rf/profile.py'], [('profile', 'rf/profile.py'), ('_find_box', 'rf/profile.py')], (),
     ['profile', 'RFStream.profile'])

prop('C21', 'Harmonic decomposition is the least-squares fit of the documented terms',
     'At every time sample the harmonic coefficients are the least-squares solution for the constant, cos, sin, cos2 '
     'and sin2 terms of back azimuth minus decomposition azimuth, with the transverse component entering with the '
     'quarter-period shift for two components; both components of one event are paired by event time in any input '
     'order. One component gives five modelled traces, two give five modelled and five unmodelled traces, each '
     'labelled with its term and components. Unknown or missing components and methods are rejected.',
     ['inputs', 'configurations'], 'all sample values, back azimuths, event orders, component choices, azimuths, weights',
     'one value of one decomposition is tested',
     ['rf/harmonics.py'], [('harmonics, decomp_one, decomp_two', 'rf/harmonics.py')], (), ['harmonics'])

prop('C22', 'Batch commands process every stream with the requested steps and options',
     'The calc, moveout and combined commands apply the requested steps once each, in the given order, with the '
     'configured options, to every stream of the input and write every result; naming a step twice and unknown '
     'options are rejected before anything is processed. Command line options override configuration file values, and '
     'comments in the configuration are ignored.',
     ['inputs', 'configurations'], 'all commands, options, configurations, inputs',
     'tests run one fixed command sequence per format',
     ['rf/batch.py'], [('run, run_commands, run_cli', 'rf/batch.py'), ('configuration decoder', 'rf/batch.py')],
     (), ['run_cli', 'run', 'run_commands'])

prop('C23', 'Batch files are named from each trace\'s own metadata and found again',
     'The batch tool stores each stream under a path determined by output root, kind of result, format and the '
     'metadata of the stored traces, so that no trace is dropped and, in the one-trace-per-file format, every trace '
     'goes to its own name. Reading back visits every station (and event) of the inventory once with the matching path '
     'or selection and skips unreadable ones without stopping.',
     ['inputs', 'configurations'], 'all metadata values, formats, kinds of result',
     'tests count files of one data set',
     ['rf/batch.py', 'rf/util.py'],
     [('write, iter_event_processed_data', 'rf/batch.py'), ('iter_event_metadata', 'rf/util.py')], (),
     ['rf.batch.write', 'rf.batch.iter_event_processed_data'])

prop('C24', 'Every processing step is recorded once, with its arguments, on each trace',
     'Each recorded processing step appends to every trace of its result one entry naming package version, function '
     'and all arguments with their effective values in sorted order, after it succeeded; a failing step '
     'records nothing. Recording changes neither the samples nor the returned stream nor other traces.',
     ['inputs'], 'all recorded functions, argument combinations and streams',
     'a substring is searched in one record',
     ['rf/util.py'], [('_add_processing_info', 'rf/util.py')], (), ['Trace.stats.processing'])

prop('C25', 'Plots show the data to scale and never modify it',
     'Receiver function, profile and harmonics plots draw each trace once at its own row or position, with amplitudes '
     'scaled by the documented common (or individual) maximum and times relative to the onset, for every combination '
     'of the display options. Plotting never modifies the plotted stream.',
     ['inputs', 'configurations'], 'all streams and display option combinations',
     'tests only check that default plots are produced',
     ['rf/imaging.py'], [('plot_rf, plot_profile, plot_harmonics', 'rf/imaging.py')], (),
     ['plot_rf', 'plot_profile', 'plot_harmonics'])

prop('C26', 'Model refinement keeps boundaries and inserts evenly spaced support points',
     'Building a layered model keeps every given depth with its velocities, in order, and inserts in each interval '
     'exactly the requested number of evenly spaced support points, with depths and velocities interpolated at the '
     'same fractions. Layer thicknesses are the depth differences, never negative for ordered depths, and '
     'sum to the depth range; inputs of different length are rejected.',
     ['inputs'], 'all models with any number of depths and support points',
     'only the built-in model is loaded',
     ['rf/simple_model.py'], [('SimpleModel.__init__, _interpolate_n, load_model', 'rf/simple_model.py')], (),
     ['SimpleModel', 'load_model'])

prop('C27', 'Multitaper deconvolution keeps shape, scale and time origin',
     'Multitaper deconvolution returns one finite array of the response length per response, does not modify its '
     'inputs, and with normalization scales all results by one common factor that makes the largest absolute value of '
     'the reference result 1. The result is unchanged when source, responses and noise are all multiplied by the same '
     'constant, and deconvolving the source from a response that contains it peaks at the onset. A source not shorter '
     'than the response or noise longer than the response is rejected.',
     ['inputs'], 'all sample values, lengths, taper numbers, overlaps, scales',
     'two peak positions are tested',
     ['rf/deconvolve.py'], [('deconv_multitaper', 'rf/deconvolve.py')], (), ['rf.deconvolve.deconv_multitaper'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))

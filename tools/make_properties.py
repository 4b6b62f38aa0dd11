"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, pathlib
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=list(observe), hook_needed=hook)))

Q = "quakemigrate/"
prop("C01", "Coalescence is the geometric mean of the time-shifted onset functions",
 "At every grid node and every sample of the scanned window, the coalescence value equals the geometric mean of the available onset functions, each read at that sample plus the traveltime from that node to its own station for its own phase (onset values below the 0.01 floor count as 0.01). The values are the same for every number of threads and do not depend on the order in which onset functions are stacked. Inputs of mismatched size are refused instead of being migrated.",
 ["inputs", "configurations", "schedules"], "all onset arrays, traveltime grids, pads, availability counts and thread counts",
 "The stable tests never run the migration; the benchmark tests that do are excluded and compare a single data set with stored numbers.",
 [Q+"core/lib.py", Q+"core/src/migratelib.c", Q+"signal/scan.py"],
 [("log/exp stacking loop", Q+"core/src/migratelib.c:migrate"), ("argument checks and clipping", Q+"core/lib.py:migrate")],
 observe=["arguments and result of every migration call"])
prop("C02", "The grid search returns the true maximum, its node and the normalised peak",
 "For every sample the scan reports the largest coalescence value found anywhere in the grid, a grid node at which that value is attained (the first one when several tie), and that value divided by the mean coalescence over the whole grid. The three series are the same for every number of threads, and the reported position is the geographic position of the reported node.",
 ["inputs", "configurations", "schedules"], "all coalescence maps, grid shapes and thread counts",
 "No stable test calls the search; a maximum sitting on the first or last node, ties, or very large grids are never sampled.",
 [Q+"core/lib.py", Q+"core/src/migratelib.c", Q+"lut/lut.py", Q+"signal/scan.py"],
 [("reduction over nodes", Q+"core/src/migratelib.c:find_max_coa"), ("unravelling to coordinates", Q+"lut/lut.py:Grid3D.index2coord")],
 observe=["arguments and result of every search call"])
prop("C03", "The native kernels never touch memory outside their arrays and never race",
 "For every input that the scanning and onset stages can produce, the native migration, peak-search and short/long-term-average routines read and write only inside the arrays they were given, execute no undefined behaviour, and write every output element they are responsible for. Threads of one call never write an element that another thread of that call reads or writes.",
 ["inputs", "schedules", "configurations"], "all signal lengths relative to the averaging windows, grids, pads, traveltimes within the post-pad, and thread counts and interleavings",
 "Memory errors and races are silent in a test that only looks at values, and the tests run one configuration with two threads.",
 [Q+"core/src/migratelib.c", Q+"core/src/onsetlib.c", Q+"core/src/qmlib.h", Q+"core/lib.py"],
 [("loop bounds and OpenMP private clauses", Q+"core/src/migratelib.c"), ("window loop bounds", Q+"core/src/onsetlib.c"), ("array allocation and argument checks", Q+"core/lib.py")],
 observe=["AddressSanitizer, UndefinedBehaviorSanitizer and ThreadSanitizer reports", "canaries and fill patterns around and in output arrays"])
prop("C04", "STA/LTA onsets equal the ratio of their window averages in every backend",
 "For every non-negative signal and window pair, the overlapping and centred onset functions equal the mean of the short window over the mean of the long window at the documented alignment, are 1 wherever a window does not fit inside the signal or the long-window mean is zero, and are never negative or undefined. The compiled and the pure-Python implementations agree, and the recursive variant equals its defining recursion after its initial transient.",
 ["inputs", "configurations"], "all non-negative signals (including zeros, spikes, constant and very short ones) and all window lengths",
 "The only stable onset test checks one channel of one event; degenerate signals and lengths near the window sizes are not sampled.",
 [Q+"core/src/onsetlib.c", Q+"core/lib.py", Q+"signal/onsets/stalta.py"],
 [("running sums in C", Q+"core/src/onsetlib.c"), ("cumulative sums in numpy", Q+"signal/onsets/stalta.py:centred_sta_lta_py, overlapping_sta_lta_py"), ("public wrapper", Q+"signal/onsets/stalta.py:sta_lta_onset callers")],
 observe=["inputs and outputs of the six onset primitives"])
prop("C05", "Each onset function is built from its own station, channels, filter and windows",
 "The onset function of a station and phase is computed from exactly that station's channels selected for that phase, detrended, tapered, zero-phase filtered with that phase's pass band, transformed as configured, passed through that phase's short and long windows, combined over channels as the root mean square, set to 1 in the tapered margins when a taper pad is requested, finite, and never below the configured minimum. No other station, channel or phase influences it, the stored waveforms it was made from are the ones reported, and the input data are not modified.",
 ["inputs", "configurations"], "all channel maps, channel counts, transforms, window positions, filters, sampling rates and mixtures of stations",
 "The stable test covers a single configuration on one record.",
 [Q+"signal/onsets/stalta.py", Q+"signal/onsets/base.py", Q+"util.py"],
 [("onset generation loop", Q+"signal/onsets/stalta.py:STALTAOnset.calculate_onsets"), ("pre-processing", Q+"signal/onsets/stalta.py:pre_process"), ("combination over components", Q+"signal/onsets/stalta.py:STALTAOnset._onset")],
 observe=["waveforms given to and onset data returned by the onset stage"])
prop("C06", "Stations take part in the stack exactly when their data meet the quality rules",
 "A station and phase is declared available exactly when its channels satisfy every configured rule: presence of the required number of channels, freedom from gaps and full coverage of the time span unless these are waived, data that are not (even in one of several pieces) a flat line, freedom from overlaps, and the required sampling rate. Data that fail are excluded from the onset stack and from the reported waveforms, and an empty selection stops the window with the data-availability error instead of producing coalescence.",
 ["inputs", "configurations", "fault_sequences"], "all streams (missing, flat, gappy, overlapping, partial, mixed-rate, NaN-free) under all rule combinations",
 "No stable test exercises the availability decision; it is a product of half a dozen independent options and data faults.",
 [Q+"io/data.py", Q+"signal/onsets/stalta.py"],
 [("rule evaluation", Q+"io/data.py:WaveformData.check_availability"), ("exclusion of failing channels", Q+"signal/onsets/stalta.py:STALTAOnset.calculate_onsets")],
 observe=["availability answers for generated streams", "onset data returned for faulted archives"])
prop("C07", "Archive reads return exactly the recorded samples of the requested window",
 "For every requested time window, the data returned for migration contain every archived sample of the requested stations that lies in the window, with its recorded value and its own time stamp, and nothing else: no other station, no sample outside the window, and no invented sample across a gap. Day boundaries, file fragmentation, overlapping or duplicated records and channel naming do not change the answer, and a window without any data is reported as such rather than as data.",
 ["inputs", "histories", "fault_sequences"], "all windows, archive layouts, file fragmentations, overlaps, duplicates and gaps",
 "The only stable stream test checks three merge cases; the reader itself is never executed.",
 [Q+"io/data.py", Q+"util.py"],
 [("file selection and read", Q+"io/data.py:Archive.read_waveform_data, _load_from_path"), ("merging", Q+"util.py:merge_stream"), ("sub-sample alignment", Q+"util.py:shift_to_sample")],
 observe=["streams returned by archive reads compared with the samples written to the archive"])
prop("C08", "Every onset function is migrated with its own station and phase traveltimes",
 "Whatever subset of stations and phases is available, and in whatever order stations appear in the archive, the traveltime table or the data, each onset function is stacked with the traveltimes of the same station and phase, in samples rounded at the onset sampling rate. A station or phase that is unavailable has no influence on the result, and its absence changes the divisor of the stack accordingly.",
 ["inputs", "configurations", "fault_sequences"], "all availability patterns, station orders in archive, table and data, and phase sets",
 "Tests with all stations present and one ordering cannot see a mispairing that only appears when something is missing.",
 [Q+"signal/scan.py", Q+"lut/lut.py", Q+"signal/onsets/stalta.py"],
 [("serving of traveltimes by availability", Q+"lut/lut.py:LUT.serve_traveltimes"), ("stacking order", Q+"signal/onsets/stalta.py:STALTAOnset.calculate_onsets"), ("divisor", Q+"signal/scan.py:QuakeScan._compute")],
 observe=["arguments of each migration call, matched against stations by signature"])
prop("C09", "A continuous scan covers the requested period exactly once, gaps included",
 "A continuous scan (whose start and time step are whole numbers of samples) writes one coalescence sample for every sampling interval from the requested start to the end of the last time step, without duplicates, omissions or time shifts, where the value at each sample is the coalescence of the data around that sample and time steps without usable data are filled with zeros. The availability report has exactly one row per time step, stating for each station and phase whether it was used in that step.",
 ["inputs", "configurations", "fault_sequences"], "all start and end times, time steps, sampling rates, and placements of missing data, day boundaries included",
 "No stable test runs the scan.",
 [Q+"signal/scan.py", Q+"io/scanmseed.py", Q+"io/availability.py", Q+"signal/onsets/base.py", Q+"util.py"],
 [("time-step loop", Q+"signal/scan.py:QuakeScan._continuous_compute"), ("append and empty", Q+"io/scanmseed.py:ScanmSEED"), ("padding", Q+"signal/onsets/base.py:Onset.pad, quakemigrate/util.py:trim2sample")],
 observe=["files written by the scan, against an independent recomputation from the raw archive"])
prop("C10", "Threads, chunking, ordering and output options never change results",
 "Continuous-scan and location results are identical for every thread count, for every order of stations in the input tables (up to the order in which they are listed), and for every choice of plotting, logging and file-writing options. Splitting a scan into different time steps or separate runs changes the coalescence only within the edge tolerance of the pre-processing taper, and the coalescence computed around a triggered event equals that of the scan at the same samples (to the same tolerance), whatever the marginal window.",
 ["configurations", "schedules", "histories"], "all option settings that are documented as not affecting results, thread counts and schedules, and ways of chunking",
 "It relates pairs of runs; the tests run each configuration once.",
 [Q+"signal/scan.py", Q+"io/scanmseed.py", Q+"core/src/migratelib.c", Q+"plot/event.py", Q+"io/cut_waveforms.py"],
 [("scan loop", Q+"signal/scan.py:QuakeScan"), ("copies before plotting/cutting", Q+"plot/event.py, quakemigrate/io/cut_waveforms.py")],
 observe=["output files of paired runs"])
prop("C11", "Stored coalescence reproduces the computed values and times within its precision",
 "Coalescence, normalised coalescence and position written to the continuous coalescence file and read back agree with the computed values within the stored resolution (1e-5 for coalescence, 1e-6 for degrees, 1 mm for depth, with values saturating at the storable maximum), at the same sample times, for any split over days, years and writes. With continuous writing, after each time step the files on disk hold everything computed so far, so an interruption between steps loses nothing that was written and one during a step's computation loses at most that step, and reading a range returns exactly the stored samples of that range.",
 ["inputs", "crash_points", "histories"], "all value ranges, day and year boundaries, time steps, gaps between files, units, and interruption points",
 "No stable test writes or reads the coalescence file.",
 [Q+"io/scanmseed.py"],
 [("quantisation and file writing", Q+"io/scanmseed.py:ScanmSEED"), ("reading and assembling", Q+"io/scanmseed.py:read_scanmseed")],
 observe=["data given to the writer, files on disk after each step, table returned by the reader"])
prop("C12", "The trigger reports exactly the events defined by threshold and window rules",
 "The triggered events are exactly those obtained by taking every maximal run of samples at or above the detection threshold, placing its event at the sample of highest coalescence of the run, and merging candidates whose windows overlap according to the minimum event interval, keeping the time and values of the candidate with the highest triggering value. Every reported event lies in a run that reaches the threshold, its reported values are those of the coalescence stream at that sample, events are in time order and no two are closer than the rules allow.",
 ["inputs", "configurations"], "all coalescence streams, thresholds, marginal windows and minimum event intervals",
 "The stable tests check the threshold arithmetic only; run and merge logic is untested.",
 [Q+"signal/trigger.py"],
 [("candidate identification", Q+"signal/trigger.py:Trigger._identify_candidates"), ("window merging", Q+"signal/trigger.py:Trigger._refine_candidates")],
 observe=["scan table in, triggered-event files out"])
prop("C13", "Detection thresholds equal their documented statistic of the coalescence",
 "A static threshold equals the user's value at every sample; a dynamic threshold equals, for each consecutive window of the configured length (the last one holding what remains), the median plus the multiplier times 1.4826 x the median absolute deviation, or the multiplier times the median, of the stream being triggered on. Smoothing is the documented normalised Gaussian and the choice between raw and normalised coalescence is honoured.",
 ["inputs", "configurations"], "all coalescence streams, window lengths, multipliers, methods, smoothing and normalisation options",
 "The stable tests sample two window lengths on one stream.",
 [Q+"signal/trigger.py", Q+"io/scanmseed.py"],
 [("threshold computation", Q+"signal/trigger.py:Trigger._get_threshold"), ("smoothing", Q+"signal/trigger.py:Trigger._smooth_coa")],
 observe=["threshold and triggered stream of every batch"])
prop("C14", "Triggered events reach their files and are read back exactly once",
 "Every event triggered in the requested period that lies inside the requested region is written to exactly one daily file, and none outside the period or region is written; identifiers are unique and encode the event time. Reading the files back for any period returns exactly the events whose times lie in that period with the stored values, each once, whether or not runs span midnight, extra columns are requested or earlier runs took place.",
 ["inputs", "configurations", "histories"], "all periods, day boundaries, regions, output options and sequences of runs",
 "No stable test writes or reads a triggered-events file.",
 [Q+"signal/trigger.py", Q+"io/triggered_events.py"],
 [("batching by day", Q+"signal/trigger.py:Trigger.trigger, _trigger_batch"), ("region filter", Q+"signal/trigger.py:Trigger._filter_events"), ("file i/o", Q+"io/triggered_events.py")],
 observe=["triggered-event files, tables returned by the reader"])
prop("C15", "Every triggered event is located once, and independently of the others",
 "A location run produces one event result for each requested triggered event that has usable data and whose coalescence peak lies within the marginal window of its trigger time, and none for any other, whatever happens to the remaining events. The result of an event depends only on the data, the tables and that trigger, not on which other events are in the run or on their failures, and carries that event's identifier and trigger values.",
 ["inputs", "fault_sequences", "histories"], "all sets and orders of triggered events with missing data, off-window peaks and day boundaries",
 "No stable test runs the location stage; isolation relates several runs.",
 [Q+"signal/scan.py", Q+"io/event.py", Q+"io/triggered_events.py"],
 [("event loop and error handling", Q+"signal/scan.py:QuakeScan._locate_events"), ("marginal window test", Q+"io/event.py:Event.in_marginal_window")],
 observe=["event, pick and coalescence files of location runs"])
prop("C16", "Origin time, hypocentre and uncertainties are those of the coalescence map",
 "The origin time is the sample of highest coalescence in the scanned window around the trigger, with the reported values of that sample; the marginal map is the coalescence summed over the marginal window about it and normalised to its peak. The reported hypocentre is the peak of the interpolated (cubic radial basis functions, to a tenth of a node) map within two nodes of its highest node, or that node itself where this window crosses the edge of the grid, and so always inside the grid. The Gaussian and covariance estimates and their uncertainties equal their defining statistics of that map (a least-squares Gaussian fit to the smoothed map around its peak, and the weighted covariance of the nodes above 0.9), axis by axis.",
 ["inputs", "configurations"], "all coalescence maps, peak positions relative to grid edges, node spacings and units",
 "No stable test computes a location.",
 [Q+"signal/scan.py", Q+"io/event.py", Q+"lut/lut.py", Q+"util.py"],
 [("marginalisation and fits", Q+"signal/scan.py:QuakeScan._calculate_location, _splineloc, _gaufit3d, _covfit3d"), ("origin time and trimming", Q+"io/event.py:Event")],
 observe=["4-D and marginal maps written by the run, event files"])
prop("C17", "Phase picks lie in their own phase windows and are consistent with the location",
 "For each available station and phase the pick, its error, signal-to-noise ratio and fit are derived from that station's onset function inside a window (marginal window plus a fraction of the traveltime, either side) around the arrival modelled for the grid node nearest to the event hypocentre and its origin time; the windows of different phases of one station do not overlap, and a pick lies inside its window. The modelled time is origin time plus traveltime, residuals are pick minus model, a pick is reported only when the onset in its window exceeds the pick threshold, and otherwise pick time, error and signal-to-noise are all marked as missing together.",
 ["inputs", "configurations"], "all onset functions, traveltimes, threshold methods, window fractions and availability patterns",
 "No stable test runs the picker.",
 [Q+"signal/pickers/gaussian.py", Q+"signal/pickers/base.py"],
 [("window determination", Q+"signal/pickers/gaussian.py:GaussianPicker._determine_window_phase, _calculate_widow"), ("fit and thresholds", Q+"signal/pickers/gaussian.py:GaussianPicker")],
 observe=["picks and fits on the event and in the pick file"])
prop("C18", "Amplitudes are the peak-to-trough of the right window and channel",
 "For each station and channel the reported amplitude is half the largest difference between adjacent peak and trough of the processed trace inside the window of its phase predicted for the event, with its time and its period (twice the peak-to-trough time) and gain correction of the filter, and the noise measure is that of the pre-event window. Missing, gappy or flat channels give missing values without affecting others, and distances are those between the hypocentre and that station.",
 ["inputs", "configurations"], "all waveforms, event positions, windows, filters, noise measures and availability patterns",
 "No stable test measures an amplitude.",
 [Q+"signal/local_mag/amplitude.py", Q+"io/data.py"],
 [("windows", Q+"signal/local_mag/amplitude.py:Amplitude._get_amplitude_windows"), ("peak-to-trough search", Q+"signal/local_mag/amplitude.py:Amplitude._peak_to_trough_amplitude"), ("assembly", Q+"signal/local_mag/amplitude.py:Amplitude.get_amplitudes")],
 observe=["amplitude table for synthetic events with known ground motion"])
prop("C19", "Local magnitudes follow the attenuation law, corrections and filters exactly",
 "Each channel magnitude equals the logarithm of its measured amplitude plus the configured distance attenuation and station correction, with the reported error following from the amplitude error; it is missing when the amplitude is. The event magnitude is the (weighted) mean over exactly the channels that pass the configured noise, distance, station and channel filters, its error and r-squared are the statistics of the same set, and computing it does not alter the measurements.",
 ["inputs", "configurations"], "all amplitude tables, attenuation functions, corrections, filters and weightings",
 "No stable test computes a magnitude.",
 [Q+"signal/local_mag/magnitude.py", Q+"signal/local_mag/local_mag.py"],
 [("channel magnitudes", Q+"signal/local_mag/magnitude.py:Magnitude.calculate_magnitudes"), ("network average and filters", Q+"signal/local_mag/magnitude.py:Magnitude.mean_magnitude, _filter_mags")],
 observe=["amplitude table in, magnitude table and event magnitude out"])
prop("C20", "Grid coordinates round-trip and decimation keeps every node in place",
 "Converting positions between grid indices, grid coordinates and geographic coordinates and back returns the same position, the first node of a new grid is at the requested lower-left corner, and its last node reaches the requested upper-right corner, passing it by less than one node spacing. A decimated grid consists of a subset of the original nodes: each of its nodes has the geographic position and the traveltimes of the original node it came from, and the original grid is unchanged unless decimation in place was requested.",
 ["inputs", "configurations"], "all projections, units, corners, node spacings, node counts and decimation factors",
 "No stable test uses the grid; the effect appears only for particular node counts and factors.",
 [Q+"lut/lut.py"],
 [("coordinate conversion", Q+"lut/lut.py:Grid3D.coord2grid, index2grid, index2coord"), ("decimation", Q+"lut/lut.py:Grid3D.decimate, LUT.decimate")],
 observe=["results of the coordinate and decimation operations"])
prop("C21", "Traveltime tables hold the traveltime from each node to the named station",
 "For every station, phase and node, the table holds the traveltime between that node and that station in the given velocity model: distance over velocity for a homogeneous model, and the eikonal solution within discretisation error for layered models, whatever the order or position of stations. Values served at arbitrary positions interpolate the table, the maximum traveltime bounds every entry, and saving and loading a table returns an equal one; tables are equal exactly if their grids are (corners, spacing, projections). A table stored by an earlier version serves, and is converted to, the same traveltimes.",
 ["inputs", "configurations", "histories"], "all station sets, grids, velocity models, phases and save/load sequences",
 "No stable test computes a table.",
 [Q+"lut/create_lut.py", Q+"lut/lut.py", Q+"io/core.py"],
 [("table computation", Q+"lut/create_lut.py:compute_traveltimes"), ("serving and interpolation", Q+"lut/lut.py:LUT.serve_traveltimes, traveltime_to"), ("persistence", Q+"lut/lut.py:LUT.save, load")],
 observe=["tables computed for generated models"])
prop("C22", "Result files state the computed values at their documented precision",
 "Event, pick, amplitude, availability and coalescence files contain exactly the records held in memory at the end of processing, under the right column names, rounded no more coarsely than documented, and each event's files carry its identifier. Reading a file back gives the computed value within that precision, including missing values, times with microseconds and small or negative numbers.",
 ["inputs", "configurations"], "all events, projections, units and magnitudes of values",
 "No stable test writes a result file.",
 [Q+"io/event.py", Q+"signal/pickers/base.py", Q+"io/amplitudes.py", Q+"io/availability.py", Q+"io/coalescence.py"],
 [("event file", Q+"io/event.py:Event.write"), ("pick file", Q+"signal/pickers/base.py:PhasePicker.write"), ("amplitude file", Q+"io/amplitudes.py:write_amplitudes"), ("availability file", Q+"io/availability.py")],
 observe=["in-memory results and the files written from them"])
prop("C23", "Cut waveform files hold the archive's data for the event, unaltered",
 "The raw waveforms written for an event contain, for every station read, exactly the archived samples over the window read for the event (trimmed to the requested cut around the origin time), unaffected by filtering, resampling or magnitude processing done for the event. The corrected waveforms are the same records after removal of the named instrument response, or with the Wood-Anderson response applied, in the requested units, and channels without a usable response are left out without affecting others.",
 ["inputs", "configurations", "fault_sequences"], "all archives, cut windows, options that process the data first, and response inventories with faults",
 "No stable test cuts a waveform.",
 [Q+"io/cut_waveforms.py", Q+"io/data.py", Q+"signal/scan.py"],
 [("cutting", Q+"io/cut_waveforms.py:write_cut_waveforms"), ("response handling", Q+"io/data.py:WaveformData.get_real_waveform, get_wa_waveform")],
 observe=["cut waveform files against the archive"])
prop("C24", "Exports carry the located events' values without loss or mix-up",
 "Exported catalogues and files contain one event per located event, with its origin time, hypocentre, uncertainties in the right units, picks attached to the right station and phase with their times and errors, and its amplitudes and magnitude. Picks or events that are missing are left out rather than exported as values, and a written catalogue parses back to the same values.",
 ["inputs", "configurations", "histories"], "all run outputs, units, local-magnitude options and missing pieces",
 "No stable test exports anything.",
 [Q+"export/to_obspy.py", Q+"export/to_nlloc.py", Q+"export/to_snuffler.py", Q+"export/to_mfast.py"],
 [("catalogue assembly", Q+"export/to_obspy.py:read_quakemigrate"), ("other formats", Q+"export/")],
 observe=["run directory in, exported objects and files out"])
prop("C25", "Input tables are read completely, and malformed ones are refused",
 "Station, velocity-model and triggered-event tables are read with every row, in order and with unaltered values, and a station table or velocity model lacking a required column is refused with the documented error. Response inventories, traveltime tables and component objects that do not fit what a stage requires are refused with an error, and no coalescence, trigger, event or magnitude result is written from them.",
 ["inputs", "configurations"], "all tables with any subset of columns, extra columns, and row orders, and all wrong-typed components",
 "No stable test reads an input table.",
 [Q+"io/core.py", Q+"signal/scan.py", Q+"signal/local_mag/local_mag.py", Q+"signal/trigger.py", Q+"util.py"],
 [("table validation", Q+"io/core.py:read_stations, read_vmodel, read_lut, read_response_inv"), ("component type checks", Q+"signal/scan.py:QuakeScan.__init__")],
 observe=["tables returned and errors raised by the readers"])
prop("C26", "A synthetic earthquake is detected, triggered and located where it happened",
 "Given waveforms of an impulsive event radiated from a point of the grid with the table's own traveltimes, well above noise, the three stages run in sequence report exactly one event whose origin time and hypocentre are those of the source (within a tenth of a second and one node for a source on a node recorded on P and S; otherwise as well as the grid and the phases used can resolve, with the reported origin predicting the synthetic arrivals), and whose picks fall on the synthetic arrivals. Noise alone, well below the threshold, yields no event.",
 ["inputs", "configurations"], "all source positions and times, station geometries, and noise realisations with a clear signal",
 "No stable test runs the stages together.",
 [Q+"signal/scan.py", Q+"signal/trigger.py", Q+"lut/lut.py", Q+"io/data.py", Q+"signal/onsets/stalta.py", Q+"signal/pickers/gaussian.py"],
 [("whole pipeline", Q+"signal/")],
 observe=["files written by the three stages"])
prop("C27", "A stage's results depend only on its inputs, not on earlier work",
 "Repeating a stage with the same inputs gives the same results, whatever other stages, configurations or failed attempts ran before it in the same process or in the same run directory, and whatever runs of other periods work in that directory at the same time. Results of an earlier run are never mistaken for results of the current one, and objects handed to a stage are not altered in a way that changes later results.",
 ["histories", "configurations"], "all sequences of runs over shared processes, objects and run directories",
 "It is a statement about histories of runs; every test starts fresh.",
 [Q+"io/triggered_events.py", Q+"signal/trigger.py", Q+"signal/scan.py", Q+"io/core.py", Q+"io/scanmseed.py"],
 [("per-run state", Q+"signal/trigger.py, quakemigrate/signal/scan.py"), ("file naming and overwriting", Q+"io/")],
 observe=["output files and input objects before and after each run of a history"])
prop("C28", "Resampling and alignment preserve signal timing, amplitude and coverage",
 "Bringing data to the working sampling rate by decimation, or by upsampling and decimation when enabled, keeps every signal inside the pass band at its own time and amplitude, on sampling instants common to all stations, covering the requested window. Data that cannot be brought to the rate are left at their own rate and reported as such, off-grid samples are moved by less than the sampling interval, and no input trace is modified unless asked.",
 ["inputs", "configurations"], "all sampling-rate pairs, upsampling factors, start-time offsets, gaps and window positions",
 "No stable test resamples.",
 [Q+"util.py", Q+"io/data.py"],
 [("resampling", Q+"util.py:resample, decimate, upsample"), ("alignment", Q+"util.py:shift_to_sample, trim2sample, time2sample")],
 observe=["band-limited signals of known phase through the resampler and reader"])
prop("C29", "An option means the same however it is given",
 "An option of a stage, onset function, picker, archive or magnitude calculation that is left out behaves as its documented default. Giving it as a keyword or parameter, assigning the attribute after construction and before the run, or using a name that is still accepted as deprecated yields identical onset functions, detections, triggered events, locations, picks, amplitudes and magnitudes. Saved traveltime tables load identically by every accepted call, and printing any of these objects works for every combination of options and names the settings in use.",
 ["inputs", "configurations"], "all options and combinations of them, in every accepted way of giving them",
 "No stable test gives an option in more than one way.",
 [Q+"signal/scan.py", Q+"signal/trigger.py", Q+"signal/onsets/stalta.py", Q+"signal/pickers/gaussian.py", Q+"signal/local_mag/", Q+"io/core.py", Q+"io/data.py", Q+"lut/"],
 [("options and their defaults", Q+"signal/scan.py:QuakeScan.__init__, quakemigrate/signal/trigger.py:Trigger.__init__, quakemigrate/signal/onsets/stalta.py:STALTAOnset.__init__"), ("deprecated names", Q+"signal/scan.py, quakemigrate/signal/trigger.py, quakemigrate/signal/pickers/gaussian.py (property setters)")],
 observe=["results of runs that differ only in how their options were given, and the printed objects"])
out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))

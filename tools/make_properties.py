#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=None)))


IO = "CHECLabPy/core/io/"
NOTIO = "No existing test writes an HDF5 file (test_io.py needs .tio data files that are not shipped); "

prop("C01", "Appended rows reach the HDF5 file exactly once and in order",
     "For any sequence of dataframes appended to any set of table keys of an HDF5 writer, in any interleaving and however often the writer decides to flush buffered frames to disk, reading a table back after closing yields exactly the concatenation of the frames appended under that key: every row once, in append order, with the same columns, column types and values. This holds whether a table is flushed never before closing, at every append, or exactly at the memory threshold, and a table only ever contains rows appended under its own key. Tables written whole are read back with their index as well, and the last write wins.",
     ["inputs", "histories"], "all append/write histories over several keys, all flush schedules, all column types",
     NOTIO + "and a sampled test would never cross the 0.5 GB flush threshold.",
     [IO + "hdf5_writer.py"], [("buffer list per key and flush at the byte threshold", IO + "hdf5_writer.py:append/_append_to_store"), ("flush of the remaining buffers on close", IO + "hdf5_writer.py:finish")],
     ["file content read back with pandas and with the HDF5 reader", "calls to pandas.HDFStore.append"],
     [("df_list", "frames buffered per key, not yet in the file", IO + "hdf5_writer.py")])

prop("C02", "HDF5 files list their tables, byte counts and metadata truthfully",
     "After closing, the file lists every table with rows that was appended or written and no table that was not, each with a byte count equal to the in-memory size of its data (index overhead aside), a total equal to the sum over all tables, and the CHECLabPy version that wrote it. Metadata added under any key and name (also keys without a table) is returned unchanged, later values for the same entry replacing earlier ones and other entries kept; reserved metadata names are rejected. The camera mapping is returned with its metadata and is not listed as a data table.",
     ["inputs", "histories"], "all histories of append, write, add_metadata and add_mapping calls, all metadata values that can be pickled",
     NOTIO + "the accounting depends on the whole history of calls and flushes.",
     [IO + "hdf5_writer.py", IO + "hdf5_reader.py"], [("metadata kept until close and stored as table attributes", IO + "hdf5_writer.py:add_metadata/_save_metadata"), ("contents list", IO + "hdf5_reader.py:_generate_contents_list")],
     ["dataframe_keys, metadata_keys, get_metadata, get_n_bytes, get_mapping of a reader on the closed file"])

prop("C03", "An error while writing loses no data already handed to the writer",
     "If an exception leaves the context of an HDF5 writer or appender at any point, it reaches the caller unchanged and the file is closed as a valid file. All rows appended or written and all metadata added before the exception are readable from it. Rows that cannot be stored in their table raise an error, which affects neither the other tables and the metadata nor what the table contained before.",
     ["crash_points", "histories"], "an exception raised between any two operations of any history",
     NOTIO + "an exception can occur between any two operations.",
     [IO + "hdf5_writer.py", IO + "hdf5_appender.py"], [("__exit__ always finishes the file", IO + "hdf5_writer.py:__exit__")],
     ["exception seen by the caller", "file content afterwards", "open file handles"])

prop("C04", "Appending to an existing HDF5 file preserves what it contained",
     "Any series of appender sessions on a file leaves it with the content one writer would have produced from all the operations in order: earlier rows first and unchanged, then the appended ones; tables not touched are unchanged; metadata entries are merged with the newer value winning. The byte count of each table and the total count the whole content, not only that of the last session. Opening a file that does not exist raises an error and does not create it.",
     ["histories"], "all series of writer and appender sessions",
     NOTIO + "the property is about arbitrarily long series of sessions.",
     [IO + "hdf5_appender.py"], [("metadata merge with the stored dictionaries", IO + "hdf5_appender.py:_save_metadata"), ("byte counts continue from those in the file", IO + "hdf5_appender.py:__init__/finish")],
     ["content, metadata and byte counts read after each session"])

prop("C05", "Partial reads of an HDF5 table agree with reading it entirely",
     "Reading a table in chunks of any size, selecting a row range or columns, or reading single columns returns exactly the corresponding part of the whole table; chunks cover every row exactly once in order, and the default chunk holds about 2 GB. Reading a whole table larger than 8 GB is refused unless forced, and then only warns. Asking for tables, metadata or files that do not exist raises an error naming them, and files from another major version are read with a warning.",
     ["inputs"], "all tables, chunk sizes, row ranges, column subsets and recorded table sizes",
     NOTIO + "chunk sizes and sizes around the 2 GB and 8 GB limits are not sampled.",
     [IO + "hdf5_reader.py"], [("chunked select", IO + "hdf5_reader.py:iterate_over_chunks"), ("size guard from the recorded byte count", IO + "hdf5_reader.py:read")],
     ["return values of the reader"])

prop("C06", "A DL1 file holds each processed event-pixel exactly once",
     "Reducing a waveform file gives one row for every pixel of every event that is neither stale nor incomplete, in event and pixel order, and no other rows, whatever the number of events, the event limit, the pattern of bad events or the number of flushes to disk. The recorded numbers of processed and skipped events add up to the events read, and the start and end times are those of the first and last processed event. For simulations each processed event also has exactly one row in the simulation and pointing tables.",
     ["inputs", "histories", "configurations"], "all waveform files, patterns of stale/incomplete events, event limits and flush schedules",
     "The extraction script has no test (it needs .tio files and TARGET libraries); exactly-once holds per file, not per sample.",
     ["CHECLabPy/scripts/extract_dl1.py", IO + "hdf5_writer.py"], [("skip rule", "CHECLabPy/scripts/extract_dl1.py:skip_event"), ("event loop", "CHECLabPy/scripts/extract_dl1.py:write_dl1_file"), ("sorted flush", "CHECLabPy/scripts/extract_dl1.py:_prepare_before_append")],
     ["rows of the tables in the DL1 file", "events served by the (stand-in) file reader"])

prop("C07", "DL1 values equal the calibration and extraction of that event's waveforms",
     "Every value in a DL1 row is the configured column for that event and pixel: event number, CPU and TACK time, first cell, true charge and the parameters extracted from the waveforms after time calibration (measured data only) and rolling baseline subtraction, with the subtracted baseline stored alongside. No value depends on how the file is flushed, and values keep their exact integers and single-precision floats.",
     ["inputs", "histories"], "all events, pixels, configurations and flush schedules",
     "No test runs the extraction end to end; the value of each row depends on the history of the rolling baseline.",
     ["CHECLabPy/scripts/extract_dl1.py", "CHECLabPy/core/chain.py", "CHECLabPy/utils/waveform.py", "CHECLabPy/calib/time_calibrator.py"],
     [("per-event extraction", "CHECLabPy/scripts/extract_dl1.py:DL1Extractor.__call__"), ("storage types", "CHECLabPy/scripts/extract_dl1.py:_prepare_before_append")],
     ["DL1 table against an independent recomputation from the raw waveforms"])

prop("C08", "A DL1 file records its provenance, and its input is never modified",
     "A DL1 file carries the run identity, the dimensions, the camera version, the extraction configuration used, the camera mapping and the per-module serial numbers, temperatures, DAC values and HV states of the input, each retrievable under its module and superpixel. Without an explicit output path the file is named after the input (run_r1.tio gives run_dl1.h5, run.simtel.gz gives run_dl1.h5). The input file is never changed, and an output path equal to the input is refused.",
     ["inputs", "configurations"], "all inputs, file names and extraction configurations",
     "No test runs the extraction; naming and metadata depend on every input path and module count.",
     ["CHECLabPy/scripts/extract_dl1.py", IO + "dl1_reader.py"], [("metadata dictionaries", "CHECLabPy/scripts/extract_dl1.py:DL1Extractor.__init__"), ("default output name", "CHECLabPy/scripts/extract_dl1.py:write_dl1_file")],
     ["metadata read back through the DL1 reader", "hash of the input file before and after"])

prop("C09", "All ways of reading events from a DL1 file agree",
     "For any DL1 file, reading an event by event number, by position, by iterating over events, over a selection of events, over rows or over chunks returns the same rows as the corresponding part of the entire table. Event numbers with gaps (skipped events) are found by number; a number not in the file raises an error. Properties such as the counts, columns, and per-module information match the file, and module or superpixel numbers out of range are refused.",
     ["inputs"], "all DL1 files, event numbers, selections and chunk sizes",
     "The DL1 reader has no test that runs here.",
     [IO + "dl1_reader.py"], [("event lookup", IO + "dl1_reader.py:event_lookup"), ("row range of an event", IO + "dl1_reader.py:select_event_index")],
     ["return values of the DL1 reader"])

prop("C10", "Waveform readers serve the same event for every kind of access",
     "Iterating over a waveform reader, indexing it with a positive or negative integer, a slice or a list returns the same waveforms and event attributes (event number, first cell, stale and missing-packet flags, TACK and CPU time) for each event, freshly read and independent of earlier reads. The number of events never exceeds the requested maximum, out-of-range indices raise an index error and other index types a type error. The serial numbers, temperatures, DAC values and HV states of camera data are those of the requested module and superpixel, and requests outside the camera raise an index error. CPU time is exact to the nanosecond, and attributes survive slicing and arithmetic on the waveforms.",
     ["inputs", "histories"], "all files, event limits, index expressions and orders of access",
     "All reader tests need .tio files which are not shipped.",
     [IO + "waveform.py", IO + "tio.py"], [("index handling", IO + "waveform.py:__getitem__"), ("event attributes on the array", IO + "waveform.py:__array_finalize__")],
     ["waveforms and attributes returned, against the events in the stand-in file"])

prop("C11", "Simulated events are presented in the camera's pixel order",
     "For any ordering of the pixels in a simulation file, the waveforms and true charges served for an event are reordered so that entry i belongs to the pixel at the position of pixel i in the camera mapping, consistently for both and for every event. The event number, times, simulated shower parameters and pointing served with an event are those of that same event; the simulation header is that of the run.",
     ["inputs", "histories"], "all pixel orders, numbers of events and access orders",
     "The simulation reader needs ctapipe and has no test.",
     [IO + "simtel.py", "CHECLabPy/utils/mapping.py"], [("pixel order from row and column", IO + "simtel.py:__init__"), ("event containers", IO + "simtel.py:_fill_event_containers")],
     ["served waveforms against the simulated event with known positions"])

prop("C12", "Files open with the reader for their content, R0 and R1 are not mixed",
     "The reader for a waveform file is chosen by the content of the file (plain or gzip compressed), not by its name: camera data files by their header, simulation files by their marker, and anything else is accepted by no reader. The R0 and R1 readers refuse a file of the other level, and a file that does not exist raises a file-not-found error. R0 waveforms are unsigned 16-bit, R1 waveforms single-precision floats.",
     ["inputs"], "all file contents and names",
     "No sample files are shipped; the choice depends on the bytes of the file.",
     [IO + "waveform.py", IO + "tio.py", IO + "simtel.py"], [("content tests", IO + "tio.py:is_compatible, simtel.py:is_compatible"), ("factory", IO + "waveform.py:from_path")],
     ["class of the reader returned or exception raised"])

prop("C13", "Waveform reduction is pure: no column depends on others or on history",
     "Processing an event through any chain of reducers leaves the input waveforms unchanged and returns exactly the active columns. The value of a column depends only on that event's waveforms and the configuration: not on which other columns are active, on the events processed before, or on the reducer being used alone or in a chain. Values already returned for earlier events do not change when further events are processed, and columns whose definition concerns a single pixel do not depend on other pixels.",
     ["inputs", "histories", "configurations"], "all sets of active columns, all event histories",
     "The chain test processes one event with one configuration; purity is over all histories and column sets.",
     ["CHECLabPy/core/reducer.py", "CHECLabPy/core/chain.py", "CHECLabPy/waveform_reducers/"], [("copy of the waveforms", "CHECLabPy/core/reducer.py:_prepare"), ("union of the column dictionaries", "CHECLabPy/core/chain.py:process")],
     ["input arrays before/after, column dictionaries"])

prop("C14", "Exactly the configured columns are extracted",
     "Without a configuration file the documented default columns are active; with one, only the columns it sets to true; explicit arguments override both. Other settings (window size and shift, extraction time) reach every reducer that uses them, and the effective configuration is reported. The generated configuration file is valid, lists every available column exactly once, and carries the default state for those with a default, with or without documentation comments.",
     ["configurations"], "all configuration files and arguments",
     "The chain test uses a single configuration.",
     ["CHECLabPy/core/chain.py", "CHECLabPy/core/reducer.py", "CHECLabPy/scripts/generate_dl1_config.py"], [("configuration merge", "CHECLabPy/core/chain.py:__init__"), ("active columns", "CHECLabPy/core/reducer.py:get_active_columns")],
     ["keys of the processed result", "generated YAML file"])

prop("C15", "Column and class names are unique and select the intended implementation",
     "Defining a reducer column whose name is already taken by a different reducer fails at definition, so every column name in a DL1 file belongs to exactly one reducer; redefining or inheriting the same column does not fail, and an inherited column is provided only by the reducer that defined it. Reading a column before an event was processed raises an error. All reducers and spectrum fitters in their packages are found, abstract ones excluded, and the factory builds a new object of the requested class with the given arguments and rejects unknown names.",
     ["programs", "histories"], "all sets of reducer and fitter classes",
     "Tests define two or three classes; the property is over all class hierarchies.",
     ["CHECLabPy/core/reducer.py", "CHECLabPy/core/__init__.py", "CHECLabPy/core/factory.py", "CHECLabPy/waveform_reducers/__init__.py", "CHECLabPy/spectrum_fitters/__init__.py"], [("registry", "CHECLabPy/core/reducer.py:column"), ("columns of a class", "CHECLabPy/core/reducer.py:WaveformReducerMeta"), ("subclass search", "CHECLabPy/core/__init__.py:child_subclasses")],
     ["exceptions at class definition", "columns attribute", "factory products"])

prop("C16", "Waveform summary columns have their documented values",
     "For any waveforms: the baseline columns are mean and standard deviation of the first and last 20 samples, the waveform columns mean, standard deviation and maximum of all samples; the average-waveform charge is the sum over the configured window about the maximum of the camera-average waveform (kept at least 10 samples from the edges, or at the configured time), and the saturation coefficient the sum from the configured shift before that maximum to the end. Superpixel columns give, for each of its four pixels, the maximum of the superpixel's summed waveform and its sample. The flasher column is -1 unless all four corner modules are at 30 or more on average, and then the index of the brightest; windows reaching outside the waveform use only existing samples.",
     ["inputs", "configurations"], "all waveforms, window settings and sample counts",
     "No test checks the values of these columns (the reducer tests need waveform files).",
     ["CHECLabPy/waveform_reducers/common.py", "CHECLabPy/waveform_reducers/average_wf.py", "CHECLabPy/waveform_reducers/saturation.py", "CHECLabPy/waveform_reducers/superpixel.py", "CHECLabPy/waveform_reducers/flag_flasher.py"],
     [("column definitions", "CHECLabPy/waveform_reducers/*.py")], ["column values against independent definitions"])

prop("C17", "Cross-correlation charge is calibrated, linear and uses the right peak",
     "Extracting a waveform that is the reference pulse scaled to unit area times a charge, placed anywhere inside the waveform, returns that charge, the height of that pulse and its peak time, up to sampling accuracy; charge is linear in the waveform. The charge equals the correlation of the waveform with the reference pulse at the sample where the camera average (or the pixel itself, or the average of the pixel's neighbours, for the local and neighbour variants) of the correlation is largest. The time lies within one sample of a genuine peak and inside the waveform.",
     ["inputs"], "all waveforms, pulse times, reference pulses and camera sizes",
     "No test covers extraction values.",
     ["CHECLabPy/waveform_reducers/cross_correlation.py"], [("normalisation of the reference pulse", "CHECLabPy/waveform_reducers/cross_correlation.py:_load_reference_pulse"), ("peak choice", "CHECLabPy/waveform_reducers/cross_correlation.py:_prepare")],
     ["columns t_cc*, charge_cc*, height_cc* against a naive correlation"])

prop("C18", "Window extractors integrate the window at their defining peak",
     "The sliding-window charge is the sum of the configured number of samples at the position where the window sum of the camera average (or of the pixel itself, or of its neighbours' average) is largest; the local variant is never below the sum of any other full window of that pixel. The peak-window extractors integrate the configured window about the pixel's, or its neighbours' average, maximum with the configured width and shift. Extraction times lie within the integrated samples.",
     ["inputs", "configurations"], "all waveforms and window sizes",
     "No test covers them; they need ctapipe.",
     ["CHECLabPy/waveform_reducers/sliding_window.py", "CHECLabPy/waveform_reducers/ctapipe_integrators.py"], [("window position", "CHECLabPy/waveform_reducers/sliding_window.py:_prepare"), ("configuration of the integrators", "CHECLabPy/waveform_reducers/ctapipe_integrators.py:__init__")],
     ["column values against brute force, with a stand-in for ctapipe's extraction functions"])

prop("C19", "Pulse timing columns describe the pulse in the search window",
     "For a pulse peaking in the search window the pulse time and amplitude are those of the parabola through the peak sample and its neighbours (amplitude above the mean of the first 10 samples), the width is the distance between the half-maximum crossings about the peak, and the rise time the distance between the 10% and 90% crossings before it; crossings are interpolated linearly, and not-a-number where they do not exist. Times and widths shift with and do not otherwise depend on the pulse position, scale invariantly with amplitude and are unaffected by a constant offset. Pulses for which no parabola exists give zeros, and no waveform of finite samples, whatever its sign or quantisation, ends the extraction.",
     ["inputs", "configurations"], "all pulse shapes, positions, offsets and window settings",
     "No test covers timing values.",
     ["CHECLabPy/waveform_reducers/timing.py"], [("compiled per-pixel timing", "CHECLabPy/waveform_reducers/timing.py:obtain_pulse_timing")],
     ["columns t_event, t_pulse, t_pulse_amp, fwhm, t_rise against a Python reference and metamorphic relations"])

prop("C20", "Compiled routines never touch memory outside their pixel's waveform",
     "Whatever the waveforms, peak positions, window settings, corrections and array layouts, the compiled per-pixel routines read and write only the samples of the pixel they are processing. Their result for a pixel is the same whatever the values of neighbouring pixels and of the memory around the array, and their inputs are unchanged.",
     ["inputs"], "all shapes, layouts, peak positions (edges included) and corrections",
     "Out-of-bounds reads in compiled code are silent; a unit test sees at most a wrong number.",
     ["CHECLabPy/waveform_reducers/cross_correlation.py", "CHECLabPy/waveform_reducers/timing.py", "CHECLabPy/calib/time_calibrator.py", "CHECLabPy/spectrum_fitters/mapm.py", "CHECLabPy/spectrum_fitters/gentile.py"],
     [("guards at the waveform edges", "timing.py:obtain_pulse_timing, cross_correlation.py:extract_pulse_time, time_calibrator.py:apply_t_cor")],
     ["index checks of a bounds-checked compilation", "results with poisoned memory around the array"])

prop("C21", "The subtracted baseline is the average over the most recent events",
     "At every event the subtracted baseline of each pixel is the mean of its leading samples over the current event and the preceding ones, up to the configured number of events, the missing history at the start being filled by the first events of the file. The subtraction shifts each pixel by its baseline only, leaves the input unchanged, and sources with fewer events than configured use the average of the events they have.",
     ["histories", "inputs"], "all event sequences, lengths and configured numbers of events and samples",
     "No test; a rolling average needs long histories beyond the configured number of events.",
     ["CHECLabPy/utils/waveform.py"], [("rolling buffer", "CHECLabPy/utils/waveform.py:BaselineSubtractor")],
     ["baseline after each event against a naive window"])

prop("C22", "Shifting and averaging waveforms preserves the samples",
     "Shifting waveforms by any number of samples moves every sample by exactly that number, drops those leaving the range and fills only the emptied samples with the fill value; shifting back restores the samples that stayed inside. Aligning moves the maximum of the average waveform to the requested sample, and the averages over a file are the means over all its events of the aligned, baseline-subtracted waveforms. Dead pixels are exactly those whose average waveform peaks below the requested fraction of the mean peak.",
     ["inputs"], "all waveforms, shifts within and beyond the waveform length, files",
     "No test covers these utilities.",
     ["CHECLabPy/utils/waveform.py"], [("shift_array", "CHECLabPy/utils/waveform.py")],
     ["return values against an index-based definition"])

prop("C23", "Charge resolution does not depend on how the data is split",
     "For any split of the entries into contributions, in any order and with any number of intermediate reductions, the charge resolution per pixel and for the whole camera equals that of all entries processed at once: root of the mean squared deviation from the true charge, with the true charge added as Poisson variance for simulated truth, absolute and relative to the true charge. Each combination of pixel and true charge occurs once with its number of entries, entries of true charge zero are excluded, and pixels without entries do not occur.",
     ["inputs", "histories"], "all data sets, splits, orders and memory limits",
     "No test; the reduction triggered at 1 GB is never reached by small samples.",
     ["CHECLabPy/utils/resolutions.py"], [("intermediate sums", "CHECLabPy/utils/resolutions.py:ChargeResolution._amalgamate")],
     ["result tables against a direct computation"])

prop("C24", "Charge statistics do not depend on how the data is split",
     "For any split of the entries into contributions, in any order and with any number of intermediate reductions, the mean, standard deviation and number of entries per pixel and amplitude and for the whole camera equal those of all entries processed at once. Every combination occurs once, and standard deviations are never negative or not-a-number for finite charges.",
     ["inputs", "histories"], "all data sets, splits, orders and memory limits",
     "No test; the reduction triggered at 1 GB is never reached by small samples.",
     ["CHECLabPy/utils/resolutions.py"], [("intermediate sums", "CHECLabPy/utils/resolutions.py:ChargeStatistics._amalgamate")],
     ["result tables against a direct computation"])

prop("C25", "Superpixel, module and grid views agree with the pixel mapping",
     "The superpixel and module mappings derived from a pixel mapping have one entry per superpixel or module, placed at the mean position of its pixels, with the row, column and membership its pixels have on the coarser grid and the pixel size scaled accordingly; the pixel mapping and its metadata are unchanged. For pixels on a camera grid of any shape that has a complete row and column, in any order, with gaps between modules and modules missing, the computed row and column of every pixel are its true ones. Mapping metadata copies every quantity of the camera definition.",
     ["inputs"], "all camera layouts, pixel orders, scales and offsets",
     "Mapping functions need TARGET libraries in the tests; none are tested.",
     ["CHECLabPy/utils/mapping.py"], [("grouping", "CHECLabPy/utils/mapping.py:get_superpixel_mapping/get_tm_mapping"), ("grid binning", "CHECLabPy/utils/mapping.py:get_row_column")],
     ["derived tables against the generating layout"])

prop("C26", "Run lists, file sorting and HV files are read faithfully",
     "Numeric parts of file names sort by value, so run 2 precedes run 10, and sorting keeps every name. A run list gives every run once with its values and the path of its data file beside the list, and opening it gives the reader of that run. An HV file gives the DAC value and HV state of every listed module and superpixel and zero for all others, regardless of line order and unrelated lines; creating a directory succeeds whether or not it exists.",
     ["inputs"], "all names, run lists and HV files",
     "No test covers these utilities.",
     ["CHECLabPy/utils/files.py"], [("natural sorting", "CHECLabPy/utils/files.py:natural_keys"), ("pattern matching", "CHECLabPy/utils/files.py:extract_hv_cfg")],
     ["return values against the generating values"])

prop("C27", "Time calibration resamples each pixel by its own correction",
     "Each calibrated sample is the value of the pixel's linearly interpolated waveform at its time minus that pixel's correction, whole-sample corrections being exact shifts; before the first and after the last sample the first or last segment is extended. A waveform linear in time is reproduced exactly, pixels do not influence each other, the input is unchanged and the float type is kept.",
     ["inputs"], "all waveforms and corrections, whole, fractional, negative and larger than the waveform",
     "No test covers the time calibration.",
     ["CHECLabPy/calib/time_calibrator.py"], [("interpolation", "CHECLabPy/calib/time_calibrator.py:apply_t_cor")],
     ["calibrated waveforms against an independent interpolation"])

prop("C28", "Amplitude, illumination and waveform calibration apply per-pixel coefficients",
     "Amplitude calibration subtracts the pixel's pedestal, divides by the conversion and multiplies by the pixel's flat-field coefficient, for single values, arrays and pixels in any order and repetition alike. Folding and unfolding an illumination profile are exact inverses that scale each pixel by its own coefficient, and the shipped profile can be applied to a full camera. Waveform calibration passes each event with its first cell to the calibrator, returns single-precision waveforms marked as calibrated, and leaves the raw waveforms unchanged.",
     ["inputs"], "all coefficients, values, pixel selections and waveforms",
     "No test covers these calibrators.",
     ["CHECLabPy/calib/amplitude_calibrator.py", "CHECLabPy/calib/illumination_profile.py", "CHECLabPy/calib/waveform.py"], [("formulae", "CHECLabPy/calib/*.py")],
     ["return values against per-element evaluation"])

prop("C29", "Amplitude matching converges within DAC limits and parks bad superpixels",
     "For any camera whose amplitude falls with increasing DAC value, the DAC values proposed in each iteration stay between 10 and 255, change by at most 10 counts except when going back to the previous value or parking at 255, and move in the direction that reduces the difference to the target. Masked superpixels (given per superpixel or per pixel) are set to 255 and stay there. Within a bounded number of iterations matching reports completion once, with the final values for every superpixel; superpixels that can reach the target end within one DAC step of it.",
     ["inputs", "histories"], "all monotonic amplitude responses, targets, starting values and masks",
     "No test; convergence is a property of whole matching histories.",
     ["CHECLabPy/calib/amplitude_matcher.py"], [("step stages per superpixel", "CHECLabPy/calib/amplitude_matcher.py:_get_next_dac_nb"), ("two passes", "CHECLabPy/calib/amplitude_matcher.py:process")],
     ["DAC values returned per iteration against a simulated camera"])

prop("C30", "Pixel masks survive saving, loading and merging",
     "Loading a mask file gives exactly its dead, low and bad-HV flags, a superpixel being bad if any of its pixels is; committing the current masks and loading them again (also as the default, latest file) gives the same masks. Merging is the union, replacing is not, and the combined mask is the union of the three with every pixel of a bad superpixel. Superpixels and modules convert to exactly their 4 and 64 pixels.",
     ["inputs", "histories"], "all masks and sequences of load, merge and commit",
     "No test covers the masks.",
     ["CHECLabPy/calib/pixel_masks.py"], [("load/merge/save", "CHECLabPy/calib/pixel_masks.py")],
     ["mask arrays and files"])

prop("C31", "The SiPM data sheet conversion is a consistent interpolation",
     "Converting from any one characteristic (overvoltage, gain, crosstalk, PDE) returns all characteristics at the same operating point: the given one unchanged, exactly the tabulated ones at tabulated points and between its neighbours otherwise. Converting a returned characteristic back gives the same operating point. Giving none or several characteristics is refused, and values outside the tabulated range never give finite numbers.",
     ["inputs"], "all values of each characteristic inside and outside the table",
     "No test covers the conversion.",
     ["CHECLabPy/calib/sipm_data_sheet.py"], [("linear interpolation in the table", "CHECLabPy/calib/sipm_data_sheet.py:__call__")],
     ["returned values against the shipped table"])

prop("C32", "Probability functions match their definitions over their whole domain",
     "The binomial coefficient, Poisson probability and its logarithm, normal density and x log y agree with exact reference values within single-precision argument rounding, for large counts (no overflow), zero counts and tiny or huge means alike. Poisson probabilities and binomial rows sum to one and to powers of two, and scalar and array arguments give the same values.",
     ["inputs"], "all counts, means, positions and widths",
     "Five tests check one or a few values each.",
     ["CHECLabPy/stats/pdf.py"], [("log-gamma formulation", "CHECLabPy/stats/pdf.py")],
     ["return values against scipy/math references"])

prop("C33", "Welford's running statistics equal the direct ones",
     "After any sequence of samples the running mean, count and sum of squared deviations equal the direct two-pass values, also for large offsets where the naive formula loses all digits. The sum of squared deviations is never negative, the count increases by one per sample, and the order of the samples does not matter beyond rounding.",
     ["inputs", "histories"], "all sample sequences",
     "No test covers it.",
     ["CHECLabPy/stats/welfords.py"], [("update step", "CHECLabPy/stats/welfords.py")],
     ["mean, count and m2 after each step against exact arithmetic"])

prop("C34", "Photoelectron spectra are the stated probability densities",
     "For any physical parameters the photomultiplier and silicon spectra equal the sum over photoelectron counts of the count's probability (Poisson, respectively Poisson with crosstalk) times a normal density at pedestal plus count times the single photoelectron charge with the combined width, up to neglected probabilities below 1e-4 each. They are non-negative, integrate to one and have the corresponding mean; the silicon spectrum without crosstalk equals the photomultiplier one. The values do not depend on the number of threads or on the other points evaluated.",
     ["inputs", "schedules"], "all physical parameters, evaluation points and thread counts",
     "One test per fitter fits one parameter set.",
     ["CHECLabPy/spectrum_fitters/mapm.py", "CHECLabPy/spectrum_fitters/gentile.py"], [("sum over photoelectron counts", "CHECLabPy/spectrum_fitters/*.py")],
     ["spectra against a double-precision compound-Poisson reference"])

prop("C35", "The fit uses exactly the configured parameters",
     "The initial values, limits and fixed flags of a fitter as defined, updated, loaded from a configuration file, or replaced by a previous result are those the next fit uses: fixed parameters keep their value and fitted ones stay in their limits. With several illuminations each multi-parameter has one independent value per illumination and each other parameter a single shared one, and every illumination's spectrum is evaluated with its own values. The errors reported are those at which the likelihood has risen by one. Saving and loading a configuration reproduces it.",
     ["configurations", "histories"], "all configurations and sequences of load, update and fit",
     "Tests cover two parameter sets and do not fit after loading.",
     ["CHECLabPy/core/spectrum_fitter.py"], [("lookup and Minuit arguments", "CHECLabPy/core/spectrum_fitter.py:_prepare_parameters"), ("configuration", "CHECLabPy/core/spectrum_fitter.py:load_config/save_config/update_initial")],
     ["arguments and parameter values seen by the likelihood", "fit results"])

prop("C36", "Charge histograms conserve the data and fits describe them",
     "The charge histogram of each illumination counts every charge inside the configured range exactly once in the configured number of equal bins and no others, with bin centres between the edges. The fitted curve spans the range and has the area of its illumination's histogram, and fitting spectra drawn from the model recovers their parameters within statistical accuracy for each illumination. A fit depends only on its data and configuration, not on fits done before with the same fitter.",
     ["inputs", "histories"], "all charge samples, ranges, bin numbers and illumination numbers",
     "Tests fit a single data set per fitter.",
     ["CHECLabPy/core/spectrum_fitter.py"], [("histogram", "CHECLabPy/core/spectrum_fitter.py:apply"), ("area normalisation", "CHECLabPy/core/spectrum_fitter.py:fit_result_curve")],
     ["charge_histogram, fit_result_curve, fit_result_values"])

prop("C37", "Parallel pixel fits give the sequential result",
     "Extracting the photoelectron spectrum of every pixel with any number of processes, in whatever order they finish, stores for each pixel exactly the values, errors, histogram and curve that fitting that pixel alone gives, one row per pixel in pixel order. The stored metadata names the inputs, fitter, initial values and numbers of illuminations and pixels, and the mapping of the input is included.",
     ["schedules", "inputs"], "all process counts, completion orders and input files",
     "No test; the order in which processes finish is a schedule.",
     ["CHECLabPy/scripts/extract_spe.py"], [("process pool with shared dictionaries", "CHECLabPy/scripts/extract_spe.py:PixelFitApplier"), ("tables by pixel", "CHECLabPy/scripts/extract_spe.py:main")],
     ["tables of the output file for different schedules with injected delays"])

prop("C38", "Camera images show each pixel's value at that pixel's position",
     "Setting an image colours the patch at each pixel's position (or the grid cell at its row and column) with that pixel's value, invalid values and absent corners masked, and refuses images of the wrong size. The colour scale follows the data unless limits were set and again after they are reset. Highlighting, text and module labels are placed at the pixels and modules they name, and only those pixels are highlighted.",
     ["inputs", "histories"], "all images, mappings, selections and sequences of limit changes",
     "Plotting has no tests.",
     ["CHECLabPy/plotting/camera.py"], [("patch collection", "CHECLabPy/plotting/camera.py:CameraImage"), ("image grid", "CHECLabPy/plotting/camera.py:CameraImageImshow")],
     ["matplotlib artists: patch positions, arrays, limits, line widths, texts"])

prop("C39", "Resolution plots show the binned results and limit curves",
     "Plotted points are the means of the entries in each of the logarithmic bins between 0.1 and the largest value, empty bins omitted, with errors combined in quadrature over the number of entries, and nothing else is drawn for a pixel than its own entries. The requirement and goal curves follow the stated noise formula and end at 1000 and 2000 photoelectrons, the goal is below the requirement, and neither changes its input. The relative plots divide each value by the requirement at the same charge.",
     ["inputs"], "all resolution tables and charge ranges",
     "Plotting has no tests.",
     ["CHECLabPy/plotting/resolutions.py"], [("binning", "CHECLabPy/plotting/resolutions.py:bin_points"), ("limit formula", "CHECLabPy/plotting/resolutions.py:limit_curves")],
     ["matplotlib lines and return values"])

prop("C40", "Monitor data in old DL1 files stays readable and matched to events",
     "For DL1 files that contain monitor tables, each monitor column is found in the camera, module or pixel table that holds it, reshaping gives one row per monitor event, averages are per device over all monitor events, and a matched column gives, for each waveform row, the monitor value it refers to. Access is announced as deprecated, and files without monitor data raise an error.",
     ["inputs"], "all monitor tables and index columns",
     "No such file is shipped and no test covers it.",
     [IO + "dl1_reader.py"], [("table lookup", IO + "dl1_reader.py:DeprecatedMonitorReader"), ("matching by index", IO + "dl1_reader.py:get_matched_monitor_column")],
     ["return values against the generating tables"])

prop("C41", "Extracted pulses account for the whole extracted charge",
     "Pulse extraction gives non-negative charges per pixel of which the in-time and out-of-time parts add up to the total, the largest in-time pulse not exceeding the in-time charge, and zero pulses exactly where the charge is zero; the pulses kept are those of the current event, however many there are. Charges depend on that pixel's waveform only and, for waveforms made of large reference pulses, are proportional to it; a single reference pulse is recovered with its charge. The non-negative fit never describes the waveform worse than no pulse at all, and its solution is non-negative.",
     ["inputs"], "all waveforms, amplitudes and pulse times",
     "No test covers it.",
     ["CHECLabPy/waveform_reducers/nnls_pulse_extraction.py"], [("active set solver", "CHECLabPy/waveform_reducers/nnls_pulse_extraction.py:nnls"), ("charge sums", "CHECLabPy/waveform_reducers/nnls_pulse_extraction.py:_prepare")],
     ["nnls_* columns and solver output"])
prop("C42", "Waveform displays show each waveform in the panel of its pixel or module",
     "The module display has one panel per module at the module's row and column, showing exactly the waveforms of that module's pixels in the colour of their ASIC, the camera mean and the module mean, and lists exactly the pixels whose maximum is below the given fraction of the maximum of the camera mean. The pixel display has one panel per pixel at its row and column, showing its waveform and the camera mean, coloured by its maximum. Highlighting outlines exactly the selected pixels and a reset restores all outlines. Waveforms given are not changed.",
     ["inputs", "histories"], "all layouts, waveforms and sequences of highlights and resets",
     "Plotting has no tests.",
     ["CHECLabPy/plotting/waveform.py"],
     [("panels", "CHECLabPy/plotting/waveform.py:CameraTMWaveformPlotter"), ("outlines", "CHECLabPy/plotting/waveform.py:reset_pixel_highlight")],
     ["matplotlib panels, lines, texts and spines"])

prop("C43", "Photoelectron spectra are plotted as they were stored",
     "Plotting a result file of the spectrum extraction saves, for every fitted parameter, the camera image of its values and of its errors at the pixel positions and a histogram counting every pixel once with its mean and standard deviation, and for the requested pixel the stored histogram and curve of every illumination with a table of initial and fitted values and errors. The plot mode of the extraction shows the fit of the requested pixel alone and writes no file. Saved figures are finished once, written to the requested path in its format, and closed.",
     ["inputs"], "all result files, pixels and illumination numbers",
     "Plotting has no tests.",
     ["CHECLabPy/scripts/plot_spe.py", "CHECLabPy/plotting/spe.py", "CHECLabPy/plotting/setup.py", "CHECLabPy/scripts/extract_spe.py"],
     [("figures per parameter", "CHECLabPy/scripts/plot_spe.py:main"), ("spectrum figure", "CHECLabPy/plotting/spe.py:SpectrumFitPlotter"), ("saving", "CHECLabPy/plotting/setup.py:Plotter.save")],
     ["figures at the moment they are saved or shown", "saved files"])

prop("C44", "Conversion to ROOT carries every row, column and metadata entry",
     "Converting a DL1 file gives one output file, at the requested path or beside the input with the extension replaced, containing the data and mapping with every row and column in order and unchanged types and values, and every metadata entry, texts as texts; timestamps in data and metadata become integer nanoseconds. The input file is not changed.",
     ["inputs"], "all DL1 tables, column types, metadata and paths",
     "ROOT is not available to the tests.",
     ["CHECLabPy/scripts/convert_hd52root.py"],
     [("conversion", "CHECLabPy/scripts/convert_hd52root.py")],
     ["trees recorded by stand-ins for ROOT and root_numpy"])

prop("C45", "Data handed over in small parts never piles up in memory",
     "Appending to a writer or appender never holds more than 0.5 GB per table plus the part in hand: beyond that the rows are in the file before the file is closed, and nothing is held after closing. The charge resolution and charge statistics never hold more than 1 GB plus the part in hand, however many parts are contributed. Averages, baselines, waveform reduction and waveform readers hold an amount that does not grow with the number of events processed. None of this changes the rows or totals.",
     ["inputs", "histories"], "all numbers, sizes and orders of parts and tables",
     "No test handles more than a few kilobytes.",
     [IO + "hdf5_writer.py", IO + "hdf5_appender.py", "CHECLabPy/utils/resolutions.py", "CHECLabPy/utils/waveform.py", "CHECLabPy/core/chain.py"],
     [("buffer bound", IO + "hdf5_writer.py:append"), ("reduction bound", "CHECLabPy/utils/resolutions.py:add")],
     ["memory of the process, rows in the store while writing, totals"])

prop("C46", "Diagnostic plots show the quantities they diagnose",
     "The data sheet plot shows gain, PDE and crosstalk against overvoltage as tabulated, the gain on its own axis, with a legend in the colours of the curves. The pixel mask plot shows at each pixel's position, with its number, 0.5 if its superpixel has bad HV, otherwise 2 if it is low, otherwise 1 if it is dead, otherwise nothing. The timing plot shows the waveforms with the largest and the smallest amplitude at the event time, each with its event time, search window, pulse time and amplitude and the limits of its width and rise, is closed afterwards, and leaves the extracted columns as without plotting. On camera images the telescope-up arrow and the flashers are where the mapping says, mirrored into the four corners, and a colour bar follows the limits of the image. No input is changed.",
     ["inputs"], "all masks, data sheets, events, layouts and images",
     "Plotting has no tests.",
     ["CHECLabPy/calib/sipm_data_sheet.py", "CHECLabPy/calib/pixel_masks.py", "CHECLabPy/waveform_reducers/timing.py", "CHECLabPy/plotting/camera.py"],
     [("mask image", "CHECLabPy/calib/pixel_masks.py:plot"), ("timing plot", "CHECLabPy/waveform_reducers/timing.py:_post"), ("annotations", "CHECLabPy/plotting/camera.py:annotate_led_flasher")],
     ["figures at the moment they are shown"])

prop("C47", "Calls leave their arguments and the interpreter's state alone",
     "Any call into the library leaves the arrays, tables, lists and dictionaries it is given as they were: values, types, columns, index and attached metadata. Exempt are the two functions whose very purpose is to change their argument (sorting a file list, masking an image). No call reseeds or consumes random generators, changes numpy's error handling or print options, adds or removes warnings filters, changes directory, environment, locale, recursion limit, module path or pandas options, or leaves threads running, also when it raises. Settings of matplotlib belong to the plots.",
     ["inputs", "histories"], "all public functions and methods and all their arguments",
     "Tests look at results, never at the inputs afterwards; a changed input shows up in code elsewhere.",
     ["CHECLabPy/core/", "CHECLabPy/utils/", "CHECLabPy/calib/", "CHECLabPy/waveform_reducers/", "CHECLabPy/plotting/", "CHECLabPy/scripts/"],
     [("shared metadata", "CHECLabPy/utils/mapping.py:get_superpixel_mapping"), ("subtraction", "CHECLabPy/utils/waveform.py:subtract"), ("accumulation", "CHECLabPy/utils/resolutions.py:add"), ("warnings filters", IO + "dl1_reader.py:deprecate")],
     ["fingerprints of arguments before and after every outermost call", "state of the interpreter"])

prop("C48", "Readers and commands write nothing but the outputs asked for",
     "Reading never changes an input: files are opened for reading only, can be read without write permission and by several processes and readers at once, and are closed when a with-block or an executable ends, also after an error. The executables leave their inputs, the working directory, the home directory and other files in the output directory as they were, and create exactly the requested outputs. Importing any module of the package, in any order, writes nothing, prints nothing and changes no state of the interpreter.",
     ["inputs", "schedules"], "all readers, executables, files and permissions",
     "Tests delete their files without comparing them, and run one process.",
     [IO, "CHECLabPy/scripts/", "CHECLabPy/utils/files.py"],
     [("read mode", IO + "hdf5_reader.py:HDF5Reader"), ("closing", IO + "hdf5_reader.py:__exit__"), ("outputs", "CHECLabPy/scripts/extract_dl1.py:main")],
     ["audit events", "access modes of open descriptors", "directory contents with hashes and modification times"])

prop("C49", "Outcomes do not depend on the environment of the process",
     "The columns extracted by a reducer chain, reduced files and their metadata, calibrated and averaged waveforms, mappings, configurations, resolutions, spectrum fits and names found by the factories are the same, in values, types and order, whatever the hash seed, time zone, locale, umask, number of threads, working directory, home directory, plotting backend or optimisation level of the interpreter. Only the date of generation, paths and versions may differ.",
     ["inputs", "histories"], "all environments and inputs",
     "Tests run in one environment; order of sets and local times stay the same within it.",
     ["CHECLabPy/core/", IO, "CHECLabPy/scripts/", "CHECLabPy/utils/"],
     [("reducer order", "CHECLabPy/core/chain.py:_build_chain"), ("event times", IO + "waveform.py:t_cpu"), ("names", "CHECLabPy/core/factory.py:Factory")],
     ["results of the same inputs in processes with different environments"])

prop("C50", "Data handed over is kept as it was when handed over",
     "Rows, tables, metadata and mappings handed to a writer or appender, numbers contributed to the resolutions and statistics, events handed to the baseline subtraction, charges handed to a fitter, waveforms handed to a reducer and images given to a camera display are used with the values they had at that moment: a caller may refill the same buffers for the next event. Conversely, tables, events and columns read from a file belong to the caller: overwriting them does not change what is read next.",
     ["histories"], "all sequences of handing over, overwriting and reading again",
     "Tests hand over fresh objects and do not touch them again.",
     [IO + "hdf5_writer.py", IO + "hdf5_appender.py", "CHECLabPy/utils/", "CHECLabPy/core/spectrum_fitter.py", "CHECLabPy/plotting/camera.py"],
     [("buffered rows", IO + "hdf5_writer.py:append"), ("metadata", IO + "hdf5_writer.py:add_metadata"), ("baseline buffer", "CHECLabPy/utils/waveform.py:update_baseline"), ("contributed numbers", "CHECLabPy/utils/resolutions.py:add")],
     ["results after the buffers were overwritten, against a run with untouched copies"])

prop("C51", "Objects do not influence each other",
     "Any number of writers, appenders, readers, reducer chains and reducers, baseline subtractors, calibrators, pixel masks, data sheet converters, amplitude matchers, charge resolutions and statistics, spectrum fitters with their parameters, mappings and what is derived from them, camera images and plots may be used in one process, created with the same or other arguments, their uses interleaved in any order or following one another. Each returns, holds, writes and shows what it would if it were the only one in the process, whatever is done to the others or to what they returned. Exempt are the global style settings of matplotlib.",
     ["histories"], "all classes, arguments, data and orders of use",
     "Tests make one object at a time and few per class; state shared between objects needs two of them with different data.",
     ["CHECLabPy/core/", IO, "CHECLabPy/calib/", "CHECLabPy/utils/", "CHECLabPy/waveform_reducers/", "CHECLabPy/plotting/"],
     [("buffers", IO + "hdf5_writer.py:__init__"), ("event lookup", IO + "dl1_reader.py:event_lookup"), ("reference pulse", "CHECLabPy/waveform_reducers/cross_correlation.py:CrossCorrelation"), ("parameters", "CHECLabPy/core/spectrum_fitter.py:SpectrumParameterCollection"), ("shipped data", "CHECLabPy/calib/time_calibrator.py:TimeCalibrator")],
     ["records of every step alone in a process and among others"])


out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), 'properties')

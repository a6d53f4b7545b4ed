#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a generator so that the text stays reviewable).
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    d['anchors']['hook_needed']=hook
    assert len(title)<=80,(id,len(title))
    P.append(d)
C='sources/core/'; PL='sources/plugins/'; S='sources/softs/'

p('D01','Native datasets survive save, process restart and reload',
 'A dataset saved in a native format (text or binary) and reloaded by a new process has the same number of samples in the same order, the same dimensions and input/output parametrizations, and the same coordinates and values: bit for bit in the binary format (including its confidence intervals and their kind), to at least 14 significant digits in the text format. '
 'This holds whatever sizes the storage layer chooses for each transfer (short reads and writes, interrupted calls).',
 ['inputs','histories','fault_sequences'],
 'All datasets (1-6 input and 1-6 output dimensions, every parametrization of that width, 1 to a few hundred samples, extreme finite values, each confidence-interval kind), all chains of save/load/re-save across formats, and all splittings of the I/O into partial transfers.',
 'The tests reload two fixed small files through an unfaulted kernel; they never vary the dimensions, the interval kinds, the values, the chain of re-saves or the transfer sizes.',
 [C+'data_storage.cpp',C+'data.cpp',C+'vertical_segment.cpp',C+'vertical_segment.h',C+'plugins_manager.cpp',C+'args.h'],
 [('native writers',C+'data_storage.cpp save_data_as_text/save_data_as_binary'),('native readers',C+'data_storage.cpp load_data_from_text/load_data_from_binary'),('header parser',C+'args.h parse_header')],
 ['alta::plugins_manager::load_data','alta::data::get'])

p('D02','Measured-format datasets survive save, process restart and reload',
 'A dataset held by one of the measured-material containers (MERL, UTIA, BRDF slice images, regular grids) and saved in its own format, then reloaded by a new process, evaluates to the same stored samples, to the precision of that format (64-bit floating point for MERL and UTIA, 32-bit floating point for images, 14 significant digits for grids). '
 'This holds whatever sizes the storage layer chooses for each transfer, and whatever the memory handed out by the allocator contained.',
 ['inputs','histories','fault_sequences'],
 'All sample contents, container sizes and chains of save/reload, all splittings of the I/O into partial transfers, all prior contents of fresh memory.',
 'The tests only import fixed MERL/UTIA-like inputs or check conversions; none saves and reloads these formats across a restart, and none varies transfer sizes or memory contents.',
 [PL+'data_io/merl.cpp',PL+'data_io/utia.cpp',PL+'data_io/slice.cpp',PL+'data_io/EXR_IO.h',PL+'data_interpolants/grid.cpp'],
 [('container save members',PL+'data_io/*.cpp, '+PL+'data_interpolants/grid.cpp save'),('container loaders','load_data entry point of each plugin')],
 ['alta::data::save','alta::plugins_manager::load_data','alta::data::get','alta::data::value'])

p('D03','Fitted function files survive save, process restart and reload',
 'A BRDF model that supports saving (any analytic lobe but SGD, Fresnel or shadowing plugin, any rational-function family, and any compound or product of them) saved to an ALTA function file and reloaded by a new process (to be used, or as the starting point of a fit) is the same model: same dimensions and parametrizations, and the same value at every direction up to the printed precision of its parameters. '
 'This holds whatever sizes the storage layer chooses for each transfer, and for files loaded one after another in any order in one process.',
 ['inputs','histories','fault_sequences'],
 'All model structures the plugins allow, all parameter vectors, all orders in which the files of one process are saved and loaded, all splittings of the I/O into partial transfers.',
 'The tests save a handful of fitted functions and compare a few reloaded values; structures nest without bound and histories of several files per process are not sampled.',
 [C+'function.cpp',C+'rational_function.cpp',C+'plugins_manager.cpp',PL+'nonlinear_function_lafortune/function.cpp',PL+'nonlinear_function_beckmann/function.cpp',PL+'rational_function_legendre/rational_function.cpp'],
 [('model writers',C+'function.cpp save/save_call/save_body and plugin overrides'),('model readers',C+'plugins_manager.cpp load_function, load() of each model')],
 ['alta::function::save','alta::plugins_manager::load_function','alta::function::value'])

p('D04','Dataset files written by others mean what the format says',
 'A complete text, binary or ASTM dataset file in any form the format permits (header entries in any order, comment and blank lines, any white space and line ends, any number notation) loads as exactly the samples it lists, in their order, with the stated dimensions and parametrizations, and with the extent they span. '
 'Each sample has the confidence interval that its columns (a radius, or a lower and an upper distance) or the options (--dt, --dt-relative, --dt-max, --dt-positive) define, and the accessors of the interval agree with each other; --min, --max, --ymin and --ymax keep exactly the samples within their bounds, which belong to it; --data-correct-cosine divides values and intervals by both cosines. '
 'This holds whatever sizes the storage layer chooses for each transfer, whatever memory contained and whatever the process loaded before.',
 ['inputs','configurations','histories','fault_sequences'],
 'All datasets, all written forms of them, all combinations of the loading options, all splittings of the I/O into partial transfers, all memory images and all orders of loads in one process.',
 'The tests load a few fixed files, written by the library itself or in one form, mostly without options, and look at a few numbers of them.',
 [C+'data_storage.cpp',C+'vertical_segment.cpp',C+'args.h',C+'plugins_manager.cpp',PL+'data_io/astm.cpp'],
 [('header parser',C+'args.h parse_header'),('text and binary readers, intervals, filters',C+'data_storage.cpp'),('interval accessors and extent',C+'vertical_segment.cpp'),('ASTM reader',PL+'data_io/astm.cpp')],
 ['alta::plugins_manager::load_data','alta::data::get','alta::vertical_segment::get','alta::data::min','alta::data::max'])

p('D05','Measured containers answer with the samples they hold',
 'Through any history of changes, look-ups, saves and restarts, every sample of a measured-material container (MERL, UTIA, BRDF slice, regular grid) has the coordinates its format defines and the value it was last given (or that was in the file), and changing one sample changes no other. '
 'Looked up at the coordinates of a sample, the container answers with that sample (MERL: black, if unphysical); elsewhere in the domain with the sample of the cell the point lies in (MERL, including the symmetry in phi_d, and slices) or the multilinear interpolation of the samples around it (UTIA, periodic in both azimuths, and grids); outside of the domain with zero (MERL, UTIA, slices) or the nearest point of the domain (grids). '
 'No coordinates whatsoever make it read memory that is not its own.',
 ['inputs','histories','fault_sequences'],
 'All contents, all histories of setting, reading and looking up samples, all coordinates (also outside of the domain, infinite and not a number), all chains of saves and restarts, all memory images.',
 'The tests convert fixed files or look at no values at all; none sets samples, asks between or outside of them, or restarts.',
 [PL+'data_io/merl.cpp',PL+'data_io/utia.cpp',PL+'data_io/slice.cpp',PL+'data_interpolants/grid.cpp',C+'data.h'],
 [('index from coordinates and coordinates from index',PL+'data_io/merl.cpp'),('interpolation',PL+'data_io/utia.cpp value'),('pixel look-up',PL+'data_io/slice.cpp value'),('interpolation',PL+'data_interpolants/grid.cpp value')],
 ['alta::data::get','alta::data::set','alta::data::value'])

p('W01','A dataset save never claims success for an incomplete file',
 'When a dataset save, in any output format, returns without reporting an error (no exception, no failure status), every byte that an undisturbed save would have written is in the file. '
 'This holds when the disk fills up, when a write, open or close fails, and when writes are cut short or interrupted, at any point of the save.',
 ['fault_sequences','crash_points','inputs'],
 'Every single and combined storage fault (open error, EIO, ENOSPC once or for good, capacity limit, short write, failing close) at every I/O operation of every save, for every output format and for datasets below and above the stream buffer size.',
 'No test injects a storage error; the kernel they run on never fails a write.',
 [C+'data.cpp',C+'data_storage.cpp',PL+'data_io/merl.cpp',PL+'data_io/utia.cpp',PL+'data_io/slice.cpp',PL+'data_interpolants/grid.cpp'],
 [('stream state checks on save',C+'data.cpp data::save'),('container save members',PL+'data_io, '+PL+'data_interpolants')],
 ['alta::data::save','alta::save_data_as_binary on a file stream'])

p('W02','A function save or export never claims success for an incomplete file',
 'When saving or exporting a BRDF model (native format, and the exports to other renderers and languages) returns without reporting an error (no exception, no failure status), every byte that an undisturbed save would have written is in the file. '
 'This holds when the disk fills up, when a write, open or close fails, and when writes are cut short or interrupted, at any point of the save.',
 ['fault_sequences','crash_points','inputs'],
 'Every single and combined storage fault at every I/O operation of every model save and export, for every model structure.',
 'No test injects a storage error; the kernel they run on never fails a write.',
 [C+'function.cpp',C+'rational_function.cpp'],
 [('stream state checks on save',C+'function.cpp function::save')],
 ['alta::function::save'])

p('R01','Damaged native dataset files are never taken for good data',
 'Loading a native dataset file that was truncated, torn, or whose storage fails in mid-read either reports an error or yields exactly the samples that are completely and readably present in the file, with the values it holds; a text file with parts that were never written (zero bytes) is rejected, and a binary file, which announces its sample count, is accepted only when all announced samples were read. '
 'Loading never corrupts memory, never invents values for missing ones, and gives the same outcome whatever the memory contained before.',
 ['crash_points','fault_sequences','inputs'],
 'Every truncation point and torn block of every file a crashed writer can leave behind, every read error position, every memory content.',
 'The tests only load complete files; the set of truncation points and error positions is unbounded and the outcome depended on uninitialised memory.',
 [C+'data_storage.cpp',C+'plugins_manager.cpp',C+'args.h'],
 [('row and stream validation',C+'data_storage.cpp load_data_from_text/load_data_from_binary')],
 ['alta::plugins_manager::load_data'])

p('R02','Damaged measured-format files are never taken for good data',
 'Loading a measured-material file (MERL, UTIA, ASTM, BRDF slice image) that was truncated, is missing, or whose storage fails in mid-read reports an error, or yields the complete undamaged dataset, but never a dataset with missing or invented samples; a text file (ASTM) with parts that were never written (zero bytes) is rejected. '
 'Whatever else the file contains, loading never corrupts memory and gives the same outcome whatever the memory contained before.',
 ['crash_points','fault_sequences','inputs'],
 'Every truncation point of every file a crashed writer can leave behind, every open or read error position, every memory content.',
 'The tests only load complete files, on storage that never fails.',
 [PL+'data_io/merl.cpp',PL+'data_io/utia.cpp',PL+'data_io/astm.cpp',PL+'data_io/slice.cpp',PL+'data_io/EXR_IO.h',PL+'data_interpolants/grid.cpp'],
 [('read validation in each loader','load_data of each data plugin')],
 ['alta::plugins_manager::load_data'])

p('R03','Damaged function files are never taken for a good model',
 'Loading a function file that was truncated, has parts that were never written (zero bytes), is missing, or whose storage fails in mid-read either reports an error (no model is returned) or, when all the information of the model is still there, returns exactly the saved model; it never returns a model with missing or invented parameters. '
 'Whatever else the file contains, loading never corrupts memory and gives the same outcome whatever the memory contained before.',
 ['crash_points','fault_sequences','inputs'],
 'Every truncation point of every function file of every model structure, every read error position, every memory content.',
 'The tests only load complete files; truncation points times model structures is far beyond what they sample.',
 [C+'plugins_manager.cpp',C+'function.cpp',C+'rational_function.cpp',PL+'nonlinear_function_lafortune/function.cpp',PL+'nonlinear_function_beckmann/function.cpp'],
 [('parse checks in the loaders',C+'function.cpp nonlinear_function::load, compound/product load; '+C+'rational_function.cpp load; plugin load overrides')],
 ['alta::plugins_manager::load_function'])

p('L01','Reading any file terminates',
 'Every operation that reads a file (loading a dataset of any format, loading a function, using a function file as the starting point of a fit) finishes within a number of steps proportional to the size of the file and the counts it announces, whatever the file contains, wherever it ends, and wherever reading it starts to fail.',
 ['inputs','crash_points','fault_sequences'],
 'All file contents obtained from valid files by truncation, line deletion, duplication and corruption, with read errors at any position; progress is demanded within a step budget after the last fault.',
 'A test that meets an endless loop just hangs on the one input it tried; the existing tests only read well-formed files.',
 [C+'args.h',C+'data_storage.cpp',C+'function.cpp',C+'rational_function.cpp',PL+'data_io/astm.cpp',C+'plugins_manager.cpp'],
 [('end-of-file tests in every parsing loop',C+'args.h parse_header, '+C+'function.cpp bootstrap/load, '+PL+'data_io/astm.cpp')],
 ['alta::plugins_manager::load_data','alta::plugins_manager::load_function','alta::nonlinear_function::bootstrap'])

p('L02','The command-line tools end, whatever they are told',
 'For every command line (options left out, repeated, unknown, misplaced, with missing, malformed or out-of-range values) and every content of its input files, a command-line tool comes to an end by itself: with an exit status or an announced error (an exception or assertion counts as announced), never by corrupting or reading memory that is not its own, never by waiting for ever and never by computing for ever, also when storage fails meanwhile. (Work that the command line itself asks for, such as a resolution of a thousand samples or an unlimited optimisation, is not held against it.)',
 ['inputs','configurations','fault_sequences'],
 'All sequences of words on the command line of all eight tools, all damages of the inputs, all storage faults, all memory contents; progress is demanded within a step budget.',
 'The tests run the tools with a handful of well-formed command lines on well-formed inputs.',
 [C+'args.h','sources/softs/data2brdf/main.cpp','sources/softs/data2data/main.cpp','sources/softs/brdf2data/main.cpp','sources/softs/brdf2gnuplot/main.cpp','sources/softs/data2moments/main.cpp',C+'plugins_manager.cpp',C+'data.h'],
 [('parsing of words and vectors',C+'args.h arguments(argc, argv), get_vec'),('checks of option values','sources/softs/*/main.cpp')],
 ['main of every tool'])

p('C02','The tools touch no file but the output they were asked for',
 'Whether a command-line tool succeeds, fails, meets storage faults or is killed at any point, every file other than the outputs named on its command line keeps its content (its inputs included), and no other file is made. A tool that fails because one of its inputs is not there leaves an older output file as it was.',
 ['fault_sequences','crash_points','configurations'],
 'Every tool, every generated command line and input, every storage fault and every point at which the process can be killed.',
 'The tests only look at the files they expect, after undisturbed runs.',
 ['sources/softs/data2data/main.cpp','sources/softs/data2brdf/main.cpp','sources/softs/brdf2brdf/main.cpp','sources/softs/brdf2gnuplot/main.cpp','sources/softs/brdf2data/main.cpp','sources/softs/data2stats/data2stats.cpp','sources/softs/fit2stat/fit2stat.cpp','sources/softs/data2moments/main.cpp',C+'data.cpp',C+'function.cpp'],
 [('output files are opened after the inputs are loaded','sources/softs/*/main.cpp'),('saves write straight to the named file',C+'data.cpp, '+C+'data_storage.cpp, '+C+'function.cpp')],
 ['the file tree before and after a tool'])

p('C01','The exit status of the command-line tools is truthful',
 'When a command-line tool (conversion, fitting, evaluation, statistics, plotting) exits with status zero, each output file it was asked for is there and holds exactly the bytes of an undisturbed run on the same inputs. '
 'When an input cannot be read or an output cannot be completely written, the tool ends with a non-zero status instead, without memory corruption.',
 ['fault_sequences','crash_points','configurations'],
 'Every fault (missing file or plugin, open, read, write and close errors, full disk, interrupted and short transfers) at every I/O operation of multi-tool pipelines.',
 'The tests check exit codes of undisturbed runs only.',
 [S+'data2data/main.cpp',S+'data2brdf/main.cpp',S+'brdf2data/main.cpp',S+'brdf2brdf/main.cpp',S+'brdf2gnuplot/main.cpp',S+'data2stats/data2stats.cpp',S+'fit2stat/fit2stat.cpp',S+'data2moments/main.cpp'],
 [('error paths of the tools',S+'*/main.cpp')],
 ['exit status and output files of the tools'])

p('E01','What a tool writes is what the library computes from its inputs',
 'Whenever a command-line tool reports success, the content of its output is the result the library defines for the inputs: '
 'data2data writes every sample of the input with its coordinates converted and its values kept (zeros for directions below the hemisphere, unless all values are asked for), or, for containers with samples of their own, the value of the input at each of them; '
 'brdf2data and brdf2gnuplot write the values of the function at the converted coordinates of every sample (or their difference to the data, or times the cosines, as asked for); '
 'data2brdf writes the function the fitter returns; brdf2brdf writes the function it loaded; '
 'data2stats and brdf2stats write the norms and errors of the differences between both inputs, data2moments the moments of the data. Nothing is dropped, repeated, reordered or taken from somewhere else.',
 ['inputs','configurations','fault_sequences'],
 'Every tool, input, option and disturbance of the disk that the tool survives with status zero.',
 'The tests check exit codes and the like of undisturbed runs; no test compares an output with what it should hold.',
 [S+'data2data/main.cpp',S+'data2brdf/main.cpp',S+'brdf2data/main.cpp',S+'brdf2brdf/main.cpp',S+'brdf2gnuplot/main.cpp',S+'data2stats/data2stats.cpp',S+'fit2stat/fit2stat.cpp',S+'data2moments/main.cpp',C+'metrics.cpp'],
 [('conversion with and without interpolation',S+'data2data/main.cpp'),('errors::compute',C+'metrics.cpp'),('norms and weighted errors',S+'fit2stat/fit2stat.cpp')],
 ['the content of the output files of the tools'])

p('M01','Results depend on the inputs only, not on leftover memory or timing',
 'Running the same loading, conversion, evaluation, fitting or saving steps on the same inputs produces identical results and output files, whatever the contents of freshly allocated or stack memory, the reading of the clocks, the sizes in which storage transfers complete, and whatever unrelated work the process did before. '
 'No step reads or writes memory it does not own.',
 ['configurations','schedules','histories'],
 'All contents of fresh memory, all clock readings, all transfer splittings, all prior histories of unrelated operations.',
 'A test process sees one memory image (often zeroes) and one clock; a dependency on leftovers shows up only under another image.',
 [C+'rational_function.cpp',C+'vertical_segment.h',PL+'rational_fitters/quadprog.cpp',PL+'rational_fitters/quadratic_program.h',PL+'rational_fitters/eigen.cpp',PL+'rational_fitters/leastsquare.cpp',PL+'nonlinear_fitter_eigen/fitter.cpp','external/quadprog++/QuadProg++.cc'],
 [('initialisation of all working storage','constructors and numeric kernels of core and plugins')],
 ['output files of the tools','alta::function::value','alta::fitter::fit_data'])

p('M02','Running out of memory never yields a false success or a memory error',
 'When any single memory allocation, or all allocations from some point on, fail during loading, evaluating, fitting or saving, the operation either reports an error (including an exception or abnormal termination) or completes with the same result as without the failure. '
 'It never returns a wrong result as a success and never accesses memory it does not own.',
 ['fault_sequences'],
 'Every allocation index of every workload as a one-shot failure, and every index as the start of a lasting failure.',
 'The tests never fail an allocation.',
 [C+'data_storage.cpp',C+'vertical_segment.cpp',C+'rational_function.cpp',PL+'data_io/merl.cpp',PL+'data_io/utia.cpp',PL+'data_interpolants/grid.cpp'],
 [('exception propagation and ownership','core and plugins')],
 ['alta::plugins_manager::load_data','alta::function::save','alta::fitter::fit_data'])

p('S01','The parallel rational fit does not depend on threads or schedule',
 'The parallel quadratic-programming rational fit gives, for the same data and options, the same outcome (success or failure, and the same fitted function) for every number of threads and every interleaving of them, and its threads never access shared data without synchronisation. '
 'A fit it reports as successful passes through all the vertical segments of the data.',
 ['schedules','inputs','configurations'],
 'All thread counts, all interleavings of the solver threads, all start orders and stalls of a thread, for generated datasets with and without a feasible fit.',
 'A test observes one schedule chosen by the operating system, usually with two threads on tiny data, and a tie or a race shows up in rare schedules only.',
 [PL+'rational_fitters/quadprog_parallel.cpp',PL+'rational_fitters/quadratic_program.h','external/quadprog++/QuadProg++.cc',C+'rational_function.cpp'],
 [('parallel loop over numerator/denominator sizes and its critical sections',PL+'rational_fitters/quadprog_parallel.cpp fit_data')],
 ['alta::fitter::fit_data','the fitted function file'])

p('S02','Parallel dataset conversion does not depend on threads or schedule',
 'Converting a dataset to another parametrization or grid on several threads gives, for every number of threads and every interleaving, the same output file, printed statistics and exit status as a sequential conversion. '
 'Its threads never access shared data without synchronisation, and every output sample is written exactly once.',
 ['schedules','inputs','configurations'],
 'All thread counts, all interleavings and stalls of the conversion threads, all source containers and target formats.',
 'A test observes one schedule; lost updates need a preemption at one particular instruction.',
 [S+'data2data/main.cpp',C+'params.cpp',PL+'data_io/merl.cpp',PL+'data_interpolants/rbf.cpp'],
 [('parallel loop over output samples',S+'data2data/main.cpp convert_with_interpolation')],
 ['output file and standard error of data2data'])

p('S03','Models and datasets can be evaluated concurrently',
 'Evaluating one BRDF model or reading and interpolating one dataset from several threads at once, through its read-only operations, returns to each thread exactly the values a single thread would get, for every interleaving. '
 'Independent models and datasets can also be created, loaded, evaluated and destroyed concurrently without affecting one another.',
 ['schedules','inputs'],
 'All interleavings of 2-4 threads running read-only operations (value, Jacobian, parameter query, sample access, interpolation) on each kind of model and dataset, and of threads working on their own objects.',
 'No test evaluates from several threads, and hidden caches or static scratch buffers fail only in rare interleavings.',
 [C+'function.cpp',C+'rational_function.cpp',C+'params.cpp',PL+'data_io/merl.cpp',PL+'data_interpolants/grid.cpp',PL+'data_interpolants/rbf.cpp',PL+'rational_function_legendre/rational_function.cpp'],
 [('const evaluation members without mutable shared state','value/valuesJacobian/get members')],
 ['alta::function::value','alta::data::value','alta::data::get'])

p('P01','Plugins are resolved by the documented search order, in any load order',
 'A plugin is taken from the first directory of the plugin search path that provides it (empty entries, including leading and trailing ones, and an unset or empty path meaning the installation directory), for every path, every placement of plugins and at every point in time at which the path or the directories change. '
 'Loading plugins in a different order, or loading unrelated plugins in between, never changes what any plugin does.',
 ['configurations','histories'],
 'All search paths (with empty, missing and duplicate entries), all placements of plugin files over the directories, all load orders and interleavings with unrelated loads.',
 'The tests run with one fixed single-directory path and load few plugins per process.',
 [C+'plugins_manager.cpp'],
 [('search path construction and library lookup',C+'plugins_manager.cpp plugin_search_path/open_library')],
 ['alta::plugins_manager::get_function','alta::plugins_manager::get_data','alta::plugins_manager::get_fitter'])

p('P02','A plugin that cannot be loaded is reported, never silently replaced',
 'When a requested plugin is missing, unreadable, or does not provide the requested kind of object, the search goes on with the next directory and, if none provides it, the request yields no object or an error: the caller never receives an object of some other kind and the process does not crash. '
 'This also holds for the components of compound and product models and for function files that name the plugin, and a later request succeeds once the plugin is available.',
 ['fault_sequences','configurations','histories'],
 'All patterns of missing, corrupt and wrong-kind plugin files and transient loader errors over the search directories, for every request kind and nesting.',
 'The tests never remove or damage a plugin.',
 [C+'plugins_manager.cpp',C+'function.cpp'],
 [('null handling after a failed lookup',C+'plugins_manager.cpp get_function/get_data/get_fitter/load_data/load_function')],
 ['alta::plugins_manager::get_function','alta::plugins_manager::load_data','alta::plugins_manager::load_function'])

p('T01','Reported durations are the elapsed running time',
 'The duration a stopped timer reports equals the total monotonic time during which it ran since its last reset, to one second per running interval, over any alternation of starts and stops with resets in between, and it is printed with the right number of hours, minutes (below 60) and seconds (below 60). '
 'Jumps of the wall clock have no influence on them.',
 ['histories','fault_sequences'],
 'All alternations of start and stop with resets and queries in between, all durations from zero to days, all wall-clock jumps and stalls of the process between any two operations.',
 'No test waits for hours, jumps the clock, or restarts a timer.',
 [C+'common.h',C+'common.cpp'],
 [('timer class',C+'common.h/common.cpp timer')],
 ['alta::timer'])

p('B01','Scattered-data interpolation is right for every random choice it makes',
 'Interpolating scattered samples uses randomised search structures; for every seed of that randomness the result within the region the samples span is finite, lies within the range of the stored values, and equals the stored value when asked exactly at a stored, isolated sample of a small dataset that shares no coordinate with another one. '
 'It is never built from memory outside the samples, and every stored sample can be read back as it was given.',
 ['schedules','inputs'],
 'All seeds of the process-wide random generator and all prior consumption of it, all sample sets and query points.',
 'A test process always starts from the same default random seed.',
 [PL+'data_interpolants/rbf.cpp'],
 [('nearest-neighbour search with weighted averaging',PL+'data_interpolants/rbf.cpp value')],
 ['alta::data::value'])

p('X01','A failed operation leaves nothing behind',
 'After any load, save or plugin request that failed or succeeded, no file stays open, and every later operation of the same process, on the same or other objects, gives the result it would give in a new process. '
 'A failed load or save leaves the other objects already in memory and the files it was not asked to write unchanged.',
 ['histories','fault_sequences'],
 'All interleavings of successful and failing loads, saves, evaluations and plugin requests over several live objects and files, with a fault at any operation.',
 'The tests run one operation per process and none fails.',
 [C+'plugins_manager.cpp',C+'data.cpp',C+'function.cpp',PL+'data_io/merl.cpp',PL+'data_io/astm.cpp',PL+'data_interpolants/grid.cpp'],
 [('scoped ownership of streams and objects','core and plugins')],
 ['open descriptors','results of subsequent operations'])

p('X02','Work that is over keeps nothing',
 'A process that repeats the same work (building, evaluating, saving and loading models; loading, querying, converting and saving datasets of any format; fits; requests for plugins and files that do not exist; loads of damaged files; saves and loads that fail because of the storage or the loader) and drops the objects it got, holds no more memory and no more open files after each further repetition than before it, whether the work succeeds or fails.',
 ['histories','fault_sequences','inputs'],
 'All sequences of successful and failing operations, repeated any number of times, over all models, formats and fitters, with a storage or loader fault at any operation of each repetition.',
 'The tests run one short operation per process and never look at what it still holds.',
 [C+'rational_function.cpp',C+'rational_function.h',C+'plugins_manager.cpp',C+'vertical_segment.cpp',C+'data_storage.cpp',PL+'data_io/EXR_IO.h',PL+'data_io/utia.cpp',PL+'data_io/merl.cpp',PL+'data_io/slice.cpp',PL+'data_interpolants/rbf.cpp',PL+'nonlinear_fitter_nlopt/fitter.cpp'],
 [('ownership by smart pointers, destructors and explicit releases','core and plugins')],
 ['memory held by the process','open descriptors'])

p('K01','A save that dies half-way harms nothing else and can be repeated',
 'When a process is killed at any point of saving a dataset or a model, or of running a tool, every file it was not asked to write is unchanged, what it leaves behind is never read back as different data or another model (a reader fails, finds nothing, or finds what was being saved; from a text dataset it may find the samples that had been written), '
 'and repeating the same save or tool run in a new process succeeds and gives the file an undisturbed run gives, whatever the dead process left.',
 ['crash_points','fault_sequences','inputs','histories'],
 'All saves in every format and all tool runs, all points of all I/O operations (with any part of the transfer done), one or two deaths in a row, with or without an older file at the destination, and with a power loss that keeps any prefix of the unsynchronised file.',
 'No test kills a process during a save, and none reads what such a process leaves behind.',
 [C+'data.cpp',C+'data_storage.cpp',C+'function.cpp',PL+'data_io/merl.cpp',PL+'data_io/utia.cpp',PL+'data_io/slice.cpp',PL+'data_interpolants/grid.cpp',S+'data2data/main.cpp',S+'brdf2data/main.cpp'],
 [('truncating writers',C+'data.cpp data::save, '+C+'function.cpp function::save'),('completeness checks of the readers',C+'data_storage.cpp and the plugins')],
 ['files after the death','alta::plugins_manager::load_data','alta::plugins_manager::load_function','repeated saves'])

p('Y01','A Python script never gets a wrong result without an exception',
 'A script over the Python module (models, function files, datasets, conversions, comparisons, evaluations, fits, vectors) that meets a failing disk, a missing or damaged file, a plugin that does not load or memory that cannot be had, either gets an exception (or None, or False, where the module documents it), or sees the same values and leaves the same files as the undisturbed script; and its results do not depend on what fresh memory contained.',
 ['fault_sequences','inputs','histories'],
 'All scripts over the functions and methods the module registers, every storage, loader and allocation fault at every operation, all prior contents of fresh memory.',
 'The Python tests run two scripts in an undisturbed process and check that they do not raise.',
 ['sources/python/alta.cpp',C+'plugins_manager.cpp',C+'function.cpp',C+'data.cpp',C+'metrics.cpp'],
 [('functions and methods registered with the interpreter','sources/python/alta.cpp register_*, load_*, data2data, brdf2data, data2stats')],
 ['values returned to the script','exceptions','files saved by the script'])

p('E02','What a Python script computes is what the library computes',
 'Throughout any script over the Python module, every statement does what it is defined to do on the objects as the earlier statements left them: the sum (product) of two functions has as values the sums (products) of theirs at the same directions and as parameters theirs one after the other, and stays alive and connected to them; set and get, save and load, load_function and load_data give the objects and files the library gives; '
 'data2data converts every sample and keeps its values, brdf2data stores at every sample the value of the function at its converted coordinates in all outputs, data2stats gives the norms of the differences, fit_data the function the fitter finds with the given options (or the default ones); vectors behave as lists of numbers. A statement that is refused raises an exception or returns None and changes nothing.',
 ['histories','inputs','configurations'],
 'All histories of statements over the functions and methods the module registers, all objects alive, shared or dropped meanwhile, all prior contents of fresh memory and sizes of disk transfers.',
 'The Python tests run a few fixed statements and check that they do not raise.',
 ['sources/python/alta.cpp','sources/python/wrapper_vec.h','sources/python/wrapper_data.h','sources/python/wrapper_args.h',C+'function.cpp',C+'metrics.cpp'],
 [('operators, conversions and wrappers','sources/python/alta.cpp add_function, mult_function, data2data, brdf2data, data2stats, fit_data_*')],
 ['values returned to the script','files saved by the script'])

p('F01','A fit that is reported as successful is a fit',
 'Whenever a fitter reports success: every coefficient or parameter it leaves in the function is a finite number; the quadratic-programming fit passes through the interval of every sample; the rational least-squares and eigenvalue fits of samples that a function of the requested form and size matches exactly match those samples; a non-linear fit leaves every parameter within the bounds of the model, is not farther from the data than the starting point, and leaves the components marked as fixed unchanged. The data are never modified. This holds whatever the fitter object was used for before, including a fit that ran out of memory.',
 ['histories','inputs','fault_sequences'],
 'All sequences of fits with new and reused fitter objects, all models, sizes, options and data (degenerate ones included), all prior contents of fresh memory, allocation failures in earlier fits.',
 'The fitting tests run each fitter once on one well-behaved dataset and check that the tool ends with status 0.',
 [PL+'rational_fitters/leastsquare.cpp',PL+'rational_fitters/eigen.cpp',PL+'rational_fitters/quadprog.cpp','external/quadprog++/QuadProg++.cc',PL+'nonlinear_fitter_eigen/fitter.cpp',PL+'nonlinear_fitter_ceres/fitter.cpp',PL+'nonlinear_fitter_nlopt/fitter.cpp',C+'function.cpp'],
 [('fitting entry point of each plugin','fit_data'),('working-set scheduling of the solver','external/quadprog++/QuadProg++.cc solve_quadprog_with_guess'),('parameters a search may change','sources/core/function.cpp compound_function, product_function')],
 ['status of fit_data','parameters of the function','its values at the samples','the data'])
# --- not applicable to the technique: pure functions of their input
def na(id,title,stmt,files,mech):
    p(id,title,stmt,['inputs'],'All directions / parameter vectors / data sets.',
      'They sample a handful of points of a continuous domain.',files,mech)
na('N01','Parametrization conversions are mutually inverse',
 'Converting a pair of directions from one parametrization to another and back yields the same directions, up to rounding, wherever both parametrizations are defined.',
 [C+'params.cpp'],[('conversion formulas',C+'params.cpp')])
na('N02','Analytic Jacobians are the derivatives of the model values',
 'For every model, the Jacobian with respect to its parameters equals the derivative of its value.',
 [C+'function.cpp',PL+'nonlinear_function_beckmann/function.cpp'],[('parametersJacobian of each model','plugins')])
na('N03','Error metrics match their definitions',
 'The reported norms and error statistics equal their mathematical definitions over the data.',
 [C+'metrics.cpp',C+'common.h'],[('norm computations',C+'metrics.cpp')])
na('N04','The quadratic-program solver returns the minimiser',
 'Whenever the solver reports success, no other point that satisfies all constraints has a smaller objective (that the point satisfies the constraints is part of F01).',
 ['external/quadprog++/QuadProg++.cc'],[('dual active-set method','external/quadprog++')])
na('N05','Command lines and file headers parse as documented',
 'Every command line and file header yields exactly the key/value pairs the documentation defines.',
 [C+'args.h'],[('argument parser',C+'args.h')])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: f.write(json.dumps(d)+'\n')

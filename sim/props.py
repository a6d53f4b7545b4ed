CORE = 'the whole core library (data, data_storage, vertical_segment, params, function, rational_function, plugins_manager, args)'
NOTE = 'Seeded search over whole simulated executions of the real code; every violation is confirmed by two replays in fresh processes and minimised. Sampling, not exhaustion. Trusts the simulator (libc, allocator, loader and scheduler stand-ins) and the oracle stated in DESIGN.md.'
MODELS = ['nonlinear_function_' + x for x in 'abc beckmann blinn diffuse lafortune retrobeckmann retroblinn retroyoo sgd spherical_gaussian ward'.split()] + ['nonlinear_fresnel_schlick', 'nonlinear_fresnel_normalized_schlick', 'nonlinear_fresnel_retroschlick', 'nonlinear_shadowing_schlick', 'nonlinear_shadowing_smith', 'nonlinear_shadowing_walter_smith', 'rational_function_legendre', 'rational_function_chebychev', 'rational_function_cosine']
MODELSR = 'all 20 model plugins (11 lobes, 3 Fresnel, 3 shadowing, 3 rational families)'
FORMATS = ['data_grid', 'data_brdf_slice', 'data_utia', 'data_merl', 'data_astm']
FORMATSR = 'the data plugins merl, utia, astm, brdf_slice (with the bundled tinyexr) and grid'
SOFTS = 'brdf2brdf brdf2data brdf2gnuplot brdf2stats data2brdf data2data data2stats data2moments'.split()
FITTERS = ['rational_fitter_leastsquare', 'rational_fitter_eigen', 'rational_fitter_quadprog', 'nonlinear_fitter_eigen', 'nonlinear_fitter_ceres', 'nonlinear_fitter_nlopt']
FITTERSR = 'six fitter plugins (rational least squares, eigen and quadratic programming; nonlinear Eigen, Ceres and NLopt; the Ceres and NLopt libraries themselves are linked as installed)'
PROPS = {
 'D01': dict(work=['d01.cpp'], runs=(34000, 600000), real=[CORE], tech='save/restart/reload histories over a virtual disk with short, interrupted and capped transfers and seeded memory images, against the saved dataset', note=NOTE,
   rule='One run = a random dataset (dimensions, parametrizations, interval kind, values), saved by one process life and reloaded (and re-saved) by 1-3 further lives under random memory images and transfer splittings. Non-trivial: the save completed, so that something was reloaded.'),
  'D03': dict(work=['d03.cpp'], plugins=MODELS, runs=(34000, 400000), real=[CORE, MODELSR], tech='build/save/restart/reload/re-save histories of random models (single, product, compound, rational) over a virtual disk with short, interrupted and capped transfers and seeded memory images, several files loaded in random order in one process, against the saved model', note=NOTE,
    rule='One run = 1-3 random models with random parameters, saved by one process life, reloaded in random order (some repeatedly, some kept alive) and saved again by 1-2 further lives; parameters, dimensions, parametrizations and values at 6 directions are compared. Non-trivial: all reloads completed.'),
  'W02': dict(work=['w02.cpp'], plugins=MODELS, runs=(36000, 400000), real=[CORE, MODELSR], tech='saves and exports of random models to a virtual disk with full-disk, failing and torn writes, failing opens and closes at random points, against the bytes of the undisturbed save', note=NOTE,
    rule='One run = one random model and export language, saved undisturbed and then 1-3 times under a random storage fault (over no, a short, or a longer previous file; sometimes followed by a second save in the same process). Non-trivial: an injected fault took effect.'),
  'R01': dict(work=['r01.cpp'], runs=(30000, 400000), real=[CORE], tech='loads of damaged native dataset files (cut, lost, stale and garbled ranges, unreadable sectors, failing opens and reads) under two memory images each, against a reference reading of the damaged bytes', note=NOTE,
    rule='One run = a random dataset saved as text (with or without intervals) or binary, damaged in 1-4 ways and loaded back twice per damage under different memory images and transfer splittings. Non-trivial: a damaged file or an effective read fault was loaded.'),
  'R03': dict(work=['r03.cpp'], plugins=MODELS, runs=(26000, 400000), real=[CORE, MODELSR], tech='loads of damaged function files (cut, lost, stale and garbled ranges, unreadable sectors, failing opens and reads) under two memory images each, against the undamaged model', note=NOTE,
    rule='One run = a random model (single, product, compound, rational) saved to a function file that is damaged in 1-4 ways and loaded back twice per damage under different memory images and transfer splittings. Non-trivial: a damaged file or an effective read fault was loaded.'),
 'D02': dict(work=['d02.cpp'], plugins=FORMATS, runs=(4000, 60000), real=[CORE, FORMATSR], tech='save/restart/reload histories of measured-format containers over a virtual disk with short, interrupted and capped transfers and seeded memory images, against the saved dataset', note=NOTE,
    rule='One run = one random container (grid, slice image, UTIA raw or image, MERL), filled through its interface or loaded from a generated file, saved by one process life and reloaded (and re-saved) by 1-3 further lives. Non-trivial: all reloads completed.'),
 'W01': dict(work=['w01.cpp'], plugins=FORMATS, runs=(5000, 150000), real=[CORE, FORMATSR], tech='saves of random datasets in all output formats to a virtual disk with full-disk, failing and torn writes, failing opens and closes at random points, against the bytes of the undisturbed save', note=NOTE,
    rule='One run = one random dataset saved as text, binary or in a measured format, undisturbed and then 1-3 times under a random storage fault (over no, a short, or a longer previous file; sometimes followed by a second save in the same process). Non-trivial: an injected fault took effect.'),
 'R02': dict(work=['r02.cpp'], plugins=FORMATS, runs=(6000, 120000), real=[CORE, FORMATSR], tech='loads of damaged measured-format files (cut, lost, stale and garbled ranges, damaged headers, unreadable sectors, failing opens and reads) under two memory images each, against the undamaged dataset', note=NOTE,
    rule='One run = one generated MERL, UTIA (raw or image), BRDF slice or ASTM file, damaged in 1-5 ways and loaded back twice per damage under different memory images and transfer splittings. Non-trivial: a damaged file or an effective read fault was loaded.'),
 'L01': dict(work=['l01.cpp'], plugins=MODELS + FORMATS, runs=(16000, 250000), real=[CORE, MODELSR, FORMATSR], tech='loads of arbitrary files (valid files with lost, stale and garbled ranges and inserted text, token soups, noise, files of another format) under failing reads, with a step budget proportional to the size of the file', note=NOTE,
    rule='One run = one file put through 1-5 damages, each read by one randomly chosen reader (native datasets, BRDF slice, ASTM, UTIA raw and image, MERL, function files, starting points of fits). Non-trivial: at least one read was made.'),
  'L02': dict(work=['l02.cpp'], plugins=MODELS + FORMATS + ['rational_fitter_leastsquare', 'rational_fitter_eigen', 'rational_fitter_quadprog', 'nonlinear_fitter_eigen', 'nonlinear_fitter_nlopt'], softs=SOFTS, runs=(18000, 400000), real=[CORE, MODELSR, FORMATSR, 'five fitter plugins', 'the eight command-line tools built by CMake'], tech='runs of the command-line tools with left-out, repeated, swapped, unknown and malformed options and odd values, on valid and damaged inputs, over failing storage and under random memory images, with a step budget', note=NOTE,
    rule='One run = one random tool invocation run 1-3 times with up to three changes of its command line, sometimes on damaged inputs or under a storage fault. Non-trivial: at least one tool was run.'),
 'P01': dict(work=['p01.cpp'], plugins=MODELS + FORMATS + ['rational_fitter_leastsquare', 'rational_fitter_eigen', 'nonlinear_fitter_nlopt'], runs=(30000, 250000), real=[CORE, MODELSR, FORMATSR, 'three fitter plugins'], tech='histories of plugin requests while the search path and a simulated plugin tree change, against a reference search; and the same work done alone and after loading other plugins in random order, bit for bit', note=NOTE,
    rule='One run = either a history of 2-10 requests, path changes and plugin installations or removals over seven directories, or one plugin use compared between a fresh process and one that loaded and used 1-4 others before. Non-trivial: a request was answered by a plugin, or the comparison was made.'),
 'T01': dict(work=['t01.cpp'], runs=(200000, 600000), real=['the timer of the core library'], tech='histories of starts, stops, resets, reports, clock advances and wall-clock jumps of several timers on a simulated clock, against the exact simulated running time', note=NOTE,
    rule='One run = 4-40 operations on 1-3 timers; every report after a stop (number and both printed forms) is compared with the simulated time. Non-trivial: a timer that had run was reported.'),
 'P02': dict(work=['p02.cpp'], plugins=MODELS + ['data_astm', 'data_brdf_slice', 'data_grid', 'rational_fitter_leastsquare', 'rational_fitter_eigen', 'nonlinear_fitter_nlopt'], runs=(40000, 300000), real=[CORE, MODELSR, 'data_astm, data_brdf_slice, data_grid', 'three fitter plugins'], tech='histories of plugin requests (models, products, compounds, function files, datasets, fitters) while plugins in three directories are missing, unreadable, without the wanted symbol, of another kind, or become available, against a reference search', note=NOTE,
    rule='One run = 3-9 initial plugin states and 2-10 requests or changes of the simulated plugin tree. Every request is compared (types of all components) with what the first usable directory provides; a refused one must give no object or an exception, without ending the process. Non-trivial: at least one request was answered or refused as expected.'),
 'C01': dict(work=['c01.cpp'], plugins=MODELS + FORMATS + ['rational_fitter_leastsquare', 'rational_fitter_eigen', 'rational_fitter_quadprog', 'nonlinear_fitter_nlopt'], softs=SOFTS, runs=(24000, 250000), real=[CORE, MODELSR, FORMATSR, 'four fitter plugins', 'the eight command-line tools built by CMake'], tech='runs of the command-line tools on generated inputs over a virtual disk with full-disk, failing and torn writes, failing opens, reads and closes, missing, cut and unreadable inputs, against an undisturbed run', note=NOTE,
    rule='One run = one random tool invocation with generated inputs, run undisturbed and then 1-3 times under a disturbance; exit status and output bytes are compared. Non-trivial: a disturbance took effect.'),
   'C02': dict(work=['c02.cpp'], plugins=MODELS + FORMATS + ['rational_fitter_leastsquare', 'rational_fitter_eigen', 'rational_fitter_quadprog', 'nonlinear_fitter_nlopt'], softs=SOFTS, runs=(20000, 250000), real=[CORE, MODELSR, FORMATSR, 'four fitter plugins', 'the eight command-line tools built by CMake'], tech='runs of the command-line tools among bystander files, undisturbed, under storage faults, killed at random points and without one of their inputs, against the file tree they started from', note=NOTE,
    rule='One run = one random tool invocation with generated inputs and up to six bystander files, run undisturbed and 1-3 times disturbed; after each, every file but the requested output is compared, and new files are looked for. Non-trivial: at least one tool was run.'),
 'M01': dict(work=['m01.cpp'], plugins=MODELS + FORMATS + FITTERS, softs=SOFTS, runs=(24000, 300000), real=[CORE, MODELSR, FORMATSR, FITTERSR, 'the eight command-line tools built by CMake'], tech='the same library and tool work under random memory images, clocks, random seeds, transfer splittings and prior work, against the same work in a zeroed undisturbed process, bit for bit', note=NOTE,
    rule='One run = one random unit of work (model, measured container, native dataset, fit with one of six fitters, or a command-line tool), done once in a plain process and 1-2 times under a random environment, possibly after up to three other units of work. Non-trivial: results were produced and compared.'),
  'M02': dict(work=['m02.cpp'], plugins=MODELS + FORMATS + FITTERS, softs=SOFTS, runs=(14000, 300000), real=[CORE, MODELSR, FORMATSR, 'four fitter plugins (rational least squares, eigen, quadratic programming, nonlinear Eigen)', 'the eight command-line tools built by CMake'], tech='library and tool work in which one allocation, or all from one on, fail, against the same work with memory, including a second attempt after a failed one', note=NOTE,
    rule='One run = one random unit of work (model, measured container, native dataset, fit, or a command-line tool), done once undisturbed and 1-5 times with failing allocations. Non-trivial: an allocation was refused.'),
 'S01': dict(work=['s01.cpp'], plugins=['rational_fitter_parallel', 'rational_function_legendre', 'rational_function_chebychev', 'rational_function_cosine'], runs=(2400, 150000), mt=True, real=[CORE, 'the rational families', 'the parallel quadratic-programming fitter and its solver'], tech='the parallel rational fit run by a seeded scheduler that owns every OpenMP construct, lock and atomic and can preempt at every memory access, with a happens-before race detector, against the same fit on one thread', note=NOTE,
    rule='One run = one random fitting problem, solved on one thread and 1-3 times on 2-8 threads under random schedules (uniform, round robin, stalled thread, late start, changing priorities); the result, its saved file and the intervals of the data are compared. Non-trivial: threads were interleaved and the results compared.'),
 'S02': dict(work=['s02.cpp'], plugins=['data_brdf_slice', 'data_utia', 'data_merl', 'sim_samples'], softs=['data2data'], runs=(3600, 150000), mt=True, real=[CORE, 'the data2data tool', 'the data plugins merl, utia, brdf_slice; in most runs the output container is a small one of the simulator that counts the writes'], tech='the parallel conversion of data2data run by a seeded scheduler that owns every OpenMP construct, lock and atomic and can preempt at every memory access, with a happens-before race detector, against the same conversion on one thread', note=NOTE,
    rule='One run = one random measured input converted to random samples of a random parametrization (or to a whole slice or UTIA container), on one thread and 1-3 times on 2-8 threads under random schedules; output bytes, printed statistics, exit status and the number of writes of each sample are compared. Non-trivial: threads were interleaved and the outputs compared.'),
 'S03': dict(work=['s03.cpp'], plugins=MODELS + FORMATS + ['data_rbf'], runs=(9000, 200000), mt=True, real=[CORE, MODELSR, FORMATSR, 'the scattered-data plugin (with FLANN as installed)'], tech='read-only operations on one shared object, and whole load/evaluate/save jobs on separate objects, run by 2-4 threads of a seeded scheduler that can preempt at every memory access, with a happens-before race detector, against the same operations on one thread', note=NOTE,
    rule='One run = one random model, measured container, native or scattered dataset whose read-only operations 2-4 threads call in random order, or 2-4 threads each making, saving and reloading objects of their own; every result is compared bit for bit with one thread doing the same. Non-trivial: threads were interleaved and the results compared.'),
 'B01': dict(work=['b01.cpp'], plugins=['data_rbf'], runs=(24000, 400000), real=[CORE, 'the scattered-data plugin with FLANN as installed (its randomised kd-trees are header code compiled and instrumented with it)'], tech='scattered-data interpolation under seeded randomness (rand, std::random_device), memory images, transfer splittings and histories of several interpolants, against range, exactness and weighted-average oracles', note=NOTE,
    rule='One run = 1-3 random sample sets saved and loaded through the interpolation plugin in 2-4 process lives with different seeds of the randomness and prior consumption of it; stored samples read back, answers to 1-12 queries per set checked. Non-trivial: queries were answered.'),
 'X01': dict(work=['x01.cpp'], plugins=MODELS + FORMATS + FITTERS, runs=(14000, 300000), real=[CORE, MODELSR, FORMATSR, FITTERSR], tech='histories of loads, saves, fits and plugin requests that fail by storage faults, full disks, damaged or missing files, refused allocations and loader errors, followed by undisturbed work, against the same work in a new process', note=NOTE,
    rule='One run = up to two objects held by the process, 1-3 operations each usually disturbed, then saves of the held objects and one more operation (new or a retry), compared with processes that do only those. Non-trivial: the process survived the disturbed operations and the later work was compared.'),
 'X02': dict(work=['x02.cpp'], plugins=MODELS + FORMATS + FITTERS + ['data_rbf'], runs=(18000, 400000), real=[CORE, MODELSR, FORMATSR, FITTERSR, 'the scattered-data plugin (with FLANN as installed)'], tech='histories of successful and failing work (storage and loader faults, damaged and missing files) repeated seven times in one process on a simulated heap and disk, under seeded memory images and transfer sizes; after a warm-up what the process holds must stop growing', note=NOTE,
    rule='One run = 1-2 operations (jobs on models, formats, fits or native data, saves of a held object, loads of files that may be damaged, requests for missing things), each optionally with a fault at a random I/O or loader operation of every repetition, repeated seven times. A run fails when every one of the last four repetitions leaves more blocks, more bytes or more descriptors. Non-trivial: the process survived all repetitions.'),
 'K01': dict(work=['k01.cpp'], plugins=MODELS + FORMATS, softs=[x for x in SOFTS if x != 'data2brdf'], runs=(14000, 250000), real=[CORE, MODELSR, FORMATSR, 'seven of the command-line tools built by CMake'], tech='saves and tool runs killed at a random point of a random I/O operation (once or twice, with part of the transfer done, sometimes with a power loss that cuts the file), followed by loads and by a repetition in new processes, against undisturbed saves', note=NOTE,
    rule='One run = one random object saved over no or an older file, or one tool invocation, killed 1-2 times in 1-3 variants, then read back and repeated. Non-trivial: a process was killed during the operation.'),
 'Y01': dict(work=['y01.cpp'], plugins=MODELS + FORMATS + ['rational_fitter_leastsquare', 'rational_fitter_eigen', 'rational_fitter_quadprog', 'nonlinear_fitter_eigen'], softs=['python'], runs=(24000, 250000), real=[CORE, MODELSR, FORMATSR, 'four fitter plugins', 'the Python module (sources/python), compiled against a stand-in for pybind11 and CPython'], tech='scripts over the functions and methods the Python module registers, under failing storage, full disks, missing and damaged files, refused allocations, loader errors and random memory images, against the undisturbed script statement by statement', note=NOTE,
    rule='One run = one random script (models, function files, datasets, comparison, evaluation, fit, vectors), run undisturbed and then 1-3 times disturbed. Non-trivial: a disturbance took effect, or the script was repeated under another environment.'),
 'D04': dict(work=['d04.cpp'], plugins=['data_astm'], runs=(30000, 600000), real=[CORE, 'the data plugin astm'], tech='loads of generated text, binary and ASTM files in many written forms and with loading options, several per process, over a virtual disk with short, interrupted and capped transfers and seeded memory images, against an independent reading of the format', note=NOTE,
    rule='One run = 1-3 files, each in a random form the format permits (header order, comments, blank lines, line ends, number notations, interval columns, options), loaded in random order (some repeatedly, some kept alive) by one process life. Non-trivial: all loads completed.'),
 'D05': dict(work=['d05.cpp'], plugins=FORMATS, runs=(12000, 200000), real=[CORE, FORMATSR], tech='histories of changes, look-ups, saves and restarts of measured-format containers over a virtual disk with short, interrupted and capped transfers and seeded memory images, against a map from samples to values', note=NOTE,
    rule='One run = one container (MERL, UTIA, UTIA image, BRDF slice, grid), new or loaded from a generated file, put through 1-3 lives of 1-25 operations each (setting, reading, looking up at, around, between and outside of samples), saved and reloaded in between. Non-trivial: all answers were compared.'),
 'E01': dict(work=['e01.cpp'], plugins=MODELS + FORMATS + ['rational_fitter_leastsquare', 'rational_fitter_eigen', 'rational_fitter_quadprog', 'nonlinear_fitter_nlopt'], softs=SOFTS, runs=(20000, 250000), real=[CORE, MODELSR, FORMATSR, 'four fitter plugins', 'the eight command-line tools built by CMake'], tech='runs of the command-line tools, undisturbed, in random environments and under storage faults, whose output files are read back and compared with what the library computes from the same inputs', note=NOTE,
    rule='One run = one random tool invocation with generated inputs, run once undisturbed and up to twice disturbed; whenever it reports success its output is parsed and compared, number by number, with the expected result. Non-trivial: an output was compared.'),
 'E02': dict(work=['e02.cpp'], plugins=MODELS + FORMATS + ['rational_fitter_leastsquare', 'rational_fitter_eigen', 'rational_fitter_quadprog', 'nonlinear_fitter_eigen'], softs=['python'], runs=(24000, 250000), real=[CORE, MODELSR, FORMATSR, 'four fitter plugins', 'the Python module (sources/python), compiled against a stand-in for pybind11 and CPython'], tech='random histories of statements over the functions and methods the Python module registers (several objects alive, shared and dropped, files written and read back, refused statements in between), under random environments and memory images, against the same history over definitions of those statements in terms of the library', note=NOTE,
    rule='One run = one random script of 3-30 statements, played by the module and by the definitions in two process lives; results of all statements, final state of all objects, and all files are compared. Non-trivial: at least three results were compared.'),
 'F01': dict(work=['f01.cpp'], plugins=MODELS + FITTERS, runs=(34000, 300000), real=[CORE, MODELSR, FITTERSR], tech='histories of one to three fits, with new and reused fitter objects, under random memory images, against the bounds, intervals, fixed components and starting distance of each fit', note=NOTE,
    rule='One run = 1-3 random fitting problems (some degenerate, some exactly solvable, the first one possibly cut short by an allocation failure) solved in one process. Non-trivial: a fit was reported as successful and judged.'),
}
PURE = 'Pure function of its arguments: no time, I/O, randomness, concurrency, fault or history that a simulator could control or vary takes part, so deterministic simulation has nothing to decide here (it would degenerate into plain input sampling).'
NA = dict(N01=PURE, N02=PURE, N03=PURE, N04=PURE, N05=PURE + ' What happens to headers on a damaged or slow disk is decided by D01-D03, R01-R03 and L01.')

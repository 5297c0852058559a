# executed by meta.py
STEP = ('A step that fails (I/O error, full disk, memory error, failing worker) raises, leaves no open file, no worker and no changed input, and repeating it succeeds with the complete result.')

prop('P04', 'Chunked reads deliver every event exactly once, whole and in order',
     'Reading an event-ordered table in event-aligned chunks delivers every row of the selected event or index range exactly once, in order, never splits an event over two chunks, and reports the index at which the chunk ends, for every chunk size and with or without an index-accelerated lookup. '
     'A reader that stops or fails after any chunk and continues at the last reported index misses and repeats nothing; adjacent ranges tile the table. '
     'An event that does not fit into a chunk is refused with an error instead of being cut.',
     ['inputs', 'configurations', 'histories', 'fault_sequences'],
     'all event-ordered tables (gaps, 64 bit event numbers, empty), all start/stop event numbers and indices, all chunk sizes, all histories of stopped, failed and resumed reads',
     'Every analysis step rests on this reader; the tests call it with one chunk size and full range, and never resume a read.',
     [AU], [('event aligned chunk loop', AU + ':data_aligned_at_events'), ('start/stop lookup', AU + ':get_data_in_event_range')],
     ['sequence of delivered chunks and indices'], level='fault_enumeration',
     level_note=SAMPLED + 'The fault is a failing table read or a consumer that stops; no concurrency is involved in a single read.')

prop('P05', 'Clustering conserves hits and does not depend on chunks or schedule',
     'Clustering a hit table assigns every unmasked hit accepted by the cuts to exactly one cluster of its own event, and charge, size, seed, position and shape of each cluster follow from these hits; the number of clusters per event is stored with each of them. '
     'Clusters, clustered hits and histograms do not depend on the chunk size, the number of cores or the schedule. ' + STEP,
     ['inputs', 'schedules', 'configurations', 'fault_sequences', 'crash_points'],
     'all event-ordered hit tables without duplicate pixels in an event, clustering parameters, coordinates given as indices or positions, chunk sizes, core counts, schedules, and single faults or process deaths at any step',
     'The tests cluster one data file with fixed settings; event boundaries that coincide with chunk boundaries, a second chunk on one core or an empty file are not reached.',
     [HA, SMC], [('cluster function per chunk', HA + ':cluster_hits'), ('parallel application', SMC + ':SMC')], ['cluster table, cluster hit table and histograms of the output file'], level='fault_enumeration',
     level_note=SAMPLED + 'The clusters are compared with a brute-force clustering (connected hits within the distances, seed by charge).')

prop('P06', 'Pixel masks are a function of the hits alone',
     'The occupancy counts each hit once, and the stored masks of disabled and noisy pixels are exactly those that the documented rule selects from the occupancy of the whole file. '
     'They do not depend on the chunk size, the number of cores or the schedule. ' + STEP,
     ['inputs', 'schedules', 'configurations', 'fault_sequences', 'crash_points'],
     'all hit tables inside the pixel matrix, masking parameters, chunk sizes, core counts, schedules, and single faults or process deaths at any step',
     'The tests mask one data file with one chunk size; occupancies of partial chunks only go wrong when chunks are reduced in another order or number.',
     [HA, SMC], [('occupancy histogram per chunk', HA + ':mask_pixels'), ('histogram sum', SMC + ':SMC')], ['masks and occupancy of the output file'], level='fault_enumeration', level_note=SAMPLED)

prop('P07', 'The hit file check is exact and refuses unordered files at every chunk size',
     'The histograms of a hit file check (events per step, hits per event, event deltas, hit positions, event-by-event correlations) equal those computed from the whole table, for every chunk size, resolution and event range. '
     'A file whose event numbers decrease anywhere or whose hits lie outside the sensor is reported, wherever the offending row lies relative to chunk borders. ' + STEP,
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'all hit and cluster tables (ordered, or with one decreasing event number or one hit off the sensor), event ranges, resolutions, chunk sizes, single faults or process deaths',
     'The existing tests check one good file; errors sit on chunk borders (last event of a chunk against first of the next).',
     [HA], [('chunk loop with carried last event number', HA + ':check_file')], ['output histograms', 'raised error'], level='fault_enumeration',
     level_note=SAMPLED + 'Single-threaded; the simulation controls chunking, I/O faults and process death.')

prop('P08', 'Plane correlations count every hit pair of an event exactly once',
     'For every pair of reference plane and other plane, the correlation histograms in both directions hold exactly one entry for each pair of hits that the two planes have in the same event, at the bin of the two positions, and nothing else. '
     'They do not depend on the chunk size or on the order in which workers finish. ' + STEP,
     ['inputs', 'schedules', 'configurations', 'fault_sequences', 'crash_points'],
     'all sets of 2 to 4 planes with hit or cluster tables, gaps and missing events, reference choices, resolutions, chunk sizes, worker completion orders, and single faults, failing workers or process deaths',
     'The tests correlate one data set with one chunk size and never fail a worker; event alignment between files is only at risk when chunks of the planes end at different events.',
     [HA, AU], [('start indices carried over chunks', HA + ':correlate'), ('event range reader', AU + ':data_aligned_at_events')], ['histograms of the output file'], level='fault_enumeration', level_note=SAMPLED)

prop('P09', 'Merging keeps every cluster of every plane exactly once in its event',
     'The merged table contains, for every event in which any plane has clusters, each cluster of each plane exactly once with all its properties, in that event, and marks missing hits as missing in hit flag and position. '
     'Each event has exactly as many rows as its largest cluster multiplicity, events are in ascending order, and the result does not depend on the chunk size. ' + STEP,
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'all sets of cluster tables (first plane not empty) with gaps, missing, early and late events, chunk sizes, single faults or process deaths',
     'The tests merge one data set in which all planes end with the same event; events that only other planes have, before, between or after chunks of the first plane, are not covered.',
     [HA, AU], [('event alignment over planes', HA + ':merge_cluster_data'), ('event union', AU + ':get_max_events_in_both_arrays')], ['merged table'], level='fault_enumeration', level_note=SAMPLED)

prop('P10', 'Track finding only reorders hits inside an event and ignores chunking',
     'Track finding keeps every event and, for every event and plane, exactly the hits with all their properties that the input has; it only permutes them over the rows of that event, and the hit flag marks exactly the planes with a hit. '
     'Complete, straight and well separated tracks are recovered; the result does not depend on the chunk size, and with a limit on the number of events no more whole events than that are stored. ' + STEP,
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'all merged tables of 2 to 12 planes, z orders, rotations, missing hits, extrapolation selections, event limits, chunk sizes, single faults or process deaths',
     'The tests run one telescope with one chunk size; more than ten planes, events cut at chunk borders and event limits reached early are not covered.',
     [TA, AU], [('permutation per event', TA + ':_find_tracks_loop'), ('chunk loop', TA + ':find_tracks')], ['track candidates table'], level='fault_enumeration', level_note=SAMPLED)

prop('P11', 'Fitted tracks depend on their own event alone, not on chunks or workers',
     'Every track candidate with enough hits in the selected fit planes yields exactly one fitted track per output plane, with the least-squares line (or Kalman estimate) through the hits of the fit planes, its intersection with each plane, its chi2 and the quality and isolation flags that follow from the tracks and hits of the same event; all other columns are carried over unchanged. '
     'The tables do not depend on the chunk size, the number of cores or the order in which workers finish, and with a limit on the number of events no more whole events than that are stored. ' + STEP,
     ['inputs', 'schedules', 'configurations', 'fault_sequences', 'crash_points'],
     'all candidate tables of 3 to 6 planes, alignments, fit/hit/output plane selections, distances, limits, methods, event limits, chunk sizes, core counts, completion orders, and single faults, failing workers or process deaths',
     'The tests fit one data set with fixed settings; tracks split over workers, planes not ordered in z, chunks without good tracks and failing workers are not reached.',
     [TA, AU, TEL, DUT], [('split of a chunk over the pool', TA + ':fit_tracks'), ('flags of one event', TA + ':store_track_data'), ('line fit / Kalman filter', TA + ':_fit_tracks_loop, _fit_tracks_kalman_loop')],
     ['track tables of the output file'], level='fault_enumeration', level_note=SAMPLED + 'Numbers are compared with a separate total-least-squares fit.')

prop('P12', 'Data selection keeps exactly the matching rows, in order, of every table',
     'Track selection stores for each selected plane exactly the rows that fulfil the hit, quality and isolation masks and the query, unchanged and in order, and, with an event limit, all such rows of at most that many events; reducing a file keeps all rows of at most the given number of events of every table, unchanged and in order. '
     'The result does not depend on the chunk size. ' + STEP,
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'all track tables, masks, queries, event limits, chunk sizes, single faults or process deaths',
     'The tests do not cover the selection; empty results, event limits inside a chunk and chunk borders are only reached by searching.',
     [DS, AU], [('selection per chunk', DS + ':select_tracks'), ('copy until event limit', DS + ':reduce_events')], ['tables of the output file'], level='fault_enumeration', level_note=SAMPLED + 'Single-threaded step.')

prop('P13', 'Combining files keeps all rows in order and never merges events',
     'Combining files yields, for every selected table, the rows of all files in the given order with all columns unchanged except the event number, which is shifted so that events of different files stay different and ascending (or by the given offset). '
     'Every shift that was applied is reported to the caller, and the result does not depend on the chunk size. ' + STEP,
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'all sets of 1 to 4 files with tables with and without event numbers, empty or missing tables, offsets, chunk sizes, single faults or process deaths',
     'The function has no test; the offset of a file depends on the last row of the previous one, which an empty or missing table hides.',
     [DS], [('event number offset per file', DS + ':combine_files')], ['tables of the output file'], level='fault_enumeration', level_note=SAMPLED + 'Single-threaded step.')

prop('P14', 'Coordinate conversions use each plane\'s own alignment and can be undone',
     'Applying the alignment transforms, in every table, the positions of each plane (in track tables also its track offsets, directions and absolute errors) with the position and rotation of that very plane, and of the telescope if aligned to the beam, and changes nothing else; converting hits between pixel indices and local positions gives the pixel a position is in, or its centre, on planes of regular pixels. '
     'Converting back restores the original positions and indices, missing hits stay missing, and the result does not depend on the chunk size. ' + STEP,
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'all merged and track tables of 1 to 12 planes, alignments, beam alignments, hit tables, pixel sizes (positions not on pixel edges), chunk sizes, single faults or process deaths',
     'The functions have no test; a wrong plane or truncated index only shows with many planes, odd pixel sizes or files written by the real pipeline.',
     [DA, HA, DUT, GU], [('conversion per plane', DA + ':apply_alignment'), ('pixel index of a position', HA + ':convert_coordinates'), ('transformation matrices', GU + ':local_to_global_transformation_matrix')],
     ['tables of the output file'], level='fault_enumeration', level_note=SAMPLED + 'Single-threaded step; coordinates are compared with separately computed geometry.')

prop('P21', 'Steps over several planes pair each file with its own plane and settings',
     'Converting, checking, masking and clustering the files of several planes gives, for every selected plane in the given order, exactly the output of the single-plane step with the file, mask file, output name and settings at the same position of the argument lists, whatever the chunk size, core count or order in which workers finish. '
     'Selections that name a plane that does not exist, or argument lists of another length, are refused. ' + STEP,
     ['inputs', 'schedules', 'configurations', 'fault_sequences', 'crash_points'],
     'all telescopes of 2 to 4 different planes, ordered selections, per-plane or common settings, chunk sizes, core counts, completion orders, single faults, failing workers or process deaths',
     'The tests only pass all planes in ascending order, for which a wrong pairing of files, planes and settings cannot be seen.',
     [HA, SMC], [('plane loops', HA + ':convert, check, mask, cluster')], ['output files', 'returned file names'], level='fault_enumeration', level_note=SAMPLED)

prop('P15', 'Residual, purity and angle histograms count every selected track once',
     'In the stored binning, the residual histograms (also as function of position) count every track with a hit in the plane inside its limits exactly once and the stored fit is that of the histogram; purity is, per bin with enough hits, the share of hits closer to their track than the cut; the angle histograms count every fitted track once, with its angles in the telescope and in the plane. '
     'This holds for every chunk size, also if the first tracks of the file have no hit or no fit. ' + STEP,
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'all track tables with missing hits and fits, planes, rotations, limits, binnings, chunk sizes, single faults or process deaths',
     'The tests compare one residual file; purity has no test, and chunks whose tracks have no hits, single tracks or identical residuals are not reached.',
     [RA, AU, GU], [('residual histograms per chunk', RA + ':calculate_residuals'), ('purity', RA + ':calculate_purity'), ('track angles', RA + ':histogram_track_angle, get_angles')], ['histograms and attributes of the output file'],
     level='fault_enumeration', level_note=SAMPLED + 'Single-threaded step; the choice of the binning itself is not decided.')
prop('P23', 'Efficiency is the share of tracks with a matching hit, per bin, pixel and region',
     'For every selected plane the efficiency of a bin, a pixel and a region is the share of its tracks that have a hit within the cut distance (box, or ellipse for wide cuts), not counting tracks on disabled pixels; histograms of tracks, hits, residuals, charge, frame, cluster size and shape, angles and cluster hits, also folded into a pixel or the cell of pixels of the plane, contain every such track or hit exactly once, or their mean. '
     'This holds for every chunk size, also if chunks have no track, no hit, or nothing inside a region. ' + STEP,
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'all track tables with missing and distant hits and tracks beside the sensor, planes, resolutions, cuts, extended areas, masks, regions, cluster hits, chunk sizes, single faults or process deaths',
     'The only test compares one file read in one or two chunks and does not run with the installed libraries; masks, cluster hits, cuts per axis, and chunks without hits are not reached.',
     [RA, AU], [('efficiency histograms per chunk', RA + ':calculate_efficiency'), ('nearest pixel', AU + ':voronoi_finite_polygons_2d'), ('cluster hits of tracks', AU + ':in1d_index')], ['histograms and attributes of the output file'],
     level='fault_enumeration', level_note=SAMPLED + 'Single-threaded step; the binning of the angles is not decided, the confidence interval of the mean efficiency is only logged and not run.')
prop('P17', 'A saved telescope configuration comes back complete; saving is all or nothing',
     'Over any history of adding, changing, saving and loading, a loaded telescope has exactly the planes that were saved, with number, kind, name, position, rotation, limits, material budget, resolution and kind-specific settings, and the telescope position; with keep_others all other entries of the file stay. '
     'Attributes a plane does not have are refused. If saving fails, or the process or the power dies at any point, the file holds the complete old or the complete new configuration; the failure reaches the caller, leaves no other file behind, and saving again succeeds.',
     ['histories', 'inputs', 'fault_sequences', 'crash_points'],
     'all histories of operations on telescopes with every kind of plane, several files, foreign sections, names that need quoting, any float value, single faults, torn writes, process deaths and power losses at every file operation',
     'The configuration file has no test; whether an interrupted save destroys the alignment depends on the instant of the failure (before the repair the old file was emptied first).',
     [TEL, DUT], [('save and load', TEL + ':Telescope.save_configuration, Telescope.load_configuration'), ('attributes of a plane', DUT + ':Dut.dut_attributes')], ['configuration file', 'loaded telescope'],
     [('configuration file', 'durable alignment of the telescope', TEL)],
     level='fault_enumeration', level_note=SAMPLED + 'Text-file operations are simulated steps; replacing a file by renaming is taken as atomic.')
prop('P18', 'Every output file records the arguments and date it was made with',
     'Every analysis step that records its arguments stores, in each file it returns, a table with the name of the step that holds every passed argument once, by name, with the complete text of the value it had when the step was called, the date of the call and the software version; running the step again replaces that table and leaves all other data and tables of the file unchanged. '
     'The same holds for configuration tables written directly, with the given or the current date. The return value is passed through unchanged; a failure to write the record reaches the caller and leaves no file open.',
     ['histories', 'inputs', 'fault_sequences'],
     'all sequences of recorded calls with positional and named arguments of any type, length and alphabet and all kinds of return values, on several files; all recorded steps of the pipeline; clock jumps; single faults',
     'No test reads the recorded arguments; long or non-ASCII values, arguments the step changes itself, and several steps in one file only occur in real sessions.',
     [SU, HA, TA, RA, DA, DS], [('argument recording', SU + ':save_arguments'), ('configuration tables', SU + ':save_configuration_dict')], ['argument tables of the output files', 'return value'],
     level_note=SAMPLED + 'Real steps are observed on inputs generated for the other properties; steps without the recording decorator are not covered.')
prop('P19', 'Simulated data is reproducible, complete and follows the settings',
     'The same seed and settings give the same files, whatever else uses random numbers. All requested events are simulated once, in order, for every chunk size; every track gives a hit in exactly the pixel where it crosses each fully efficient plane (also rotated planes and edge pixels), its charge is shared among neighbour pixels by diffusion with the given correction, and the beam has the given position, width and angle in both directions. '
     'A failing file operation reaches the caller and leaves no file open; the call repeated after it, or after a process death, gives the complete result.',
     ['inputs', 'configurations', 'histories', 'fault_sequences', 'crash_points'],
     'all seeds, settings of 1 to 4 planes and of the beam, numbers of events, chunk sizes, other users of random numbers before and meanwhile, single faults or process deaths',
     'The simulation has no test (and did not run with the installed numpy); lost edge pixels, surplus events or a shared random state only show in comparison with the known tracks.',
     [SIMD, GU], [('hits of tracks', SIMD + ':SimulateData._create_hits_from_tracks'), ('digitisation and charge sharing', SIMD + ':_create_cs_hits'), ('random state', SIMD + ':SimulateData.set_random_seed')], ['hit tables of the output files'],
     level_note=SAMPLED + 'Single-threaded step; efficiency, noise and multiple scattering are exercised but their distributions are not decided.')
prop('P20', 'The alignment step finds where the selected planes are and changes nothing else',
     'From straight tracks with exact hits the transformation step finds position and rotation of every selected plane for the selected parameters; with inexact hits of enough tracks it finds those that make the mean square distance smallest, and the weight of every chunk is its number of tracks, whichever chunk or plane has none. '
     'Rows without a hit or a track, or with a hit outside the limits of the plane, do not matter; parameters and planes that are not selected, all other settings, and the track file stay as they were. '
     'The telescope configuration is replaced completely or not at all: a failing file operation or the death of the process leaves the complete old or new file, and repeating the step succeeds.',
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'all displacements of up to 4 planes with any nominal orientation, selected planes and parameters, track samples with empty chunks and useless rows, chunk sizes, limits, single faults, process deaths and power losses at any file operation',
     'No test runs the alignment with the installed libraries; a chunk without tracks, several chunks with different tracks, or unselected parameters are not reached.',
     [DA, TEL], [('transformation per chunk and average', DA + ':calculate_transformation'), ('saving the result', TEL + ':Telescope.save_configuration')], ['telescope configuration after the step'],
     [('configuration file', 'durable alignment of the telescope', TEL)],
     level_note=SAMPLED + 'Chunks that cannot determine a plane (one or two tracks) are not generated together with good ones; rotations are compared as matrices.')
prop('P25', 'Alignment makes straight tracks straight and changes only what is selected',
     'Aligning a telescope with displaced planes from events of straight tracks ends with a configuration in which these tracks are straight within the resolution, for every grouping of the planes, choice of parameters, chunk size, core count and schedule. '
     'The planes that define the telescope ends keep their position along the beam, planes and parameters that are not selected stay apart from a common shift across the beam, all other settings, the input configuration and the hits stay, and no temporary file is left. '
     'A failing operation reaches the caller, and aligning again after it, or after the death of the process at any point, gives a result of the same quality.',
     ['inputs', 'schedules', 'configurations', 'fault_sequences', 'crash_points'],
     'all telescopes of 4 to 7 planes with displacements that the track search covers, groups of planes, parameters, samples of one or two tracks per event, chunk sizes, schedules, single faults and process deaths at any step',
     'The alignment tests do not run with the installed libraries and compare with stored numbers; groups of planes, restricted parameters and interrupted runs are not tested.',
     [DA, TA, DS, RA, SMC], [('alignment', DA + ':align, align_telescope, _duts_alignment'), ('transformation', DA + ':calculate_transformation'), ('tracks', TA + ':find_tracks, fit_tracks')], ['output configuration', 'file system'],
     [('configuration file', 'durable alignment of the telescope', TEL)],
     level_note=SAMPLED + 'Tracks are drawn through the final configuration: residuals within 3 um, or 25 um for planes aligned with a part of the parameters. The alignment with the Kalman filter is not decided.')
prop('P24', 'Correlation and pre-alignment find shifts and inverted axes of the planes',
     'From events of parallel tracks, correlating the planes with a reference plane and pre-aligning gives every selected plane its true position across the beam within about two histogram bins and its true orientation when axes are inverted, wherever the reference plane is, with hits or clusters, indices or positions, with or without background reduction. '
     'The new limits of a plane are never wider than before and hold the region that both planes see; the position along the beam, the reference plane, planes that are not selected and all other settings stay, and the input configuration is never overwritten. '
     'The new configuration is written completely or not at all: a failing operation or the death of the process leaves the old or new file, and repeating the step succeeds.',
     ['inputs', 'schedules', 'configurations', 'fault_sequences', 'crash_points'],
     'all shifts and axis inversions of up to 4 tilted planes of different pixels, reference planes anywhere, noise and missing hits, chunk sizes, schedules of the workers, selections, single faults, process deaths and power losses',
     'The test of the pre-alignment does not run with the installed libraries and has its reference plane at the origin.',
     [DA, HA, AU, TEL], [('line search in the correlation', DA + ':prealign'), ('correlation histograms', HA + ':correlate'), ('Hough transform', AU + ':hough_transform')], ['new telescope configuration'],
     [('configuration file', 'durable alignment of the telescope', TEL)],
     level_note=SAMPLED + 'Bins of at most two pixels, planes that overlap and mostly true hits; how much of the border the limits cut off is checked to a tenth of the plane.')
prop('P26', 'The Kalman alignment is a sequential filter over the tracks',
     'Kalman alignment takes the tracks with all required hits one after the other: a track that passes the chi2 cut moves the selected parameters of the planes it hit by the Kalman filter update, with the annealed errors, unless the step is too large; all other tracks and planes change nothing, and the filter stops after the maximum number of tracks. '
     'Position, errors and annealing factor of every plane and the chi2 are recorded for every track, the configuration ends where the last record is, and fixed parameters, end planes (apart from the rotation about the beam), planes that are not selected, all other settings and the inputs stay. '
     'A failing operation reaches the caller, no temporary file is left, and aligning again after it, or after the death of the process at any point, gives the same result.',
     ['inputs', 'configurations', 'histories', 'fault_sequences', 'crash_points'],
     'all telescopes of 3 to 6 planes, samples of tracks with missing and wrong hits, groups of planes, choices of parameters and errors, cuts on chi2, annealing, maximum numbers of tracks, earlier results, single faults and process deaths',
     'The Kalman alignment has one test with stored numbers, which does not run with the installed libraries.',
     [DA, TA, RA, TEL], [('filter loop', DA + ':align_kalman, _alignment_loop'), ('update of the parameters', DA + ':_update_alignment_parameters, _calculate_initial_alignment'), ('track fit', TA + ':_fit_tracks_kalman_loop')], ['output configuration', 'alignment file', 'file system'],
     [('alignment state', 'parameters and covariance of every plane, carried from track to track', DA)],
     level_note=SAMPLED + 'Samples are smaller than the fixed chunk of 10000 tracks.')

prop('P22', 'Converters carry every hit over to the file of its plane exactly once',
     'Formatting an interpreted hit table of FE-I4 or Mimosa26 planes gives, for every plane that is asked for, exactly the hits of that plane, in order, with event number, column and row (counted from 1), for FE-I4 also frame and charge, in the given or generated file of that plane, for every chunk size. '
     'A table whose event number decreases anywhere is refused, wherever the row lies relative to chunk borders, and so is a list of files that does not fit the planes. ' + STEP,
     ['inputs', 'configurations', 'fault_sequences', 'crash_points'],
     'all interpreted hit tables (ordered, or with one decreasing event number), selections and orders of planes, file names, chunk sizes, single faults or process deaths',
     'The converters have no test; unordered rows on chunk borders and planes without hits are not met by the example data.',
     [CONV4, CONV26], [('hits per plane', CONV26 + ':format_hit_table'), ('event order over chunks', CONV4 + ':format_hit_table')], ['hit tables of the output files', 'raised error'], level='fault_enumeration',
     level_note=SAMPLED + 'Single-threaded steps; the third-party interpreters of raw data are replaced by stand-ins that write the interpreted table.')

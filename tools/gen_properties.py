#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the hand-written source of the list)."""
import json, pathlib
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None, state=None):
    d = dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=hook))
    if state:
        d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

U = 'pyTMD/utilities.py'; S = 'pyTMD/spatial.py'; M = 'pyTMD/io/model.py'
O = 'pyTMD/io/OTIS.py'; A = 'pyTMD/io/ATLAS.py'; F = 'pyTMD/io/FES.py'; G = 'pyTMD/io/GOT.py'
C = 'pyTMD/compute.py'

# ---------------------------------------------------------------- network
prop('P01', 'A downloaded file is on disk completely or not at all',
    'Whenever a download to a local path (over http, https, authenticated https or ftp) is interrupted by a network failure, a disk error, a full disk or a process crash, the local path afterwards holds either exactly what it held before or exactly the complete remote content. '
    'A failed download raises an error; a download that returns normally has stored the complete content with the requested permission mode (and, over ftp, the remote modification time). '
    'A repeat of the same download once the faults have stopped succeeds and leaves the complete content.',
    ['fault_sequences', 'crash_points', 'histories'],
    'every sequence of downloads with any placement of connection failures, truncations, resets, timeouts, disk errors, short writes and crashes inside each of them',
    'The tests never download anything; every crash point and fault position inside a transfer or a local store is reachable only with injected faults.',
    [U], [('buffer the whole response before touching the local file', 'utilities.from_http / from_ftp / from_cddis / from_jpl_ssd'),
          ('staged store of the buffer to the local path', 'utilities.from_* local branch')],
    ['local file bytes, mode and mtime', 'raised exception'])
prop('P02', 'A successful download delivered exactly the remote bytes',
    'A download call that returns normally returns a rewound buffer holding exactly the bytes the server holds for that path, named after the remote file, whatever the packet sizes, delays, retransmissions and chunk size, and stores those same bytes if a local path was given. '
    'A connection that is refused, cannot be resolved, is reset, times out or ends before the announced length, and an error status from the server, are always reported as an error and never as an empty or shortened result.',
    ['fault_sequences', 'inputs', 'configurations'],
    'every content, transfer segmentation and chunk size, with every placement of a network fault in the connection, the headers or the body',
    'The tests do not open a connection; a truncated or reset transfer needs a server that misbehaves at a chosen byte.',
    [U], [('chunked copy into a memory buffer and length check', 'utilities.from_http / from_cddis / from_ftp')],
    ['returned buffer', 'raised exception'])
prop('P03', 'Checksum-gated refresh keeps current copies and replaces stale ones',
    'Given the checksum of the local copy, a download leaves an already current local copy untouched (same bytes, same modification time, no write at all) and replaces an outdated or missing one. '
    'Over any history of remote updates, local modifications, failed attempts and repeats, a download that returns normally leaves the local copy equal to the remote content of that moment. '
    'The checksum reported for a file or buffer is the digest of its full content, and is empty for a file that does not exist.',
    ['histories', 'fault_sequences'],
    'every history of remote updates, local changes, faults and repeated downloads with correct, stale or absent checksums',
    'Needs multi-step histories against a changing server; no test performs a download.',
    [U], [('compare md5 of the response with the hash of the local file', 'utilities.from_http / from_ftp / from_cddis'), ('get_hash', 'utilities.get_hash')],
    ['local file bytes and mtime', 'number of writes to the local path'])
prop('P04', 'Remote listings are complete, correctly paired, filtered and ordered',
    'A remote directory listing (ftp, http, authenticated https, IERS and sea-level-center servers) returns every entry the server lists that matches the pattern and no other, each paired with its own modification time (or none where the server gives none), sorted by name when asked and in the server order otherwise. '
    'If the connection fails, is cut short or the server answers with an error, the listing raises an error and never returns a partial list.',
    ['inputs', 'fault_sequences', 'configurations'],
    'every directory content, pattern, ordering option and placement of network faults',
    'No test lists a directory; a cut-off listing needs an injected fault.',
    [U, 'scripts/aviso_fes_tides.py'], [('parallel name and mtime lists reduced with the same indices', 'utilities.ftp_list / http_list / cddis_list / iers_list / uhslc_list')],
    ['returned name and time lists'])
prop('P05', 'Login attempts are bounded, use the right credentials and end well',
    'Logging in to the authenticated archive tries the stored, given or prompted credentials first, prompts again after each rejected attempt, returns as soon as one attempt is accepted, and reports an error after exactly the allowed number of attempts, whatever mixture of rejections and network failures occurs. '
    'After a successful login, requests carry the accepted credentials; the credentials file is made private to its owner, never exposed or modified.',
    ['fault_sequences', 'histories', 'configurations'],
    'every sequence of accepted and rejected credentials, credential sources and network faults, and every retry bound',
    'The tests never log in; retry behaviour depends on the sequence of server answers.',
    [U], [('bounded retry loop with re-prompt', 'utilities.attempt_login'), ('installed opener with authorization', 'utilities.build_opener'), ('probe request', 'utilities.check_credentials')],
    ['requests seen by the server', 'prompts', 'raised exception'])
prop('P06', 'Token and JSON service calls report what the server really did',
    'Each token operation (create, list, revoke) sends exactly one state-changing request to the service, returns the server answer unchanged when the server confirms it, and raises an error when the server refuses, the network fails or the answer is damaged. '
    'Whenever an operation returns normally the server state reflects it, and a listing returns exactly the tokens that exist. '
    'Connection checks return true only if the server was reached and accepted the request.',
    ['histories', 'fault_sequences'],
    'every history of token operations with network and server faults at any point',
    'The tests never contact the service; behaviour depends on server history and faults.',
    [U], [('POST/GET requests and JSON decoding', 'utilities.get_token / list_tokens / revoke_token / from_json / check_connection / check_credentials / check_ftp_connection')],
    ['server state', 'returned JSON'])
prop('P07', 'Model archive synchronisation converges after any interruption',
    'After any number of synchronisation runs of a tide-model archive interrupted at any point by network faults, disk faults or crashes, one later undisturbed run leaves every selected remote file locally present with complete content (compressed if asked), the remote modification time (for archives that record times) and the requested permission mode. '
    'A run never leaves a damaged file that a later run would accept as current, and a file of a dated archive that is already current is neither downloaded again nor rewritten. '
    'A remote file that became newer replaces the local one.',
    ['crash_points', 'fault_sequences', 'histories', 'configurations'],
    'every sequence of interrupted runs, remote updates and final complete run, for tar, xz and plain remote files, flattened or nested, with and without compression',
    'The scripts have no tests; convergence is a statement about crash points and histories.',
    ['scripts/aviso_fes_tides.py', 'scripts/gsfc_got_tides.py', 'scripts/arcticdata_tides.py'],
    [('modification-time gate', 'aviso_fes_tides.ftp_download / gsfc_got_tides.gsfc_got_tides'), ('extract and stamp with remote time', 'same')],
    ['local tree: names, bytes, mtimes, modes', 'files transferred'])
prop('P08', 'The ephemeris kernel is fetched once, whole, before it is used',
    'A high-precision Sun or Moon position request with no local kernel fetches the kernel once and then computes from the complete file; later requests use the local file without any network access. '
    'If fetching fails or the process dies at any point, the request raises an error, no partial kernel is left that a later request would use, and a later request once faults stop succeeds with the same positions as an undisturbed one.',
    ['crash_points', 'fault_sequences', 'histories'],
    'every history of position requests with network faults, disk faults and crashes during the fetch',
    'The tests that use the kernel need the network and are excluded; crash points are never exercised.',
    ['pyTMD/astro.py', U], [('fetch if the kernel file does not exist', 'astro.solar_ephemerides / lunar_ephemerides'), ('download', 'utilities.from_jpl_ssd')],
    ['positions', 'local kernel file', 'requests seen by the server'])
prop('P09', 'Verification of downloaded model files never passes a damaged file',
    'Verifying local model files against the checksums of the remote folder succeeds only if every selected file is present and byte-identical to the remote one, and then stamps each with its remote modification time and the requested mode. '
    'Any missing, truncated or altered file, and any network or server failure during verification, makes it raise an error, and a file that failed is never stamped as verified.',
    ['fault_sequences', 'inputs', 'histories'],
    'every set of files and damage, and every placement of network faults between the folder and file requests',
    'The script has no tests; the damage and fault combinations are unbounded.',
    ['scripts/verify_box_tpxo.py', U], [('sha1 comparison before stamping', 'verify_box_tpxo.verify_box_tpxo'), ('digest of file', 'utilities.get_hash')],
    ['raised exception', 'file times and modes'])
# ---------------------------------------------------------------- local storage
prop('P10', 'Copying or moving a file never loses the data',
    'At every instant of a copy or move, including after a crash or a disk error at any point, the complete original content exists in the source or in the destination. '
    'A copy or move that returns normally leaves the destination with the same content, times and mode as the source had, the source intact after a copy and gone after a move; one that fails raises an error and leaves the source untouched.',
    ['crash_points', 'fault_sequences', 'histories'],
    'every sequence of copies and moves among files with crashes and disk errors at any point',
    'No test copies a file; crash points need injected faults.',
    [U], [('copy content, then metadata, then unlink', 'utilities.copy')], ['source and destination bytes and metadata'])
prop('P11', 'Result files read back exactly what was written, over any file history',
    'For each supported result format (text, netCDF4, HDF5, GeoTIFF, parquet), data written in any history of creating, overwriting and updating files reads back with the same values, masked points, variable attributes, coordinates and projection, from the plain file, a gzip copy or an in-memory copy. '
    'Writing or reading never changes the data, attribute or option objects passed by the caller, so the same data can be written again, in any format, with the same result. '
    'A file is found by name irrespective of letter case, and never confused with another file.',
    ['histories', 'configurations', 'inputs'],
    'every history of write, overwrite, update, copy and read operations over several files, formats, data layouts and caller objects reused between operations',
    'The writers and readers have almost no test coverage (only one parquet round trip is run); reuse histories are never tried.',
    [S], [('writers', 'spatial.to_ascii / to_netCDF4 / to_HDF5 / to_geotiff / to_parquet'), ('readers', 'spatial.from_*'), ('name lookup', 'spatial.case_insensitive_filename')],
    ['arrays, masks and attributes read back', 'caller objects'])
prop('P12', 'A result file that could not be completely written is reported',
    'If the disk fills up, an I/O error occurs or the process dies while a result file is being written, the write either raises an error or the file on disk is complete; it never returns normally with an incomplete file. '
    'Once space is available again, writing the file again succeeds completely, in the same process or in another one.',
    ['fault_sequences', 'crash_points', 'configurations'],
    'every byte offset at which the disk can fill or the process can die, for every format and layout',
    'Tests never run out of disk space or die in a write.',
    [S], [('writers close their file before returning', 'spatial.to_ascii / to_netCDF4 / to_HDF5 / to_geotiff / to_parquet')],
    ['return or exception of the writer', 'file content'])
prop('P13', 'Stored tide models read back the same harmonic constants',
    'Harmonic constants, bathymetry, masks, coordinates and constituent names written to a tide-model file of any supported family (OTIS binary, ATLAS netCDF, GOT, FES) are read back the same, whether the file is plain or gzip-compressed and whatever was previously stored under that name. '
    'Reading one constituent of a file never depends on which others were read before.',
    ['histories', 'configurations', 'inputs'],
    'every history of writing, overwriting, compressing and reading model files for every family, variable type and grid',
    'No test writes or reads a model file in the offline suite.',
    [O, A, F, G], [('writers', 'OTIS.output_otis_* / ATLAS.output_netcdf_* / GOT.output_netcdf_file / FES.output_netcdf_file'), ('readers', 'OTIS.read_* / ATLAS.read_* / GOT.read_* / FES.read_*')],
    ['arrays read back'])
prop('P14', 'A damaged tide-model file never yields harmonic constants silently',
    'When a stored model file has been cut short (at any record, row, value or byte of a binary, gzip or netCDF file; by whole values or lines for a text file), is missing, or its write was interrupted by a full disk or a crash, reading it raises an error instead of returning constants that were never stored. '
    'When a write to a model file cannot complete, the writer raises an error.',
    ['crash_points', 'fault_sequences'],
    'every truncation point, every byte offset at which the disk can fill or the writer can die, for every family',
    'No test reads a damaged file.',
    [O, A, F, G], [('fixed-size records and declared dimensions', 'OTIS.read_* / GOT.read_ascii_file / FES.read_ascii_file'), ('netCDF and gzip integrity', 'ATLAS / GOT / FES netCDF readers')],
    ['exception or arrays read back'])
prop('P23', 'Extracting a regional subset of a model preserves its constants',
    'Reducing an OTIS model to a bounding box produces grid, elevation and transport files that, when read, hold exactly the parent values at the parent grid points inside the box, with the same constituents in the same order. '
    'A reduction interrupted by a disk error or crash leaves the parent files and any earlier output untouched, and a repeat produces the complete output under a new name.',
    ['histories', 'crash_points', 'inputs'],
    'every model grid, box, sequence of repeated reductions and interruption point',
    'The tool has no tests.',
    ['scripts/reduce_OTIS_files.py', O], [('select rows and columns inside the box', 'reduce_OTIS_files.make_regional_OTIS_files'), ('exclusive creation of the output name', 'reduce_OTIS_files.create_unique_filename')],
    ['reduced files'])
prop('P22', 'Concurrent reductions never share an output file and never hang',
    'However many programs request an output name for the same model file at the same time, each gets a different name, no existing file is ever overwritten, and the names are the lowest free ones of the documented sequence. '
    'If the directory cannot be written, the request fails with an error instead of trying forever.',
    ['schedules', 'fault_sequences'],
    'every interleaving of concurrent requests and every placement of disk errors',
    'Interleavings and persistent disk errors are not exercised by any test.',
    ['scripts/reduce_OTIS_files.py'], [('exclusive create and counter', 'reduce_OTIS_files.create_unique_filename')],
    ['returned names', 'directory content'])
# ---------------------------------------------------------------- model registry
prop('P15', 'A model is offered only if all of its files are really there',
    'Looking up a known tide model in a directory succeeds exactly when every file the model needs for the requested variable exists there (in the plain or compressed form requested), and otherwise raises an error naming a problem; with verification disabled it always succeeds and names the same files. '
    'The answer depends only on what is on disk at that moment, not on earlier look-ups, and looking up never changes the directory.',
    ['histories', 'configurations'],
    'every catalogued model, compression option and history of files appearing and disappearing between look-ups',
    'Tests parse definitions only; they never have model files.',
    [M], [('existence check of every file', 'model.pathfinder / model.elevation / model.current')],
    ['raised exception', 'file paths of the model object'])
prop('P16', 'Model definitions load the same whatever came before or after',
    'Loading a model from a definition file, an open stream, the catalogue or an extra database gives a description that depends only on that source: not on directory listing order, earlier loads, or objects obtained before. '
    'Constituent names always stay paired with their own files; saving a loaded description and loading it again gives the same model. '
    'A truncated, malformed or unreadable definition raises an error and leaves later loads unaffected.',
    ['histories', 'fault_sequences', 'configurations'],
    'every history of loads, saves, edits of returned objects, directory orders and read faults',
    'Tests load each definition once, on one file system order, without faults.',
    [M, 'pyTMD/data/database.json', 'providers/_providers_to_database.py'], [('definition parsing', 'model.from_file / _parse_json'), ('database loading', 'load_database'), ('dictionary round trip', 'model.to_dict / from_dict / serialize')],
    ['attributes of the model object'])
# ---------------------------------------------------------------- state, histories, schedules
prop('P17', 'Interpolating cached constants equals extracting them from file',
    'For a model of any file family, reading the constants once and interpolating them any number of times, for any points, methods and options in any order, gives the same amplitudes, phases and masks as extracting directly from the files with those options. '
    'Interpolating never changes the cached constants, and a new read replaces what was cached before.',
    ['histories', 'configurations'],
    'every history of reads, interpolations and direct extractions on one or several model objects with mixed variable types, crops, methods and extrapolation',
    'Needs model files and multi-step use of one object; the offline tests have neither.',
    [M, O, A, F, G, 'pyTMD/io/constituents.py', 'pyTMD/interpolate.py'], [('cached complex constants', 'model.read_constants / interpolate_constants'), ('container', 'constituents.get / append / update / pop')],
    ['amplitude and phase arrays'],
    state=[('cached constituents', 'complex constants read from file, shared by later interpolations', 'model._constituents')])
prop('P18', 'Results do not depend on call history and inputs are left unchanged',
    'A computation of tides, currents, masks, pole tides, solid-Earth tides or long-period tides, or of their building blocks, returns the same result for the same arguments no matter which computations ran before it in the process, and whether earlier ones failed. '
    'No computation modifies the arrays, lists, dictionaries or objects passed to it.',
    ['histories', 'fault_sequences'],
    'every history of calls (including failing ones) before and after a given call',
    'Tests call each function once or a few times in a fixed order and rarely compare repeated calls or check the arguments afterwards.',
    [C, 'pyTMD/predict.py', 'pyTMD/arguments.py', 'pyTMD/astro.py', 'pyTMD/interpolate.py', M, S], [('copies of inputs', 'compute.* np.copy / np.atleast_1d'), ('no module-level caches of results', 'package wide')],
    ['returned arrays', 'arguments after the call'])
prop('P19', 'Concurrent callers get the same results as if run alone',
    'When several threads use the library at the same time, each on its own objects or all sharing the same unmodified model and constants, every call returns exactly what it returns when run alone, under every interleaving. '
    'No interleaving raises an error that does not occur when run alone.',
    ['schedules'],
    'every interleaving of concurrent calls at statement granularity',
    'The tests are single-threaded.',
    [C, 'pyTMD/predict.py', 'pyTMD/arguments.py', 'pyTMD/astro.py', M, 'pyTMD/io/constituents.py', 'pyTMD/interpolate.py', S], [('no shared mutable state between calls', 'package wide')],
    ['returned values and exceptions per thread'])
prop('P20', 'Splitting a job into pieces in any order gives the same result',
    'Computing tides, currents, corrections or displacements for a set of points and times in one call gives, for every point and time, the same value and mask as computing any partition of that set piece by piece, in any order, with pieces lost to worker crashes and redone. '
    'Cropping the model to the (buffered) region of the request, or computing a drift track as a grid or time series of single points, does not change the values.',
    ['schedules', 'histories', 'configurations'],
    'every partition into pieces, order of execution, worker failure and re-execution, and choice of layout and cropping',
    'Tests run fixed point sets in one call.',
    [C, 'pyTMD/predict.py', 'pyTMD/interpolate.py', O, A, F, G], [('pointwise evaluation', 'predict.map / drift / time_series and compute.*'), ('cropping with buffer', 'io.*._crop')],
    ['assembled result arrays'])
prop('P21', 'Results do not depend on clock, time zone, directory order or hashing',
    'Computed values, listings of known models and written data do not change with the wall clock, the local time zone or locale, the current directory, the environment of the process, the order in which a file system lists a directory, or the hash seed of the interpreter. '
    'The only trace of the wall clock is the creation date stored in output files and log names.',
    ['configurations', 'schedules'],
    'every setting and jump of the clock, time zone, working directory, listing order and hash seed, applied between and during operations',
    'Tests run in one environment.',
    [C, S, M, 'pyTMD/time.py', 'pyTMD/eop.py', U], [('sorted or declared order of constituents and files', 'model._parse_json / load_database'), ('time arithmetic from given epochs only', 'compute.*')],
    ['returned values', 'written files'])
prop('P24', 'Batch programs write one correct record per input record, whatever fails',
    'A command-line computation over an input file writes, for every input record in input order, the value the library computes for that record, with masked points marked by the fill value (in tables: as missing), in every supported file format and layout. '
    'A run that fails leaves the input untouched and says so; repeating it once the cause is gone gives the same output as an undisturbed run.',
    ['fault_sequences', 'histories', 'configurations'],
    'every input layout, format, option mix, and disk or model-file fault during the run followed by a repeat',
    'The programs have no tests.',
    ['scripts/compute_tidal_elevations.py', 'scripts/compute_tidal_currents.py', 'scripts/compute_LPET_elevations.py', 'scripts/compute_SET_displacements.py', 'scripts/compute_LPT_displacements.py', S],
    [('read, convert, predict, write', 'scripts/compute_*.py')], ['output file', 'log'])

prop('P25', 'A computation that cannot read its data fails and never invents values',
    'Whenever a file a computation needs (model constants, grids, definitions, databases, ephemerides, coefficient and nutation tables, tide-potential catalogues, ocean pole tide maps, time-scale and pole files) is missing, cannot be opened, fails while being read or (binary, compressed and JSON files) has been cut short, the computation either raises an error or returns exactly the undisturbed result. '
    'It never returns values computed from incomplete data, and the same request gives the undisturbed result once the file is readable again.',
    ['fault_sequences', 'histories'],
    'every file a computation reads, every failing open or read, every cut, every computation and order of requests',
    'Tests never see a failing disk; a fallback or cache that hides one looks correct in every test.',
    [C, O, A, G, F, M, 'pyTMD/io/IERS.py', 'pyTMD/arguments.py', 'pyTMD/astro.py'], [('tables and maps are read at the time of the call', 'arguments.coefficients_table, astro._parse_table_*, io.IERS.read_binary_file'), ('model files are read completely', 'io.*.extract_constants')],
    ['returned values', 'errors'])

# ---------------------------------------------------------------- pure numerical guarantees (not applicable to this technique)
prop('N01', 'Tide heights are the harmonic sum of the model constants',
    'For any constants, constituents and times, predicted tides equal the sum over constituents of nodally corrected amplitude times the cosine of the nodally corrected phase, and are linear in the constants.',
    ['inputs'], 'all constants, constituent sets and times', 'Tests compare a few stations with stored values.',
    ['pyTMD/predict.py'], [('harmonic synthesis', 'predict.map / drift / time_series')])
prop('N02', 'Nodal corrections and equilibrium arguments follow the published tables',
    'For any date the equilibrium arguments and nodal factors of every constituent equal those implied by its Doodson numbers and the chosen convention, and all conventions name constituents consistently.',
    ['inputs'], 'all dates, constituents and conventions', 'Tests sample a few dates.',
    ['pyTMD/arguments.py', 'pyTMD/astro.py'], [('Doodson coefficients', 'arguments.coefficients_table'), ('nodal modulation', 'arguments.nodal')])
prop('N03', 'Sun and Moon positions agree with the ephemerides within stated accuracy',
    'For any date in range, approximate and ephemeris positions of Sun and Moon in the Earth-fixed frame agree within the documented accuracy and the rotation matrices are orthonormal.',
    ['inputs'], 'all dates in range', 'Tests sample a few dates.',
    ['pyTMD/astro.py'], [('frame rotation', 'astro.itrs')])
prop('N04', 'Solid-Earth, pole and long-period tides follow the IERS conventions',
    'For any place and time the displacements equal those of the IERS conventions for the chosen Love numbers and tide system, and the tide-free and mean-tide systems differ by the permanent tide.',
    ['inputs'], 'all places and times', 'Tests compare a few published values.',
    ['pyTMD/predict.py', C], [('displacement formulas', 'predict.solid_earth_tide / load_pole_tide / ocean_pole_tide / equilibrium_tide')])
prop('N05', 'Coordinate, ellipsoid and projection conversions invert each other',
    'For any point, converting between geodetic, Cartesian, local, spherical and projected coordinates or between ellipsoids and back returns the point within rounding.',
    ['inputs'], 'all points and reference systems', 'Tests sample a few points.',
    [S, 'pyTMD/crs.py'], [('conversions', 'spatial.to_* / from_* / convert_ellipsoid, crs.convert')])
prop('N06', 'Interpolation reproduces grid values and never invents data over land',
    'For any grid and points, interpolated values equal the grid at nodes, stay within the neighbouring valid values for bilinear and nearest methods, and are masked where no valid model value is near.',
    ['inputs'], 'all grids, masks, points and methods', 'Tests interpolate one smooth function.',
    ['pyTMD/interpolate.py'], [('interpolators', 'interpolate.bilinear / spline / regulargrid / extrapolate')])
prop('N07', 'Harmonic analysis recovers the constants of a predicted series',
    'For any constants and a long enough series predicted from them, estimating constants from the series with any solver returns the constants within numerical accuracy.',
    ['inputs'], 'all constants, series and solvers', 'Needs a model and data the tests do not have.',
    ['pyTMD/solve/constants.py'], [('least squares', 'solve.constants')])
prop('N08', 'Tidal ellipse parameters and current components invert each other',
    'For any complex current components the derived ellipse parameters, converted back, give the same components.',
    ['inputs'], 'all complex components', 'Tests sample a few currents.',
    ['pyTMD/ellipse.py'], [('forward and inverse', 'ellipse.ellipse / inverse')])

P.sort(key=lambda d: d['id'])
out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(d) + '\n' for d in P))
print(len(P), 'properties')

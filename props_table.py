# One entry per property: what it says, the harness that decides it, budgets, and what
# evidence says about it.  gen_meta.py writes properties.jsonl and MANIFEST.json from this.
_DISK = ["a simulated process crash keeps every completed write call (process crash, not power loss)",
         "single-process ownership of the files under test"]
_STUB = ["disk, clock, process exit (simulated at the libc boundary)", "App logging submodule (empty in this checkout; replaced by a stand-in)"]
_T = dict(runs=2000000, secs=780)
_THR = ["thread scheduling, clock (simulated at the libc and pthread boundary)", "App logging submodule (replaced by a stand-in)"]
_NET = ["sockets, clock, thread scheduling, disk (simulated at the libc and pthread boundary)", "App logging submodule (replaced by a stand-in)"]
_SC = ["sequentially consistent memory: threads are preempted at instrumented accesses and calls, weak-memory reordering is not simulated"]
PROPS = {
    "W01": dict(
        harness="h_wa", quick=dict(runs=30000, secs=120), thorough=_T,
        title="Word-addressable files return the words last written at every address",
        statement="A file opened for word-addressable access behaves as an array of 32-bit words: a read returns, for every address, the word last written there (zero in gaps never written), the reported size is one past the highest word written, and none of this depends on whether paging (WA_CONFIG) is used. It stays true across close, reopen and process restart, and when the operating system interrupts a transfer or completes it only partly and it is retried. A transfer that cannot be completed is never followed by wrong data at other addresses.",
        over=["histories", "fault_sequences", "crash_points", "configurations"],
        q="every history of opens, writes, reads, size queries, closes and restarts on several files at once, every paging configuration, every placement of short, interrupted, failed and torn transfers",
        why="Tests do no word-addressable I/O beyond opening a file; correctness depends on the page cache state left by earlier operations and on partial transfers no test provokes.",
        files=["src/primitives/c_baseio.c"],
        mech=[("page cache lookup, eviction and write-back", "qqcget, qqcput, scrap_page, get_new_page"), ("open, close and slot reuse", "c_waopen2, c_waclos2, c_fclos, qqcopen, qqcclos"), ("bounds and gap filling", "c_wawrit2, c_waread2")],
        observe=["c_waopen2", "c_wawrit2", "c_waread2", "c_wasize", "c_numblks", "c_waclos2", "c_writda", "c_readda", "waopen2_", "wawrit2_", "waread2_", "writda_", "readda_", "c_fnom", "c_fclos"],
        rule="Seeded histories of open/write/read/size/close/restart on 1-3 word-addressable files, paged or not (WA_CONFIG), through the C, Fortran and direct-access (openda, readda, writda) entry points, with crashes, torn/short/failed/interrupted I/O. Non-trivial: at least two writes and a non-empty read.",
        real=["src/primitives/c_baseio.c and everything it calls"], stub=_STUB, assumptions=_DISK),
    "W02": dict(
        harness="h_io", quick=dict(runs=20000, secs=90), thorough=_T,
        title="A stream file takes and gives its bytes in order, losing none",
        statement="A file connected as a stream holds exactly the bytes put to it at the positions they were put: a put of words or bytes reports how many it stored, a get returns the bytes at the current position up to the end and reports how many, and the position advances by exactly that; rewinding, going to the end, closing, reopening and restarting the process change no byte. This holds when the operating system completes a transfer only partly, even inside a word; a put or get that cannot be completed is reported and never reported as complete, and a crash leaves the bytes of before plus the first bytes of the put it interrupted. Streams not opened or already closed, and puts on read-only streams, are refused.",
        over=["histories", "fault_sequences", "crash_points"],
        q="every history of connections, puts, gets, rewinds, closes and restarts on several streams sharing several files, every placement of short, interrupted, failed and torn transfers, C and Fortran entry points",
        why="No test uses the stream calls; partial transfers, positions shared with other streams of the same file and crashes are never provoked.",
        files=["src/primitives/c_baseio.c"],
        mech=[("transfers", "c_sqgetw, c_sqputw, c_sqgets, c_sqputs"), ("position", "c_sqrew, c_sqeoi"), ("opening and closing", "c_sqopen, c_sqclos, c_fnom, c_fclos")],
        observe=["c_sqputw", "c_sqgetw", "c_sqputs", "c_sqgets", "c_sqrew", "c_sqeoi", "c_sqopen", "c_sqclos", "c_getfdsc"],
        rule="Seeded histories on 1-3 files through 1-3 units, with sizes from one byte to 12 kB, and short, interrupted, failed, torn transfers, full disks, failing opens and crashes. Non-trivial: at least one put and one get that moved the stream.",
        real=["src/primitives/c_baseio.c"], stub=_STUB, assumptions=_DISK),
    "W03": dict(
        harness="h_io", quick=dict(runs=20000, secs=90), thorough=_T,
        title="A subfile of a CMCARC file reads as if it were a file of its own",
        statement="Connecting 'archive@name' as a word-addressable file gives, for every subfile of an archive of either format (4 or 5), exactly the words and the size of that subfile, wherever it lies in the archive and whatever other subfiles, units and ordinary files are in use at the same time. A name that is not in the archive is refused, a write to a subfile is refused and the archive is never changed, and no descriptor remains in use after a refusal or a close. An archive that is truncated or damaged is read or refused, never a crash, an endless loop or access outside memory.",
        over=["histories", "inputs", "fault_sequences", "configurations"],
        q="every archive layout, every history of opening, reading, writing and closing subfiles and ordinary files with or without paging, truncations and bit flips anywhere in the archive, failing opens and reads",
        why="No test has a CMCARC file; offsets, sizes and slots depend on the layout of the archive and on what was opened before.",
        files=["src/primitives/c_baseio.c"],
        mech=[("directory search", "filepos, qqcopen"), ("offset and size of a subfile", "qqcget, c_waread2, c_wasize, c_numblks"), ("refusals", "c_wawrit2, c_waopen2, c_fnom")],
        observe=["c_fnom", "c_waopen2", "c_waread2", "c_wasize", "c_numblks", "c_wawrit2", "c_waclos2", "c_fclos"],
        rule="Seeded archives of 0-6 subfiles in three header styles, possibly cut or with flipped bits; histories of opens, reads inside and across the end, sizes, writes, closes and restarts with an ordinary file written alongside, paged or not, with failing opens, failed, short and interrupted reads. Non-trivial: a read that returned words.",
        real=["src/primitives/c_baseio.c"], stub=_STUB, assumptions=_DISK),
    "W04": dict(
        harness="h_io", quick=dict(runs=20000, secs=100), thorough=_T,
        title="Every connected unit reaches its own file, and refusals leave no trace",
        statement="fnom connects a unit to the file named (or creates it, or finds it under the constants directory for an '@' name), never to a unit already connected, and when asked for a free unit it chooses one that no connected file uses, from 11 to 99 for Fortran files. What is written through a unit (word-addressable, stream or Fortran unformatted) is what that unit reads back and what its file holds after fclos, whatever other units are connected; qqqfnom returns the name and type given, within the caller's lengths. A file that must exist and does not, a scratch name with a '/', and a file that cannot be created are refused without creating anything, without keeping the unit, a table entry or a descriptor, any number of times.",
        over=["histories", "fault_sequences"],
        q="every history of connections of the supported types, writes, reads, queries, closings, refused connections in any number, failing opens, crashes and restarts",
        why="Tests connect one or two units once; the table, the choice of a unit and what refused connections leave behind depend on the whole history.",
        files=["src/primitives/c_baseio.c", "src/primitives/f_baseio.F90"],
        mech=[("file table", "c_fnom, find_file_entry, reset_file_entry, c_fclos"), ("choice of a unit", "c_qqqfscr"), ("Fortran units", "qqqf7op, ftnclos"), ("description", "qqqfnom, existe")],
        observe=["c_fnom", "fnom_", "c_fclos", "fclos_", "qqqfnom_", "existe_", "c_waread2", "c_wawrit2", "c_sqgets", "c_sqputw"],
        rule="Seeded histories of 2-8 units on ten file names and eleven types (random, standard, old, read-only, stream, Fortran, scratch), with up to a thousand refused connections, failing opens, failed, short writes, crashes and restarts. Non-trivial: at least one write through a unit.",
        real=["src/primitives/c_baseio.c, src/primitives/f_baseio.F90, the Fortran run-time library"], stub=_STUB, assumptions=_DISK),
    "W05": dict(
        harness="h_rem", quick=dict(runs=30000, secs=90), thorough=_T,
        title="A word-addressable file of another machine reads and writes like a local one",
        statement="Connecting 'host:name' as a word-addressable remote file starts one server for that host, file and access, waits five seconds for it, and then gives exactly the words and size of the file there: every read returns the words last written, every write reaches the file at its addresses (zeros in the gap it skips) by the time the file is closed, and closing tells the server. A server that never answers, answers too late, hangs up or answers nonsense makes the connection of the file refused, leaving no socket open and the unit free for use again; a write to a file connected for reading is refused without being sent. Transfers that are delayed, interrupted or arrive in pieces change nothing, and once the connection is lost a read never returns words that were not read; files of this machine used at the same time are not affected.",
        over=["histories", "fault_sequences", "schedules", "configurations"],
        q="every history of connecting, reading, writing and closing up to four remote files, local files and subfiles at once, every behaviour and delay of the servers, every placement of partial, delayed, interrupted and lost transfers, interleavings with the servers",
        why="No test connects a remote file: it takes a server on another machine, and what matters is what happens when that server is slow, absent or lost.",
        files=["src/primitives/c_baseio.c", "src/primitives/gossip_sock.c"],
        mech=[("connection", "c_fnom, fnom_rem_connect, bind_to_localport, accept_from_sock"), ("requests", "qqcward, qqcwawr, qqcclos, check_swap_records"), ("transfers", "read_stream, write_stream")],
        observe=["c_fnom", "c_waread2", "c_wawrit2", "c_wasize", "c_numblks", "c_waflush", "c_waclos2", "c_fclos"],
        rule="Seeded histories of 10-36 calls on 1-4 units over six remote files on four hosts, a local file and two subfiles of an archive, paged or not, with servers that work, are late, absent, hang up or answer nonsense, socket buffers of 64 bytes to 64 kB and one run in three with a lost connection. Non-trivial: words were written and read.",
        real=["src/primitives/c_baseio.c and the socket calls of src/primitives/gossip_sock.c"], stub=_NET + ["the server on the other machine (r.remote_wa_server), which is not in this repository: a model that serves the requests"],
        assumptions=["the server obeys the requests in the order it receives them", "writes are not acknowledged, so that a write may be lost with the connection without a report"]),
    "P01": dict(
        harness="h_plug", quick=dict(runs=40000, secs=60), thorough=_T,
        title="A plugin gives exactly its own functions while it is loaded, and none after",
        statement="Loading a plugin succeeds exactly when the library can be opened, advertises at least one function and fewer than 256 plugins are loaded; until it is unloaded its handle then gives, whatever other plugins are loaded or unloaded, the number, the names and the order of the functions it advertises, and for a function name the address in that library (advertised or not) or nothing, and a search of all plugins finds an advertised name in one of the plugins loaded. A load that is refused, for want of memory too, leaves no library open; unloading closes the library once, and a handle that is null or already unloaded is refused and gives no name, no function and no count. The indirect interface to the dynamic loader gives the answers of the loader that was registered, and reports failure before one is.",
        over=["histories", "fault_sequences"],
        q="every history of loading, searching and unloading plugins, up to more than the table holds, with libraries of every kind and loads that fail",
        why="The test loads three libraries once; the table is reused after unloading, and a slot left behind by a plugin or by a failed load only matters to a later call.",
        files=["src/primitives/plugin_code.c", "src/primitives/DlInterface.c"],
        mech=[("table of plugins", "load_plugin, unload_plugin"), ("searches", "plugin_function, plugin_function_name, plugin_function_names, plugin_n_functions"), ("indirect loader", "DlOpen, DlSym, DlClose, DlError, DlRegister")],
        observe=["load_plugin", "unload_plugin", "plugin_function", "plugin_function_names", "plugin_function_name", "plugin_n_functions", "DlOpen", "DlSym", "DlClose", "DlError"],
        rule="Seeded histories of 6-60 calls over nine libraries (with and without a list of names, a function giving their number or filling the list, unadvertised functions, names that are missing) and one absent, one run in twenty filling the table of 256, with refused opens and failed allocations. Non-trivial: plugins were loaded.",
        real=["src/primitives/plugin_code.c, src/primitives/DlInterface.c"], stub=["the dynamic loader (dlopen, dlsym, dlclose, dlerror) and the libraries: a model that counts what is open and makes the memory of a closed library unusable"],
        assumptions=["a library that gives its number of functions gives the length of its list"]),
    "O01": dict(
        harness="h_opt", quick=dict(runs=60000, secs=60), thorough=_T,
        title="Options given through the environment are applied as written",
        statement="Reading the options in an environment variable ('name=value;name=(value, value);...', values bare or within brackets or quotes, separated by commas or, outside quotes, blanks) gives the caller's function each value in order, once, with the name of its option in upper case and its number among the values of that option, from C and from Fortran; the variable itself is never changed and can be read again, and up to 32 options of up to 254 characters are given, the others being ignored. A value whose brackets or quotes do not match ends the list, and an empty option, an option without a value, any other text and a want of memory never crash. The options in FST_OPTIONS hold for the standard files of the program: a field of a remapped data type (DATATYPE_REMAP, up to ten pairs) is stored exactly as if it had been written with the other type, other types are stored as given, and TURBOCOMP sets the mode of compression.",
        over=["inputs", "configurations", "histories"],
        q="every text of an options variable, well formed or not, read any number of times, and every set of data type remappings in force while standard files are written",
        why="No test sets FST_OPTIONS; the variable is shared with every later reader and with the programs started, and what it says changes every file written.",
        files=["src/primitives/c_env_var_cracker.c", "src/fstd98/fstd98.c"],
        mech=[("reader of options", "c_env_var_cracker, check_start_end_char, remove_quotes"), ("standard file options", "c_fst_env_var, remap_table in c_fstecr, c_fstopc")],
        observe=["c_env_var_cracker", "getenv", "c_fstecr", "c_fstprm", "c_fstluk", "c_fstopi"],
        rule="Seeded histories of 3-14 readings of three variables holding up to 40 options (well formed, unmatched, too long, too many, or arbitrary text), with failing allocations, and of fields of six data types written under up to ten remappings, each compared with the field written directly as the other type. Non-trivial: options were given and fields written.",
        real=["src/primitives/c_env_var_cracker.c, src/fstd98/*.c, src/primitives/c_baseio.c"], stub=_STUB,
        assumptions=["the remappings are not chained (no type is both remapped and the target of another)", "the option FST_FILTER_FILE, which the library reads but does not use, is not judged"]),
    "R01": dict(
        harness="h_bin", quick=dict(runs=40000, secs=45), thorough=_T,
        title="Binary files written and read through the swapping calls are big-endian",
        statement="fwrite16, fwrite32 and fwrite64 store each element of 2, 4 or 8 bytes at the position of the stream, most significant byte first, and return the number of items written; the caller's array is as it was when they return, whether the write succeeded or not. fread16, fread32 and fread64 return the number of whole items read, which is all those asked or all those left in the file, in the byte order of the machine, and change nothing in the array beyond the item they could not read whole. A size of item that is not a multiple of 2 (16 bits) or of 4 (32 and 64 bits) is refused, with the file and the array unchanged.",
        over=["inputs", "histories", "fault_sequences"],
        q="every sequence of writes, reads and moves of elements of every width in files of any length, with short reads and writes, errors and full disks",
        why="No test uses these calls; the swap in place is undone after a write, so a call that stops half way may leave the caller's array swapped.",
        files=["src/primitives/fread32.c"],
        mech=[("swapped reads", "fread16, fread32, fread64"), ("swapped writes", "fwrite16, fwrite32, fwrite64")],
        observe=["fread16", "fread32", "fread64", "fwrite16", "fwrite32", "fwrite64", "the bytes of the files"],
        rule="Seeded histories of 6-30 opens, writes, reads and moves over two files with 0-40000 items of 1-3 elements, some of a wrong size or on a stream not open for the call, with short transfers, I/O errors, full disks and refused opens; after each close the bytes of the file are compared with the model. Non-trivial: items were written and items were read.",
        real=["src/primitives/fread32.c; the C library's streams"], stub=_STUB,
        assumptions=["an item read by fread64 is a multiple of 8 bytes", "after an error on a stream, what the file holds is not judged until it is written anew"]),
    "Q01": dict(
        harness="h_dir", quick=dict(runs=40000, secs=45), thorough=_T,
        title="Files of directives are carried out as written, and errors are counted",
        statement="Each directive of a file, verb(arg, ...) or verb=arg, ...; possibly on several lines, calls the function registered last for its verb (a verb without any is passed over), in the order of the file, with its private data, the kind of directive and its arguments as written, with their quotes, where a list [a, b] is preceded by the number of its elements and a range <from,to,step> stands for its values, the end excluded unless a step falls on it. A directive that is malformed or too long, or whose function does not return zero, is counted and the rest of its line is skipped, but those of the lines that follow are carried out; the number of errors is returned, one for a file that cannot be opened and at least one when it cannot be read to its end or memory lacks, and nothing that is not a directive of the file is ever carried out.",
        over=["inputs", "histories", "fault_sequences"],
        q="every text made of directives, blanks, line ends and errors in any order, of lines of any length, for every set of functions registered from C or Fortran, with short and failing reads, refused opens and failing allocations",
        why="No test has an error in a directive, a line longer than the buffer or a read that fails; the reader keeps its state in static variables from one directive, and from one file, to the next.",
        files=["src/primitives/read_direct.c"],
        mech=[("reading of the text by pieces", "fill_buffer, Skip_Line, Current_Char"), ("grammar", "Verb, Argument, process_c_callback"), ("table of functions", "rpn_c_callback, rpn_fortran_callback, Find_Callback")],
        observe=["process_c_callback", "process_f_callback", "the calls of the functions registered by rpn_c_callback and rpn_fortran_callback"],
        rule="Seeded texts of 1-12 items (1-3 directives with 1-200 arguments, lists up to 1100 elements, ranges up to 2500 values, or one of 17 kinds of errors followed by directives that must be skipped) in each of 1-8 files read by one process, with registrations between them; lines of up to thousands of characters; faults on the reads, opens and allocations. The calls made and the number of errors are compared with what the items stand for. Non-trivial: a file with at least one directive was read as it should.",
        real=["src/primitives/read_direct.c; the C library's streams"], stub=_STUB,
        assumptions=["a call after a fault may leave directives out, provided that something is reported"]),
    "E03": dict(
        harness="h_geo", quick=dict(runs=120000, secs=90), thorough=_T,
        title="Positions, values and winds asked of one grid in different ways agree",
        statement="The latitude and longitude of a point of a grid are those its descriptors and axes say, are the same from gdll and from gdllfxy, and gdxyfll gives back the position that gdllfxy was given anywhere in the grid. A value asked at a position is the nearest one, or the bilinear combination of the four around it, or with interp_degree cubic the value of the polynomial of degree three through the sixteen around it, and gdllsval at its latitude and longitude and ezsint to a grid with a point there give this same value; a flat field stays flat. The speed that gdwdfuv gives is the modulus of the components, its direction the one they come from with respect to the north at that place, whichever way the grid is turned, gduvfwd gives the components back, and winds carried between two grids by ezuvint or ezwdint are those asked at the same places, all this with any options set and any grids defined before.",
        over=["inputs", "histories", "configurations"],
        q="every grid of 27 families, position, field and option, in any order of definitions and calls, from C and Fortran",
        why="The calls reach the same grid through different code for each kind of grid, hemisphere and reference, and share tables; tests ask one thing of one grid.",
        files=["src/interp/gdllfxy.c", "src/interp/gdxyfll.c", "src/interp/ez_calclatlon.c", "src/interp/gdinterp.c", "src/interp/ez_corrval.c", "src/interp/gdwdfuv.c", "src/interp/gduvfwd.c"],
        mech=[("positions", "c_gdll, c_gdllfxy, c_gdxyfll, ez_calclatlon, ez_ll2rgd, ez_ll2igd"), ("values", "c_gdinterp, c_gdxysval, c_gdllsval, c_ezsint, ez_corrval, ez_defzone_polenord"), ("winds", "c_gdwdfuv, c_gduvfwd")],
        observe=["c_gdll", "c_gdllfxy", "c_gdxyfll", "c_gdxysval", "c_gdllsval", "c_ezsint", "c_gdwdfuv", "c_gduvfwd"],
        rule="Seeded histories of 2-16 options set and comparisons, each over all the points of a grid or as many positions drawn in it: latitudes against descriptors and between calls, positions there and back, values against the field, flat and smooth fields and winds between two grids against values asked one by one, winds there and back and against the directions of the grid's own axes. Non-trivial: a comparison was made.",
        real=["src/interp/*.c, *.inc, the grid descriptor routines they call"], stub=["no component is a stub; no fault is injected, the property is about inputs and histories"],
        assumptions=["single precision: positions to 0.01 degree or 0.02 grid interval, smooth fields to 0.3 where two calls compute the position", "averages, masks, Y, U and '#' grids, A and B grids from north to south and the cells at the edges where values are extrapolated or folded over the poles are not judged"]),
    "F01": dict(
        harness="h_fst", quick=dict(runs=20000, secs=150), thorough=_T,
        title="A standard file returns every record as it was written",
        statement="Every record written to a random-access standard file and not erased or replaced is listed exactly once, with exactly the descriptors given by its writer (as later edited), and its data reads back: bit for bit for transparent, integer, character, IEEE, complex and losslessly compressed fields, within the chosen packing precision for the others; with the missing value feature on, the values marked missing, and no others, read back as missing. Reading never writes beyond the field, writing never changes the caller's field, and an erased record is no longer listed, found, readable or erasable. This holds, through the C and the Fortran interface, for any sequence of writes, rewrites, erasures, edits, copies of undecoded records (image mode), checkpoints, closes and reopenings, any number of records and directory pages; handles that name no record are refused, writing to or erasing from a file opened for reading only is refused and changes none of its bytes, and the file check accepts a closed file and refuses one that was cut short, extended or is missing.",
        over=["histories", "inputs", "configurations"],
        q="every history of record operations on one or more files, every data type and packing width offered, any number of directory pages, with or without file paging",
        why="Tests write a handful of records once; the directory, free handles and data addresses depend on the whole history of the file, across page boundaries and reopenings.",
        files=["src/fstd98/fstd98.c", "src/fstd98/xdf98.c", "src/fstd98/fst_missing.c", "src/primitives/c_baseio.c"],
        mech=[("missing values", "EncodeMissingValue, DecodeMissingValue"), ("record and directory writing", "c_fstecr, c_xdfput, add_dir_page"), ("record reading", "c_fstluk, c_fstprm, c_xdfget2, c_xdfprm"), ("erasing and editing", "c_fsteff, c_xdfdel, c_fst_edit_dir_plus"), ("opening and closing", "c_fstouv, c_fstfrm, c_xdfopn, c_xdfcls")],
        observe=["c_fstecr", "c_fstinl", "c_fstprm", "c_fstluk", "c_fsteff", "c_fst_edit_dir_plus", "c_fstnbrv", "c_fstcheck", "c_fstopi", "fstecr_", "fstluk_", "fstprm_"],
        rule="Seeded histories on 1-2 files of writes of 50 kinds of data (19 with missing value markers, the usual or others), rewrites, erasures, edits, checkpoints, closes, restarts, listings with full read-back, image mode copies, file checks, counts and invalid handles, each call made in C or in Fortran; a reference model holds every record. Non-trivial: at least two writes and a listing or search that returned records.",
        real=["src/fstd98/*.c, src/primitives/c_baseio.c, src/packers/*, src/compresseur/*"], stub=_STUB, assumptions=_DISK),
    "F02": dict(
        harness="h_fst", quick=dict(runs=20000, secs=150), thorough=_T,
        title="What a standard file has committed survives a crash of its writer",
        statement="After a successful checkpoint or close, a crash of the writing process at any later moment outside a checkpoint or close leaves a file that can be opened and that lists exactly the committed records, with the committed descriptors and data (except the data of a record being rewritten), and nothing that was not committed. A crash inside a checkpoint or close may leave the file refused or mixed, but a committed record that is listed unchanged still has its data. A file still marked as open by a dead writer may be refused for writing, never for reading.",
        over=["crash_points", "histories"],
        q="every history of writes, rewrites, erasures, edits and commits, cut at every system call, including torn writes, with restart and continued use",
        why="No test kills a writer; the guarantee depends on the order in which data, directory pages and header reach the disk.",
        files=["src/fstd98/xdf98.c", "src/fstd98/fstd98.c", "src/primitives/c_baseio.c"],
        mech=[("commit order", "c_xdfcls, c_fstckp, c_xdfput"), ("recovery", "c_xdfopn")],
        observe=["c_fstckp", "c_fstfrm", "c_fstouv", "c_fstinl", "c_fstluk"],
        rule="As F01, with a process crash or torn write at a seeded system call, and restarts without closing. Non-trivial: at least two writes and a listing or search that returned records.",
        real=["src/fstd98/*.c, src/primitives/c_baseio.c, src/packers/*, src/compresseur/*"], stub=_STUB, assumptions=_DISK),
    "F03": dict(
        harness="h_fst", quick=dict(runs=8000, secs=180), thorough=_T,
        title="A standard file search returns exactly the matching records, in order",
        statement="A search of a standard file, by any combination of valid date, label, three level or user codes, type and variable name (absent criteria matching everything), continued until it is exhausted, returns every live record that matches exactly once and no other, in the order of the directory, whichever of the ways of iterating, listing or reading next is used, through the C and the Fortran interface. Search masks, level values given in all their encodings, and a starting record select as documented, and a read with a check of the record against its descriptors reads a matching record and nothing else. Listing into a list too short for the result returns the first matches, says so, and does not write past the list; reading by search criteria reads the first match, dimensions given with a match are those of the record, and counts agree.",
        over=["histories", "inputs"],
        q="every file content reached by writes, rewrites, erasures and edits over several directory pages, every combination of criteria",
        why="Tests search files of a few records with one set of criteria; results depend on page boundaries, holes left by erasures and the state kept between calls.",
        files=["src/fstd98/fstd98.c", "src/fstd98/xdf98.c"],
        mech=[("search masks and iteration", "c_fstinfx, c_fstsui, c_fstinl, c_xdfloc, c_xdfloc2"), ("search and read", "c_fstlir, c_fstlirx")],
        observe=["c_fstinf", "c_fstinfx", "c_fstsui", "c_fstinl", "c_fstlir", "c_fstlic", "c_fstlis", "c_fstlirx", "c_fstmsq", "ip1_all", "ip1_val", "c_fstnbrv", "fstinf_", "fstinl_"],
        rule="As F01 with searches of all kinds (masks and levels by value included) dominating the history, on files with up to several directory pages. Non-trivial: at least two writes and a listing or search that returned records.",
        real=["src/fstd98/*.c, src/primitives/c_baseio.c"], stub=_STUB, assumptions=_DISK),
    "F04": dict(
        harness="h_fst", quick=dict(runs=2500, secs=180), thorough=_T,
        title="Linked standard files read as their concatenation",
        statement="While standard files are linked, searches and listings of the first one return the matching records of all of them, in the order of the links, each exactly once and readable; new records go to the first file; erasing or editing a record found through the link changes that record and no other, in the file that holds it. After unlinking and closing, each file holds exactly its own records, with those changes.",
        over=["histories", "inputs"],
        q="every history of operations on 2 to 4 linked files, of any number of directory pages each, including files that grow while linked",
        why="No test links files of more than a few records; positions and handles go through chains of directory pages of several files.",
        files=["src/fstd98/xdf98.c", "src/fstd98/fstd98.c"],
        mech=[("page chain", "c_xdflnk, c_xdfunl, c_xdfloc2, add_dir_page"), ("handles across files", "c_xdfprm, c_xdfget2, c_xdfdel")],
        observe=["c_xdflnk", "c_xdfunl", "c_fstinf", "c_fstinl", "c_fsteff"],
        rule="Seeded histories on 2-4 files filled with up to a few directory pages, linked, used, unlinked, closed and read back. Non-trivial: at least two writes and a listing or search that returned records.",
        real=["src/fstd98/*.c, src/primitives/c_baseio.c"], stub=_STUB, assumptions=_DISK),
    "F05": dict(
        harness="h_fst", quick=dict(runs=20000, secs=150), thorough=_T,
        title="An I/O error never makes a standard file return wrong records",
        statement="When a read, write or open of a standard file fails, is interrupted or is cut short, the operation reports an error, succeeds after retrying, or ends the program; it does not return data or descriptors other than those written, and a record whose writing and commit were reported as successful remains listed and readable. Operations after the failed one, on that file or others, still behave as specified.",
        over=["fault_sequences", "histories"],
        q="every history of record operations with failed, interrupted or short system calls at any point, with or without file paging",
        why="No test injects an I/O error; error paths leave state behind that only later operations reveal.",
        files=["src/fstd98/xdf98.c", "src/fstd98/fstd98.c", "src/primitives/c_baseio.c"],
        mech=[("transfer loops and error returns", "wa_page_read, wa_page_write, qqcget, c_waread2, c_wawrit2"), ("callers", "c_xdfput, c_xdfget2, c_xdfcls, c_xdfopn, c_fstecr, c_fstluk")],
        observe=["c_fstecr", "c_fstluk", "c_fstckp", "c_fstfrm", "c_fstouv"],
        rule="As F01 with one or two failed, short or interrupted reads, writes or opens per history. Non-trivial: at least two writes and a listing or search that returned records.",
        real=["src/fstd98/*.c, src/primitives/c_baseio.c, src/packers/*, src/compresseur/*"], stub=_STUB, assumptions=_DISK),
    "F06": dict(
        harness="h_seq", quick=dict(runs=20000, secs=120), thorough=_T,
        title="A sequential standard file is read and positioned as it was written",
        statement="A sequential standard file is the sequence of records and end of file marks written to it: a record or mark written at the current position replaces everything after it, searches run forward from the current position, return only matching records that are not erased, with their descriptors and data as written, and stop at the first mark or the end, whose level is then reported; rewinding, skipping and appending move over whole records and never across a mark. It stays so through the C and the Fortran interface, across erasures, listings, searches from a record, checkpoints, close, reopening and restart, and changes to a file opened read-only are refused. What precedes the position of an interrupted or failed write is not affected by it, and reading or positioning a file so damaged ends.",
        over=["histories", "crash_points", "fault_sequences", "configurations"],
        q="every history of writes, marks, searches, positioning, erasures, closes and restarts on one or two sequential files, with or without file paging, with crashes and I/O faults at any point",
        why="No test opens a sequential file; the position left by each operation decides what the next one reads or overwrites.",
        files=["src/fstd98/fstd98.c", "src/fstd98/xdf98.c", "src/primitives/c_baseio.c"],
        mech=[("searching and positioning", "next_match, c_xdfloc2, c_fstskp, c_fstrwd, c_fstapp"), ("writing and marks", "c_fstecr, c_xdfput, c_fstweo, c_fsteof"), ("erasing, closing", "c_fsteff, c_xdfdel, c_xdfcls")],
        observe=["c_fstouv", "c_fstecr", "c_fstinf", "c_fstinfx", "c_fstsui", "c_fstinl", "c_fstprm", "c_fstluk", "c_fstskp", "c_fstrwd", "c_fstapp", "c_fstweo", "c_fsteof", "c_fsteff"],
        rule="Seeded histories on 1-2 sequential files of writes of 18 kinds of data, marks, rewinds, skips, appends, searches, listings, erasures, closes, restarts and whole-file scans, paged or not, with crashes, torn, short, failed and interrupted I/O. Non-trivial: at least two writes and a scan or search that returned records.",
        real=["src/fstd98/*.c, src/primitives/c_baseio.c, src/packers/*, src/compresseur/*"], stub=_STUB, assumptions=_DISK),
    "F07": dict(
        harness="h_sel", quick=dict(runs=12000, secs=100), thorough=_T,
        title="Selection directives hide exactly the records they exclude from searches",
        statement="Searches of a standard file (c_fstinf, c_fstsui, c_fstinl, c_fstlir and their Fortran forms) return, each once and in order, exactly the records that match the search and that the selection directives in force accept: among the directive sets of the selected range the first one whose criteria (name, type, label, date with intervals and deltas, ip1-3 with intervals, deltas and both level encodings, ig1-4 and grid type) the record satisfies decides, a desire set accepting and an exclude set hiding it; a record that satisfies none is accepted only if no desire set is in use. This holds for directives given by calls or read from a table file, for every number of sets and criteria and every history of setting, resetting, choosing sets, switching filtering off and on, writing, erasing and reopening. A refused directive or choice changes nothing, a directive table that cannot be read whole is reported, and erasing or reading by handle, writing and replacing a record are not affected by the directives.",
        over=["histories", "fault_sequences", "configurations"],
        q="every history of directives, tables of directives, resets, choices of sets, searches and writes on one or two files, with read errors and short reads of the tables",
        why="No test sets a directive; the sets are shared state of the process that decides what every later search returns.",
        files=["src/fstd98/excdes_new.c", "src/fstd98/fstd98.c", "src/fstd98/xdf98.c"],
        mech=[("criteria", "C_select_groupset, C_filtre_desire, C_filtre_exclude, Xc_Select_*, C_requetes_reset, RequetesInit"), ("decision", "C_fst_match_req, C_fstmatch_parm, match_ip, match_date"), ("tables", "ReadRequestTable, C_requetes_read_file"), ("searches", "next_match, file_filter of c_xdfloc2, c_fstecr")],
        observe=["Xc_Select_ip1", "Xc_Select_date", "Xc_Select_etiquette", "Xc_Select_nomvar", "Xc_Select_typvar", "Xc_Select_suppl", "C_select_groupset", "C_requetes_reset", "C_requetes_read_file", "c_fstinf", "c_fstsui", "c_fstinl", "c_fstlir", "c_fsteff", "c_fstecr"],
        rule="Seeded histories of 10-120 operations on 1-2 files over 50 sets and all criteria, with 1 to many values, wildcards, out of range sets, malformed values, and generated table files whole or cut short, against a model of the directives; short, failed and interrupted reads and failed opens of the tables. Non-trivial: a search with a directive in force that returned some and hid some records.",
        real=["src/fstd98/*.c, src/primitives/c_baseio.c, src/packers/*, src/fstd98/convip.f"], stub=_STUB, assumptions=_DISK),
    "B01": dict(
        harness="h_burp", quick=dict(runs=20000, secs=120), thorough=_T,
        title="A weather report file gives back the reports and blocks as they were built",
        statement="A report (BURP) is a header and an ordered list of blocks: initialising or updating a header sets exactly the fields given, and adding, replacing, removing, searching, listing and extracting blocks give back the elements, values, dimensions, family and type as given, in order, for every block size and data type; an operation that does not fit, is invalid or names a block that does not exist is refused and leaves the report as it was, and nothing outside the report buffer or the caller's arrays is touched, through the C or the Fortran interface. A report written to a file is found by exactly the searches (with wildcards) its header matches and read back with the same header and blocks until deleted or replaced, across any history of writes, deletions, closes and reopenings, with file paging and I/O errors on other operations; after a crash outside open and close the file still opens for reading with the reports of its last close. Changes to a file opened read-only, reports too big for the reading buffer and handles that name no report are refused.",
        over=["histories", "crash_points", "fault_sequences", "configurations"],
        q="every history of report building and of writes, searches, deletions, closes and restarts on one or two report files, for every block shape and data type, with crashes and I/O faults at any point",
        why="No test builds a report or opens a report file; bit-packed blocks shift every block after them, so what one operation leaves decides what the others read.",
        files=["src/fstd98/burp98.c", "src/fstd98/c_burp.c", "src/burp98_f/mrbprm.F90", "src/burp98_f/mrbprml.F90", "src/fstd98/xdf98.c", "src/primitives/c_baseio.c"],
        mech=[("blocks in a report", "c_mrbadd, c_mrbdel, c_mrbrep, c_mrbxtr, c_mrbprm, mrbprml, c_mrblocx, c_xdfadd, c_xdfins, c_xdfcut, c_xdfrep, c_xdfxtr"), ("headers and searches", "c_mrbini, c_mrbupd, c_mrbhdr, c_mrfloc, c_mrfprm, build_burp_prim_keys, build_burp_info_keys"), ("files", "c_mrfopn, c_mrfput, c_mrfget, c_mrfdel, c_mrfcls, c_xdfput, c_xdfget2")],
        observe=["c_mrbini", "c_mrbupd", "c_mrbhdr", "c_mrbadd", "c_mrbdel", "c_mrbrep", "c_mrbxtr", "c_mrbprm", "c_mrbprml", "c_mrbloc", "c_mrblocx", "c_mrblen", "c_mrfopn", "c_mrfput", "c_mrfget", "c_mrfloc", "c_mrfprm", "c_mrfdel", "c_mrfnbr", "c_mrfmxl", "c_mrfcls", "mrbadd_", "mrbxtr_", "mrbhdr_", "mrfput_", "mrfget_"],
        rule="Seeded histories on 3 report buffers of 24-3000 words and 1-2 files of header and block operations, in C or in Fortran (9 data types, 1-300 elements, 1-258 values, 1-32 bits), writes, reads, searches, deletions, invalid calls, closes and restarts, paged or not, with crashes, torn, short, failed and interrupted I/O. Non-trivial: at least one report written and one read or found.",
        real=["src/fstd98/*.c, src/burp98_f/*.F90, src/primitives/c_baseio.c, src/packers/*"], stub=_STUB, assumptions=_DISK),
    "H01": dict(
        harness="h_wb", quick=dict(runs=20000, secs=90), thorough=_T,
        title="A whiteboard returns for every key what was last put there, or refuses",
        statement="A whiteboard is a dictionary of typed keys, whatever the number, sizes and order of the puts and whatever the case of the names: a get of the right type and shape returns what was last put, by a put or by a directive file, and never what another key holds; a get or put of the wrong type, size or shape, of a key never set, too long a name, a write-once or locked key, or a freed board is refused, and neither a get nor a put touches anything but its key and the caller's array. A key whose last put failed cannot be read until one succeeds. Listing, counting and locking by prefix take exactly the matching keys, and reading a section of a directive file applies exactly its correct directives and reports whether any was wrong.",
        over=["histories"],
        q="every history of puts, gets, creations, locks, listings and directive files on the global and three other boards",
        why="The tests put and get a few keys; entries of any size share pages, so what one put leaves decides what the others read.",
        files=["src/whiteboard/WhiteBoard_c.c", "src/whiteboard/WhiteBoard.h", "src/primitives/f_logical2int.f90"],
        mech=[("keys and pages", "c_wb_put, c_wb_get, c_wb_lookup, lookup_line, new_line, new_page, fill_line"), ("options and locks", "c_wb_check, c_wb_lock, wb_cb_read_only, flags_to_options"), ("directive files", "c_wb_read, wb_define, wb_key, wb_options, wb_get_token, wb_getc, wb_define_check")],
        observe=["c_wb_put", "c_wb_get", "f_wb_put", "f_wb_get", "f_wb_get_meta", "f_wb_get_keys", "f_wb_check", "f_wb_lock", "f_wb_new", "f_wb_free", "f_wb_read"],
        rule="Seeded histories of 10-160 operations on 4 boards over 10-44 names (shared prefixes, mixed case, 1-28 characters or more), all types, scalars and arrays of 1-700 elements, strings of 1-520 characters, every option, and 3 generated directive files (options, definitions, values, errors, comments, continuations). Directive files that change a write-once key are not judged on it. No faults: there is nothing outside memory but reading the directive files. Non-trivial: at least one value read back.",
        real=["src/whiteboard/WhiteBoard_c.c, src/primitives/f_logical2int.f90"], stub=_STUB, assumptions=["The Fortran generic interfaces (wb_get, wb_put) are entered at the f_wb_* routines they call."]),
    "H02": dict(
        harness="h_wb", quick=dict(runs=20000, secs=120), thorough=_T,
        title="A whiteboard checkpoint is reloaded whole and as written, or refused",
        statement="After a checkpoint that reported success, a new process that reloads it, explicitly or by its first put, finds exactly the keys, values and options of the global whiteboard at that time: local keys are unset, keys marked read-only on restart are locked if they were set, keys marked rewritable at restart are unlocked, and every key is marked as coming from a restart. A checkpoint interrupted by a crash, a full disk or an I/O error reports it and is later either reloaded whole, replaced by nothing (the previous one still whole) or refused with an error, never reloaded in part; a failed reload leaves the whiteboard unloaded. Short and interrupted transfers change nothing, and a reload over an initialised whiteboard is refused.",
        over=["histories", "crash_points", "fault_sequences"],
        q="every history of whiteboard operations, checkpoints, reloads and restarts with crashes and I/O faults at any system call of a checkpoint or reload",
        why="No test writes a checkpoint, restarts or fails a write; what survives depends on where the process stopped.",
        files=["src/whiteboard/WhiteBoard_c.c", "src/whiteboard/WhiteBoard.h"],
        mech=[("checkpoint", "c_wb_checkpoint, ckpt_write"), ("reload", "c_wb_reload, ckpt_read, wb_init, wb_cb_read_only_if_set, wb_cb_read_write, wb_cb_undefined, wb_cb_from_restart"), ("file name", "c_wb_checkpoint_name, f_wb_checkpoint_name")],
        observe=["c_wb_checkpoint", "c_wb_reload", "f_wb_checkpoint_name", "f_wb_checkpoint_get_name", "c_wb_put", "f_wb_get_meta", "f_wb_get"],
        rule="The histories of H01 with checkpoints to two files, reloads, restarts with and without reload, and crashes, torn, short, failed and interrupted writes and reads at any call of a checkpoint, reload or first put. Non-trivial: a successful checkpoint and a value read back.",
        real=["src/whiteboard/WhiteBoard_c.c"], stub=_STUB, assumptions=_DISK),
    "M01": dict(
        harness="h_gmm", quick=dict(runs=40000, secs=100), thorough=_T,
        title="GMM: a named field is one array that keeps its contents until deleted",
        statement="After gmm_create, gmm_get with the name, data type and rank of a field gives its array with the bounds asked for and the contents last stored in it, whatever is done to other fields, through renames, cyclic gmm_shuffle (also of lists with missing fields) and metadata updates, until gmm_delete; its metadata is what gmm_create and gmm_updatemeta left. Two fields never share an array or a key; a name that exists is not created again, a field is not given as another type or rank, an unknown name is not found, and a creation that is refused or whose memory cannot be had leaves nothing behind. gmm_nkeys and gmm_keys, with or without a prefix, report exactly the fields that exist, and fields can be created and deleted without end as long as no more than 2048 exist.",
        over=["histories", "fault_sequences"],
        q="every history of creations, look-ups, stores, deletions, renames, shuffles, metadata updates and listings of fields of the 20 types and ranks, with failing allocations",
        why="The one test creates a single field; names, arrays and table entries are shared state of all fields of the process.",
        files=["src/gmm/rmn_gmm_mod.F90", "src/gmm/gmm_create.tmpl90", "src/gmm/gmm_get.tmpl90", "src/gmm/gmm_pointer_table.tmpl90", "src/gmm/gmm_dealloc_ptr.tmpl90"],
        mech=[("directory", "find_directory_entry, add_directory_entry, check_directory_entry"), ("arrays", "gmm_create, gmm_get, gmm_delete, gmm_add_table_entry, gmm_get_nxt_avail_ptr"), ("names and metadata", "gmm_rename, gmm_shuffle, gmm_keys, gmm_getmeta, gmm_updatemeta")],
        observe=["gmm_create", "gmm_get", "gmm_delete", "gmm_rename", "gmm_shuffle", "gmm_keys", "gmm_nkeys", "gmm_getmeta", "gmm_updatemeta"],
        rule="Seeded histories over up to 16 names (prefixes of one another, with trailing blanks, longer than 32 characters), hundreds of further fields, fields created and deleted thousands of times, arrays given by the caller and arrays no memory can hold, against a map of fields. Non-trivial: a creation and a look-up.",
        real=["src/gmm/rmn_gmm_mod.F90 and its templates"], stub=_STUB, assumptions=_DISK),
    "M02": dict(
        harness="h_gmm", quick=dict(runs=30000, secs=120), thorough=_T,
        title="A GMM checkpoint gives the restarted process every restart field unchanged",
        statement="After gmm_checkpoint_all has written a checkpoint and returned GMM_OK, a new process that reads it before creating fields finds exactly the fields that had the restart flag, with their names, types, bounds, metadata and contents at that time, marked as read from a restart, and gmm_create of one of them gives the restored array without initialising it, refusing other types or dimensions. A checkpoint that a crash interrupts or that a full disk or I/O error prevents reports it, if the process lives, and a restart then finds the previous checkpoint whole or the new one whole. Short and interrupted transfers change nothing.",
        over=["histories", "crash_points", "fault_sequences"],
        q="every history of field operations, checkpoints and restarts with crashes and I/O faults at any system call of a checkpoint or of reading it",
        why="No test writes a checkpoint or restarts from one; what survives depends on where the process stopped.",
        files=["src/gmm/rmn_gmm_mod.F90", "src/gmm/gmm_checkpoint.tmpl90", "src/gmm/gmm_create.tmpl90"],
        mech=[("checkpoint", "gmm_checkpoint_all, gmm_checkpoint_141 to 384"), ("restart", "gmm_checkpoint_all, gmm_create")],
        observe=["gmm_checkpoint_all", "gmm_create", "gmm_get", "gmm_getmeta", "gmm_keys"],
        rule="The histories of M01 with checkpoints, restarts and fields up to some 500 kB, and crashes, torn, short, failed and interrupted writes and reads and failing opens at any call of a checkpoint or restart. Non-trivial: a creation and a look-up.",
        real=["src/gmm/rmn_gmm_mod.F90 and its templates", "fnom and fclos", "the Fortran run-time library's unformatted I/O"], stub=_STUB, assumptions=_DISK + ["a single I/O error in the middle of a record larger than the Fortran library's buffer is not injected: the library does not report it"]),
    "E01": dict(
        harness="h_ez", quick=dict(runs=24000, secs=110), thorough=_T,
        title="Interpolation answers depend on grids and options, never on what came before",
        statement="Every answer of the interpolation package (scalar and wind interpolation between two grids, positions from latitudes and back, values at points, latitudes and longitudes, descriptors, wind conversions) is, bit for bit, the one a process which only sets the same options (interp_degree nearest, linear or cubic, extrap_degree, extrap_value, polar_correction) and defines the grids involved would give, whatever grids were defined, released or defined again, whatever interpolations were done and options changed before, in any number. A grid defined again while it is live gets the same handle, and two different live grids never share one, whether they differ by their size, descriptors, axes or reference. No call changes the fields, latitudes, longitudes or positions it is given to work on, an option other than the one set, or the pair of grids chosen by the last ezdefset.",
        over=["histories", "configurations"],
        q="every history of definitions, releases, choices of pairs, interpolations, point queries and options over 28 families of grids (L A B G N S E, Z on L, E and N, Y, Yin-Yang U) and up to 400 small grids, from C and Fortran",
        why="The answers come from tables and caches (grids, sets of grids, positions, zones, latitudes, expanded sources) filled by earlier calls; a test that interpolates once between two grids finds them all empty.",
        files=["src/interp/ezdefset.c", "src/interp/ez_addgrid.c", "src/interp/ez_findgrid.c", "src/interp/gdrls.c", "src/interp/ez_calcxy.c", "src/interp/ez_defzones.c", "src/interp/ezsint.c", "src/interp/ezuvint.c", "src/interp/ezyysint.c"],
        mech=[("grids", "c_ezgdef_fmem, c_ezqkdef, c_ezgdef_supergrid, c_ez_findgrid, c_ez_addgrid, ez_calc_crc, c_gdrls"), ("sets", "c_ezdefset, ez_find_gdin_in_gset, reallocate_gridset_table, c_ezfreegridset"), ("cached positions", "ez_calcxy, ez_calclatlon, ez_defzones, ez_calcxy_y, c_ezyy_calcxy, c_ezyymint"), ("options", "c_ezsetopt, c_ezsetval, groptions")],
        observe=["c_ezsint", "c_ezuvint", "c_ezwdint", "c_gdxyfll", "c_gdllfxy", "c_gdll", "c_gdllsval", "c_gdxysval", "c_gdllvval", "c_gdxywdval", "c_gdllwdval", "c_gdxyvval", "c_gdwdfuv", "c_gduvfwd", "c_ezgprm", "c_ezgxprm", "c_gdgaxes", "c_gdxpncf", "c_ezgdef_fmem", "c_gdrls"],
        rule="Seeded histories of 6-60 operations, most on grids that differ in one axis point, that share a hash or that only differ by their hemisphere, with up to 400 other grids defined in between (several chunks of the tables) and up to 200 sources interpolated to one target; every answer is compared with the answer of a process forked afresh. Non-trivial: two answers or more in one history.",
        real=["src/interp/*.c, *.inc, the grid descriptor routines they call"], stub=["no component is a stub; no fault is injected, the property is about histories"],
        assumptions=["the reference is the same library in a new process: an error which every process makes is not seen", "averages (interp_degree average, sph_average), masks, '#' grids and grids read from files are not exercised", "Yin-Yang grids and the grids that make them up are not released"]),
    "E02": dict(
        harness="h_ezf", quick=dict(runs=20000, secs=120), thorough=_T,
        title="A grid defined from a standard file is the grid its positional records describe",
        statement="A grid of type Z, Y, # (tile), U (Yin-Yang) or blank defined from a standard file (ezqkdef, ezgdef_ffile, ezgdef with 'FILE', from C or Fortran, with its dimensions given or left to be found) is the grid described by the positional records of that file that have its name and tags: its descriptors, axes and subgrids are theirs, and every interpolation, position or wind conversion it takes part in gives, bit for bit, what a process gives that has the same axes in memory, whatever other records (of other names, tags, lengths, other grids) stand before or after them in the file, however they are packed, and whatever was defined, released or failed before; it is refused when these records are not in the file or the file is not open; it gets the same handle when it is defined again while live and never that of another grid. Defining a grid changes no byte of the file; a read that is short or interrupted changes nothing, and one that fails never gives a wrong grid.",
        over=["histories", "fault_sequences"],
        q="every history of writing, erasing and rewriting positional records among others in three files, definitions from them in all the ways offered, releases, questions and interpolations, with short, interrupted and failing reads during the definitions",
        why="No test defines a grid from a file; which records are taken depends on everything else in the file, and what a failed or repeated definition leaves behind decides the next ones.",
        files=["src/interp/ezgdef_ffile.c", "src/interp/ez_lireEnrPositionnels.c", "src/interp/ezqkdef.c", "src/interp/ezgdef.c", "src/interp/ez_findgrid.c", "src/interp/ez_addgrid.c"],
        mech=[("records", "LireEnrPositionnels, c_fstinf, c_fstprm, c_fstluk"), ("definition", "c_ezgdef_ffile, c_ezgdef_yymask, c_ezgdef_fll, RemplirDeBlancs"), ("table of grids", "c_ez_findgrid, c_ez_addgrid, ez_calc_crc, c_gdrls"), ("entry points", "c_ezqkdef, c_ezgdef, ezgdef_ffile_, ezqkdef_, ezgdef_")],
        observe=["c_ezqkdef", "c_ezgdef_ffile", "c_ezgdef", "c_ezgprm", "c_ezgxprm", "c_gdgaxes", "c_ezget_subgridids", "c_ezsint", "c_ezuvint", "c_gdxyfll", "c_gdllfxy", "c_gdllsval", "c_gdrls"],
        rule="Seeded histories of 6-60 operations over one to five file grids (Z on E, L, N and S, across the meridian of Greenwich, global, west longitudes; Y; tiles; Yin-Yang) in up to three files with decoy records (half of the runs), half of them compressed; the reference is a process forked afresh that defines the same axes in memory. Non-trivial: at least one answer of a grid defined from a file.",
        real=["src/interp/*.c, *.inc, src/fstd98/*.c, src/primitives/c_baseio.c"], stub=_STUB,
        assumptions=_DISK + ["the library may end the process when a read fails", "a record written again has the same label and date as before; two records of the same name, tags and length are never both present with different contents", "the dimensions are given when records of other lengths are about, and for tiles and Yin-Yang grids", "Yin-Yang grids are not released"]),
    "D01": dict(
        harness="h_date", quick=dict(runs=60000, secs=100), thorough=_T,
        title="Dates convert, and add up in the calendar in force, from any thread",
        statement="Each conversion of newdate, idatmg2, datmgp2, datec and jdatec between printable dates, date-time stamps (old, new, extended), true dates and date arrays gives the date that the proleptic Gregorian calendar and the documented encodings define, from year 0 to 9999 (1900 to 2235 for the basic ones), and refuses dates that do not exist; incdatr, incdati, difdatr and difdati add and subtract hours in the calendar in force (gregorian, 365_day or 360_day). That calendar is the one NEWDATE_OPTIONS named when the process started, or else the last one set, whatever was computed before; calls made by the threads of a parallel region each give an answer that is right for a calendar in force while they ran, under every interleaving. The current date, local or GMT, is that of the system clock for every time zone offset and after every jump of the clock.",
        over=["schedules", "histories", "fault_sequences"],
        q="every history of conversions, additions, differences and changes of calendar over processes with any NEWDATE_OPTIONS, every interleaving of 2 to 6 threads making these calls, every clock value and jump, nine time zones",
        why="The one test of dates samples a few; the answers depend on the calendar chosen earlier or by another thread, on the environment and on the clock, and the calendars differ at a few days of a few years.",
        files=["src/base/moduledate.f90", "src/base/set_user_lock.F90", "src/base/system_time.F90", "src/base/datec.f", "src/base/jdatec.f", "src/base/c_time.c", "src/primitives/f_gettimeofday.c"],
        mech=[("conversions", "naetwed, itdmag2, dmagtp2"), ("arithmetic", "IDNACTr, LeapYear_Adjust_int, CcclxDays_Adjust_int"), ("calendar", "NewDate_Options_int, Get_Calendar_Status_int"), ("lock", "date_thread_lock, set_user_lock"), ("clock", "world_date_and_time")],
        observe=["newdate_", "incdatr_", "incdati_", "difdatr_", "difdati_", "idatmg2_", "datmgp2_", "newdate_options_", "get_calendar_status_", "get_leapyear_status_", "datec_", "jdatec_", "system_time_", "world_date_and_time_", "c_time_", "f_gettimeofday_"],
        rule="Seeded histories of 8-70 calls, on dates weighted towards the ends of the ranges, of years and of Februaries, over up to four processes with their own environment; in four runs of ten the calls are made by 2-6 threads numbered as in an OpenMP region, pre-empted at every access to shared memory. Non-trivial: more than three calls answered.",
        real=["src/base/moduledate.f90, set_user_lock.F90 (compiled as for OpenMP, with memory-access hooks)", "src/base/system_time.F90, datec.f, jdatec.f, c_time.c, src/primitives/f_gettimeofday.c, getenvc.c", "libgfortran's date_and_time, libc's time zones"],
        stub=["OpenMP run-time library (thread numbers and the critical section)", "thread scheduling, clock (simulated at the libc and pthread boundary)", "App logging submodule (replaced by a stand-in)"],
        assumptions=_SC + ["365-day and 360-day arithmetic is judged for dates that exist in these calendars; results within two days of the ends of the basic range, parts of an hour before 1980 or in sums that leave that range and NEWDATE_OPTIONS with several years are not judged"]),
    "S01": dict(
        harness="h_jar", quick=dict(runs=60000, secs=90), thorough=_T,
        title="A data jar gives back what was inserted in it, and refuses what does not fit",
        statement="A data jar (rmn_jar) is a buffer of a fixed number of 64-bit elements: objects and strings inserted at its top or at a position are there until they are overwritten, with zeros in what was skipped and the top of the jar at the end of the last insertion; objects extracted in order or from a position, and the contents seen as an array, are what was inserted, byte for byte and no byte more. A creation whose memory cannot be had or expressed, an insertion that does not fit, an extraction beyond the top and any use of a jar without contents are refused and change neither the jar nor the object; a jar shaped from an array works in that array, within its bounds, and never frees it. This holds for any history of creating, shaping, resetting and freeing jars, whichever thread uses them, and for contents carried to another process.",
        over=["histories", "fault_sequences", "schedules"],
        q="every history of calls on up to 12 jars of 1 to 1600 elements, objects of 0 to 3200 bytes at any position, every allocation failure, every interleaving of up to three threads with their own jars",
        why="Two tests insert and extract a few objects in order; positions, refusals, reuse after reset and free and the rounding to elements combine in ways they do not try.",
        files=["src/serializer/jar_mod.F90"],
        mech=[("insertion", "jar_put_into, jar_put_string_into"), ("extraction", "jar_get_outof, jar_get_string_outof"), ("memory", "jar_new_i8, jar_shape_with, jar_free, jar_final")],
        observe=["jar%new", "jar%shape_with", "jar%insert", "jar%insert_string", "jar%extract", "jar%extract_string", "jar%reset", "jar%free", "jar%f_array", "jar%full_f_array", "jar%get_top"],
        rule="Seeded histories of 20-150 calls weighted towards jars that are nearly full, with the state of the jar compared after each call; in three runs of ten the calls are made by 2-3 threads, pre-empted at every access to the memory of the jars. Non-trivial: more than five calls.",
        real=["src/serializer/jar_mod.F90 (compiled with memory-access hooks)"],
        stub=["thread scheduling and allocation failures (simulated at the libc and pthread boundary)"],
        assumptions=_SC + ["objects are whole bytes; assignment of a jar to another is not judged"]),
    "K01": dict(
        harness="h_kind", quick=dict(runs=16000, secs=80), thorough=_T,
        title="The kind of a file is told from its own bytes, and asking leaves no trace",
        statement="Asked for the kind of a file (c_wkoffit), the library answers with the code of its signature for files of every kind it knows (the standard, report, archive, Fortran, RSF, SQLite, netCDF, HDF5, GRIB, BUFR and image files), says that a file is missing, empty or of no known kind when it is, and says that a random standard file or a report file is corrupted when its size does not agree with its header. The answer depends on nothing but the bytes of the file: not on the files examined before, how short the file is, how the name is written (leading +, trailing blanks), or reads completed only partly, and after a failed read, open or allocation the next answers are right. Asking, like checking with c_fstcheck or c_burpcheck, changes no byte of the file, leaves no descriptor open and never ends the process.",
        over=["histories", "fault_sequences"],
        q="every history of files of 45 families made, written by the library, cut, lengthened, changed, copied, removed and examined, whatever the stack holds, with short, interrupted and failing reads, opens and allocations",
        why="No test asks for the kind of a file; signatures are looked for in buffers larger than most files, so what earlier calls left there can decide.",
        files=["src/primitives/wkoffit.c", "src/fstd98/xdf98.c", "src/fstd98/fstd98.c", "src/fstd98/burp98.c"],
        mech=[("signatures", "c_wkoffit, fread32, isftnbin"), ("images and printing", "test_fichier, isgif, isrrbx, issun, isxwd, isppm, iskmw, isps, ispcl, ReadFileType"), ("integrity", "c_fstcheck, c_burpcheck, c_xdfcheck")],
        observe=["c_wkoffit", "c_fstcheck", "c_burpcheck", "fstcheck_"],
        rule="Seeded histories over 2-6 files of 8-44 operations, each examination preceded by filling the stack with zeros, noise or signatures; files of the library's own making (standard, report, Fortran) and templates of each known kind with random contents, then cut anywhere, lengthened or changed. A changed file is only required to get the same answer every time. Non-trivial: at least four examinations and three different answers.",
        real=["src/primitives/wkoffit.c, src/fstd98/*.c, src/primitives/c_baseio.c"], stub=_STUB, assumptions=_DISK + ["RRBX plot files, which are Fortran files too, and directories are not examined"]),
    "C01": dict(
        harness="h_sys", quick=dict(runs=14000, secs=80), thorough=_T,
        title="File and environment calls made from Fortran do just what they report",
        statement="Each call offered to Fortran programs for files, directories, links and the environment (clib_*, rename_c, remove_c, mkdir_c, getenvc, resetenv, array_to_file, array_from_file) does to the tree, the current directory and the environment exactly what the system call it stands for does to the names given without their trailing blanks, whatever bytes surround the Fortran strings, and reports success exactly when that call succeeded. A call that reports failure has changed nothing (clib_mkdir_r may leave the upper directories it made), and a system call that fails for any reason is reported. Answers (values, paths, sizes, times, lists of names) are those of the system, complete, padded with blanks and never written outside of the string given; an answer that does not fit is refused, only getenvc cuts it.",
        over=["histories", "fault_sequences"],
        q="every history of 29 kinds of calls over a tree of files, directories, links (dangling, looping, to directories) and fifos with any permissions, names of 0 to 5000 characters with any padding and surroundings, answers of 1 to 300 characters, and failing system calls",
        why="The tests of these calls only ask for the classes of a few characters; what they do depends on the tree and on bytes the caller does not control.",
        files=["src/primitives/clib_interface.c", "src/primitives/clib_interface2.c", "src/primitives/ftn2c_helper_c.c", "src/primitives/rename_c.c", "src/primitives/remove_c.c", "src/primitives/mkdir_c.c", "src/primitives/getenvc.c", "src/primitives/resetenv.c", "src/primitives/array_file.c"],
        mech=[("strings", "ftn2c_string_copy, ftn2c_cstra_fstra"), ("tree", "clib_mkdir, clib_mkdir_r, mkpath, clib_rename, clib_remove, clib_rmdir, clib_unlink, clib_symlink, clib_chdir"), ("questions", "clib_stat, clib_size, clib_isfile, clib_glob, clib_realpath, clib_basename"), ("environment", "clib_getenv, clib_putenv, getenvc, resetenv"), ("files as arrays", "array_to_file, array_from_file")],
        observe=["clib_*", "rename_c_", "remove_c_", "mkdir_c_", "getenvc_", "resetenv_", "array_to_file_", "array_from_file_"],
        rule="Seeded histories of 10-90 calls over a tree that starts empty or small; before each call the same system call is made on a copy of the simulated tree, which is then put back, and the tree, the current directory, the answer and the environment are compared afterwards; up to four system calls that change or list the tree fail. dirname of a name directly under / is only required to be refused, as it always was. Non-trivial: two changes done, one refused, four kinds of calls.",
        real=["src/primitives/clib_interface.c, clib_interface2.c, ftn2c_helper_c.c, rename_c.c, remove_c.c, mkdir_c.c, getenvc.c, resetenv.c, array_file.c"], stub=_STUB, assumptions=_DISK + ["permissions are those of the owner; a current directory is not removed"]),
    "T01": dict(
        harness="h_thr", quick=dict(runs=20000, secs=90), thorough=_T,
        title="Thread helpers: locks exclude, events wait for their value, joins wait",
        statement="At most one thread at a time holds a lock obtained from create_lock, and updates made under it are never lost. wait_event returns once the event has been posted with the awaited value, without losing the wake-up for any number of waiters, and join_thread returns after the named thread has finished. This holds under every interleaving of threads, for the C and the Fortran entry points, and also when creating a thread fails, which is reported.",
        over=["schedules", "fault_sequences"],
        q="every interleaving of 2 to 8 threads taking single and nested locks, posting and awaiting events and being joined, with failing thread creation",
        why="No test creates a thread; lost wake-ups, uninitialised locks and truncated thread ids depend on the schedule.",
        files=["src/primitives/f90_threads.c"],
        mech=[("locks", "c_create_lock, c_acquire_lock, c_release_lock"), ("events", "c_create_event, c_post_event, c_wait_event, c_check_event"), ("threads", "c_create_thread, c_join_thread, c_id_thread")],
        observe=["create_lock_", "acquire_lock_", "release_lock_", "create_event_", "post_event_", "wait_event_", "create_thread_", "join_thread_"],
        rule="Seeded programs of critical sections, nested locks, posts, waits and ping-pong pairs run by 2-8 threads; the scheduler chooses the running thread at every synchronisation call and instrumented memory access. Non-trivial: at least one thread joined.",
        real=["src/primitives/f90_threads.c (compiled with memory-access hooks)"], stub=_THR, assumptions=_SC),
    "G03": dict(
        harness="h_thr", quick=dict(runs=10000, secs=90), thorough=_T,
        title="The gossip client table gives every connected client its own slot",
        statement="Every client accepted by start_client_thread_2 is served by its own thread with exactly the user, process, socket, command and data it was started with, in a slot and under an id no other running client shares, for as long as it runs. When all clients have left, by exit_from_client_thread or exit_from_client, none is counted and every slot can be used again, and clients beyond the capacity of the table are refused without disturbing the others. This holds when several threads accept clients at once and when a client's thread cannot be created.",
        over=["schedules", "histories", "fault_sequences"],
        q="every interleaving of up to three accepting threads and up to 140 clients starting, running and leaving, in several waves, with failing thread creation",
        why="No test starts a gossip client; slots and ids are shared state of all threads of the server.",
        files=["src/primitives/gossip_thread.c"],
        mech=[("slots", "start_client_thread_2, start_client_thread_now, start_client_thread_aux"), ("leaving", "exit_from_client_thread, exit_from_client, decrement_client_count")],
        observe=["start_client_thread_2", "exit_from_client_thread", "exit_from_client", "get_client_count", "decrement_client_count"],
        rule="Seeded waves of clients started by 1-3 accepting threads, each client checking its slot while it runs; the scheduler chooses the running thread at every synchronisation call and instrumented memory access. Non-trivial: at least one client served.",
        real=["src/primitives/gossip_thread.c (compiled with memory-access hooks)"], stub=_THR, assumptions=_SC),
    "G01": dict(
        harness="h_gossip", quick=dict(runs=16000, secs=120), thorough=_T,
        title="Gossip records arrive whole, unchanged and in order, or not at all",
        statement="A record written by write_record on a socket is returned by the matching read_record with the same number of elements and the same bytes, in the order written, whatever its length and element size and however the network splits, delays or interrupts the transfer. write_record reports success only if the reader took the record; a reader that asks for another length, or gives too small a buffer, gets nothing, never has its buffer overrun, and the next record still arrives. Neither call alters the caller's other data, and records of different threads on different sockets never mix.",
        over=["schedules", "fault_sequences", "histories", "inputs"],
        q="every sequence of records of any length and element size, both directions, up to three concurrent pairs, every split, delay, interruption or loss of the connection",
        why="No test opens a socket; correctness depends on partial transfers and on the reply protocol after a refused record.",
        files=["src/primitives/gossip_sock.c"],
        mech=[("records", "write_record, read_record, check_swap_records"), ("lengths and transfers", "put_int32_to_channel, get_int32_from_channel, read_ft_nonblocking_socket, write_ft_nonblocking_socket"), ("replies", "send_ack_nack, get_ack_nack")],
        observe=["write_record", "read_record"],
        rule="Seeded sequences of records on 1-3 socket pairs, both ends in threads of the simulator, with short, interrupted and delayed transfers and lost connections. Non-trivial: at least one record delivered.",
        real=["src/primitives/gossip_sock.c, client_timeout.c (compiled with memory-access hooks)"], stub=_NET, assumptions=_SC),
    "G02": dict(
        harness="h_gossip", quick=dict(runs=160000, secs=90), thorough=_T,
        title="Stream transfers are complete, or end at the time limit of their socket",
        statement="read_stream and write_stream between two working ends transfer every byte, in order, however the network splits the data and when waiting is interrupted by signals. When the peer stays silent they give up no earlier than the time limit set for that socket and not much later, reporting failure; the limit of a socket is the one last set for it, whatever was set for other sockets, and the default after it is initialised for a new connection.",
        over=["schedules", "fault_sequences", "histories"],
        q="every sequence of transfers, silent peers, time limits and reused descriptors on up to four connections, with split, interrupted and lost transfers",
        why="No test opens a socket or sets a time limit; the limits live in one table shared by all connections and need a controlled clock.",
        files=["src/primitives/gossip_sock.c", "src/primitives/client_timeout.c"],
        mech=[("transfers", "read_stream, write_stream"), ("time limits", "set_client_timeout, get_client_timeout, init_client_table")],
        observe=["read_stream", "write_stream", "set_stream_timeout", "get_stream_timeout", "init_client_table"],
        rule="Seeded sequences of transfers, silent peers (simulated clock), time limits and descriptor reuse on 1-4 socket pairs. Non-trivial: at least one complete transfer or expired limit.",
        real=["src/primitives/gossip_sock.c, client_timeout.c (compiled with memory-access hooks)"], stub=_NET, assumptions=_SC),
    "G04": dict(
        harness="h_gossip", quick=dict(runs=60000, secs=90), thorough=_T,
        title="Gossip channel addresses and saved channel data read back as written",
        statement="After set_host_and_port reports success, get_host_and_port returns exactly the address last set for that channel, in this process or a later one; after a failure or a crash it returns nothing, or an address that was set. Channel data saved by store_channel_data is returned by read_data_file byte for byte and with its size, once, and is then found under the backup name; when reading fails the saved data is still there. Short, failed and torn writes and reads are never reported as success.",
        over=["histories", "fault_sequences", "crash_points"],
        q="every sequence of sets, gets, saves and loads on several channels, with restarts, crashes, torn, short and failing transfers",
        why="No test touches these files; shorter values over longer ones and partial writes need a history and a failing disk.",
        files=["src/primitives/gossip_sock.c"],
        mech=[("channel files", "set_host_and_port, get_host_and_port"), ("saved data", "store_channel_data, read_data_file, get_file_size")],
        observe=["set_host_and_port", "get_host_and_port", "store_channel_data", "read_data_file"],
        rule="Seeded histories on three channels with process restarts, crashes, torn, short and failing disk operations. Non-trivial: at least one address or saved data read back.",
        real=["src/primitives/gossip_sock.c"], stub=_STUB, assumptions=_DISK),
    "N01": dict(
        harness="h_gossip", quick=dict(runs=16000, secs=120), thorough=_T,
        title="Data written to an MGI channel is read once, in order and unchanged",
        statement="What mgi_write sends on a channel, of any type and length, reaches the gossip server once if the call succeeds, and mgi_read on that channel returns the records in the order written, with the same values, and at no time writes beyond the number of elements asked for. A read asking for fewer elements than the record holds fails and leaves the record in the channel. mgi_open waits for a server that is started late (within its retries) and connects in the mode asked for, and a lost connection, however it is lost, gives an error and never wrong data.",
        over=["schedules", "fault_sequences", "histories"],
        q="every sequence of channel opens, writes, reads and closes by a client against a server, with late servers, refused connections, split, delayed, interrupted and lost transfers",
        why="No test runs a gossip server; the protocol between client, server and channel has several steps at which a connection can fail.",
        files=["src/primitives/mgilib2.c", "src/primitives/gossip_sock.c", "src/primitives/gossip_thread.c"],
        mech=[("client", "mgi_init, mgi_open, mgi_read, mgi_write, mgi_clos, mgi_term, retry_connect"), ("connection", "connect_to_subchannel_by_name, connect_to_hostport, get_ack_nack")],
        observe=["mgi_init", "mgi_open", "mgi_write", "mgi_read", "mgi_clos", "mgi_term"],
        rule="Seeded sequences on 1-3 channels of a client against a small channel server built on the library's own server-side calls, in one simulated process. Non-trivial: at least one record written or read.",
        real=["src/primitives/mgilib2.c, gossip_sock.c, gossip_thread.c, client_timeout.c (compiled with memory-access hooks)"], stub=_NET + ["gossip server program (not in this repository): a small one built on the library's server-side functions"], assumptions=_SC),
}

# Properties stated but not decided here: (id, title, statement, over, q, why_tests, files, mech, reason)
NOT_APPLICABLE = []

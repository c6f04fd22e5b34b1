prop('P01', 'A file held read-only is never modified and every attempt is refused',
     'No call modifies a file that is open without write permission: opening it never acquires write access, no record, directory entry, header or raw word of it is written or marked for writing. Every call that would have to modify it (write, delete, edit a descriptor, write an end-of-file mark, raw word write) returns an error instead of success, and closing it leaves the file untouched.',
     ['inputs', 'histories'], 'every API call, argument and preceding call sequence, on every file attached with read-only access or that the system only lets us read',
     'No existing test opens a standard file at all (those sources are outside the test build); a test would sample some calls on one file, while the guarantee is about every path from every entry to a physical write.',
     ['src/primitives/c_baseio.c', 'src/fstd98/xdf98.c', 'src/fstd98/fstd98.c'],
     [('read-only refusal of raw writes', 'src/primitives/c_baseio.c:c_wawrit2,qqcwawr'), ('open mode', 'src/primitives/c_baseio.c:qqcopen'),
      ('read-only refusal of record writes and deletions', 'src/fstd98/xdf98.c:c_xdfput,c_xdfdel,c_xdfcls'), ('descriptor edits', 'src/fstd98/fstd98.c:c_fst_edit_dir_plus')],
     'path-sensitive guarded-effect dataflow on LLVM IR',
     'Every path of every function that reaches a modifying effect is enumerated with interval/bit-field facts; assumes field-based aliasing. Decides the guard structure, not the kernel\'s enforcement of open modes.')
prop('P02', 'A failed or partial physical transfer is never taken for a complete one',
     'Whenever the library physically reads or writes a file or a socket on a caller\'s behalf, the outcome reported by the system is honoured: a transfer that fails or moves less than asked is resumed exactly where it stopped, or reported to the caller as an error, or its true count is handed back, or the process is ended. A transfer split in chunks returns the total moved. No caller is told that data was read or written when part of it was not.',
     ['inputs', 'fault_sequences'], 'every read, write, fread, fwrite, send and recv made by the library, and every possible outcome of it (error, zero, partial, complete)',
     'Short writes, disk-full and interrupted reads do not occur in the test environment; the property is about every outcome the system may return at each of some fifty call sites.',
     ['src/primitives/c_baseio.c', 'src/primitives/read_direct.c', 'src/primitives/gossip_sock.c', 'src/primitives/mgilib2.c', 'src/fstd98/xdf98.c', 'src/whiteboard/WhiteBoard_c.c', 'src/primitives/wkoffit.c', 'src/primitives/array_file.c'],
     [('word-addressable transfers', 'src/primitives/c_baseio.c:qqcwawr,wa_page_read,c_waread2,c_wawrit2'), ('stream primitives', 'src/primitives/gossip_sock.c:write_stream,read_stream'), ('whiteboard checkpoint', 'src/whiteboard/WhiteBoard_c.c:c_wb_checkpoint,c_wb_reload')],
     'path-sensitive outcome-tracking dataflow on LLVM IR (typestate of each transfer result)',
     'Every path from every transfer site to every exit of its function is followed with interval and difference facts on the returned count. Exempt by name with a reason: probing readers (wkoffit, c_fnom), position queries, and status files.')
prop('P12', 'Fortran entry points behave as the C routines they stand for',
     'Every Fortran-callable entry point that stands for a C routine hands that routine exactly the arguments its caller gave, each in its own place and unaltered, hands every output back through the caller\'s own argument, and returns the routine\'s result, errors included; no path skips the call. A text goes over as a terminated copy of exactly the caller\'s characters, by that text\'s own length and cut only where the routine has no more room, and what is written into a caller\'s text stays inside its length.',
     ['inputs'], 'every entry point and every combination of arguments',
     'Some 230 entry points with up to 23 arguments each; swapping two of them, forgetting to copy one back or dropping an error is invisible to tests that do not call that entry point with distinguishable values. Most are called by no test.',
     ['src/fstd98/fstd98.c', 'src/fstd98/xdf98.c', 'src/fstd98/burp98.c', 'src/primitives/c_baseio.c', 'src/interp/ezgprm.c', 'src/whiteboard/WhiteBoard_c.c'],
     [('standard file wrappers', 'src/fstd98/fstd98.c:f77name(fstxxx)'), ('interpolation wrappers', 'src/interp:f77name(ez*),f77name(gd*)'), ('raw i/o wrappers', 'src/primitives/c_baseio.c:f77name(wa*),f77name(sq*)'), ('whiteboard wrappers', 'src/whiteboard/WhiteBoard_c.c:f77_name(f_wb_*)')],
     'def-use and copy-provenance dataflow on LLVM IR against a confirmed forwarding table; interval/difference dataflow on text indices',
     'Decides which parameter reaches which argument, that it is unmodified, that outputs flow back, that the result is returned and that no path skips the call. The table (237 pairs) was read and confirmed once. For texts: whose length is used, where they are cut, that each character keeps its place, where the terminator goes, what the three shared helpers (pad, trim, clean) do to every character, and that writes into the caller\'s texts end within their lengths. What the C routine itself puts in a text is outside.')
prop('P14', 'clib_ calls report success exactly when the system operation succeeded',
     'Every clib_ call (files, directories, links, environment, globbing, character classes) applies the named system operation to the caller\'s own arguments and returns CLIB_OK exactly when every step of it succeeded (for a file-type question: when the entry also is of that type), CLIB_ERROR otherwise. clib_size and clib_mtime return the value or -1; clib_stat fills its 13 entries in the documented order; clib_glob never hands back more names than the caller has room for; names are cut at a slash and nowhere else, and texts cross over whole but for trailing blanks, or the call fails.',
     ['inputs', 'fault_sequences'], 'every argument, string length and outcome of the underlying system call (success, error, nothing found, result longer than the caller\'s variable)',
     'The tests call only the character-class entry; the others depend on the state of a file system and on failures a test does not provoke, and a swapped argument or an inverted outcome in any of the forty entries passes them.',
     ['src/primitives/clib_interface.c', 'src/primitives/clib_interface2.c'],
     [('outcome of each operation', 'src/primitives/clib_interface.c:clib_*'), ('directory hierarchy', 'src/primitives/clib_interface.c:mkpath'), ('globbing', 'src/primitives/clib_interface2.c:clib_glob')],
     'path-sensitive outcome dataflow on LLVM IR plus copy provenance',
     'Each system operation and string conversion is split into its documented outcomes and every exit compared with them; argument provenance from the compiled code. An existing entry of another kind (EEXIST) counts as made for clib_mkdir_r.')
prop('P05', 'A routine never modifies what it is only given to read',
     'What a caller hands over for reading only is unchanged when the call returns: input fields, coordinates, winds, masks, axes and positions handed to the interpolation package, dimensions, identifiers, option names and search criteria handed to the file, burp and whiteboard interfaces, inputs of the spectral, vertical interpolation, sorting and checksum routines. This holds for every grid type, degree of interpolation, option setting and length.',
     ['inputs', 'configurations'], 'every entry point of the confirmed table (some 720 C and Fortran routines, 2500 parameters), every path through them and through the routines they call in either language',
     'An in-place change of an input shows only if the caller looks at the input again after that call, on the branch (grid type, hemisphere, option) that does it; tests look at the outputs.',
     ['src/interp', 'src/fstd98/fstd98.c', 'src/fstd98/burp98.c', 'src/base', 'src/spectral', 'src/interpv', 'src/primitives'],
     [('interpolation inputs', 'src/interp:c_gd*,c_ez*,*.inc'), ('file interface inputs', 'src/fstd98:fst*,xdf*,mrf*,mrb*'), ('numerical libraries', 'src/base,src/spectral,src/interpv')],
     'interprocedural write-effect analysis on LLVM IR (C) and gimple (Fortran) joined across languages',
     'Flow-insensitive aliasing of pointer parameters inside each function, fixed point over calls in both languages. A parameter only counts as written when a write through it is found; pointers parked in global memory are not followed.')
prop('P18', 'What is precomputed for two grids serves those two only',
     'Positions, zones and Yin-Yang point sets kept for a source and a target grid are found under exactly those two grids, computed from the source and target they are for, marked computed only once they have been, and used only after that and while they stand. Releasing either grid forgets them, so no interpolation ever uses data of other grids, of a grid that no longer exists, or that were never computed.',
     ['inputs', 'histories'], 'every definition, use and release of a pair of grids, over every order of them and every grid type',
     'The cache survives across calls and its tables move when they grow: a wrong index or a mark set too early gives plausible values at wrong places only after particular sequences of definitions, releases and interpolations (a 63rd source grid, a reused identifier, a reader called before a field was interpolated), which no sampled test walks.',
     ['src/interp'],
     [('table of pairs', 'src/interp/ezdefset.c,ez_find_gdin.c,ez_find_gdin_in_gset.c'), ('positions and zones', 'src/interp/ez_calcxy.c,ez_defzones.c,ezyy_calcxy.c'), ('uses', 'src/interp/ez_interp.c,ez_corrval.c,ez_corrval_aunord.c,ez_corrval_ausud.c,ezyysint.c,ezyyuvint.c,ezyywdint.c,ez_mask.c'), ('release', 'src/interp/ez_freegridset.c,gdrls.c')],
     'dataflow from every table access to the look-up of its index with invalidation by calls that move tables; path-sensitive abstract interpretation of look-up, definition, marking and release; provenance of arguments; interprocedural dominance of use by computation',
     'A pair is defined before it is interpolated. A table never holds more source grids than its largest size. Options may switch the computation of zones and their use together.')

prop('P22', 'Callers and callees agree on every argument, across files and languages',
     'Every call from one routine of the library to another, in C or Fortran, and every prototype or interface the library publishes, passes as many arguments as the routine behind it takes, by value or by reference as it takes them, each of the kind and size it reads or writes there, and uses its result as the kind it returns.',
     ['inputs'], 'every call site between library routines in either language, every published C prototype and Fortran interface, whatever the values passed',
     'Separate compilation checks none of this across files and languages. A wrong argument count or size reads or overwrites neighbouring memory only on the call that has it, and most such calls (polar corrections, callbacks, file positions) are made by no test.',
     ['src/interp', 'src/fstd98', 'src/whiteboard', 'src/readlx', 'src/primitives', 'src/PUBLIC_INCLUDES'],
     [('C calls of Fortran kernels', 'src/interp/f_ezscint.h,src/fstd98/c_burp.c'), ('Fortran calls of C routines', 'src/whiteboard/*.tmpl90,src/base,src/burp98_f'), ('published interfaces', 'src/PUBLIC_INCLUDES/rmn')],
     'whole-program type comparison of call sites and prototypes with definitions (gimple and syntax trees)',
     'Types come from gcc/gfortran gimple and clang syntax trees. Typeless buffers (30 listed parameters) and pointers loaded from structures are not compared; two arguments of the same type in the wrong order are P12\'s business.')
prop('P09', 'What a call opens or allocates for itself it gives back, whatever happens',
     'Descriptors, sockets, streams, directories and memory that a call acquires for its own use are closed or freed by the time it returns, on success and on every error path; what outlives the call is what the caller is given or what the library keeps on record for later calls. Repeating a call, failing or not, never exhausts descriptors or memory.',
     ['inputs', 'fault_sequences'], 'every acquisition of a descriptor, stream, socket or heap block in the C sources (some 480) and every path from it to an exit of its routine, including every failure of a later step',
     'A leak changes no result of the call that makes it, so a test passes with it; most leaks sit on error paths and rare branches (mismatched quotes, a field that does not compress, a grid type) that no test takes.',
     ['src/primitives', 'src/interp', 'src/fstd98', 'src/compresseur', 'src/whiteboard', 'src/gmm'],
     [('scratch arrays of interpolation', 'src/interp:c_gd*,ez_calc*'), ('compression work space', 'src/compresseur/armn_compress_32.c:c_armn_compress32,c_armn_uncompress32'), ('file type probes', 'src/primitives/wkoffit.c:is*'), ('connections', 'src/primitives/c_baseio.c:fnom_rem_connect,c_fnom')],
     'path-sensitive resource typestate on LLVM IR with interprocedural ownership summaries',
     'Each acquisition is followed along all paths with value facts; a routine returning what it acquired is an acquisition of its caller. Something stored in longer-lived memory counts as kept; that its owner releases it later is not followed.')
prop('P24', 'Checksum routines sum exactly the bytes they are given, in order',
     'Each cyclic redundancy check routine, in C or called from Fortran, returns the documented remainder (polynomial, initial and final values) of exactly the bytes it is given, each once and in order, for every length including zero, every element size and stride and every starting value. Summing in pieces, each started from the previous result, therefore equals summing at once.',
     ['inputs'], 'every content, length (zero included), element size, stride, mode and starting value',
     'One wrong entry among 256 in a table, one byte too few at the end of an odd length or a wrong order for one element size changes only the sums of data that use it; a test has a handful of data sets.',
     ['src/primitives/crc16_.c', 'src/primitives/crc24_.c', 'src/primitives/crc32_.c', 'src/primitives/crc32.c', 'src/primitives/crc_16_24_32.c', 'src/primitives/calc_crc.c'],
     [('16, 24 and 32 bit sums', 'src/primitives/crc_16_24_32.c:update_crc_ne,f_update_crc_ne'), ('32 bit sum', 'src/primitives/crc32.c:f_crc32'), ('record sum', 'src/primitives/calc_crc.c:calc_crc,f_calc_crc')],
     'translation of the compiled loops to GF(2)-affine transfer functions and linear forms, compared with the reference polynomial step',
     'All 94 configurations (routine, width, element size, mode) are compared symbolically on optimised LLVM IR: register map, byte address, bounds, exits. Assumes byte counts fit an int and a little-endian build.')
prop('P25', 'Byte order conversion is exact, complete and undone on the caller\'s side',
     'Data moved in big-endian form (word-addressable files, 2, 4 and 8-byte stream reads and writes, socket records, their lengths and remote file requests) is the caller\'s data with the bytes of every element reversed, all of the elements transferred and nothing else. A buffer that was written is back in its own order on every return, errors included; one that was read has been reversed exactly once; a request sent to the remote file server carries the right mark, service and check word.',
     ['inputs', 'fault_sequences'], 'every content, count (zero and one included), element size and outcome of the transfer',
     'The conversions are done in place on the caller\'s memory around calls that can fail; a missing last element, a count of one or an error return that skips the restoration needs that exact case, which no existing test transfers.',
     ['src/primitives/fread32.c', 'src/primitives/c_baseio.c', 'src/primitives/gossip_sock.c', 'src/primitives/swap_buffer.c'],
     [('stream conversions', 'src/primitives/fread32.c:fread16,fread32,fread64,fwrite16,fwrite32,fwrite64'), ('word-addressable files', 'src/primitives/c_baseio.c:c_waread2,c_wawrit2'), ('socket records', 'src/primitives/gossip_sock.c:write_record,read_record,check_swap_records,get_int32_from_channel,put_int32_to_channel'),
      ('remote file requests', 'src/primitives/c_baseio.c:qqcwawr,qqcward,qqcclos,fnom_rem_connect')],
     'byte-permutation summaries of conversion loops composed over every chain of the compiled routine',
     'Loops are summarised from optimised LLVM IR with scalar evolution; every acyclic chain of loops and calls is composed. Byte counts are assumed to fit the type used; the machine is little-endian.')
prop('P28', 'What has been given back is never used, released again or left on record',
     'Memory, descriptors, streams and library handles are released once: after the release no path of the releasing routine reads, writes, passes on or releases them again, and none of its exits leaves them where a later call would take them for live. Only what was acquired is released: never the address of a variable, the inside of a block, or a block that still belongs to the caller.',
     ['inputs', 'fault_sequences'], 'every release in the C sources (some 560) and every path before and after it to an exit of its routine, including every failure on the way',
     'A second close or a use after free changes nothing visible until the descriptor or the block has been given to somebody else in between; the paths that do it are error exits and repeated open/close sequences that no test goes through.',
     ['src/primitives', 'src/interp', 'src/fstd98', 'src/compresseur', 'src/whiteboard', 'src/gmm'],
     [('files and descriptors', 'src/primitives/c_baseio.c:c_fnom,c_fclos,c_waclos'), ('grid and weight tables', 'src/interp:c_gdrls,c_ezdefset,FreeIrregGrid'), ('plugins', 'src/primitives/DlInterface.c'), ('sockets', 'src/primitives/gossip_sock.c')],
     'path-sensitive released-value typestate on LLVM IR with interprocedural release summaries',
     'Each release is followed along all paths with value facts and memory cells; operands are traced to their acquisition. Three library releasers that take the caller\'s block by contract are listed. Two different values count as different blocks unless a copy or cell links them.')
prop('P15', 'An interpolation option is read back as it was set, and nothing else changes',
     'Every option name and value the interpolation package accepts, English or French and in any letter case, sets that option to its documented meaning and no other option, and asking for the option afterwards answers with a value that sets the same thing again. A name or value of a text option that is not documented is refused with an error and changes no option; a numeric option name that is not known changes none.',
     ['inputs'], 'every option name and value (documented or not) and every value the options can hold',
     'The names, values and codes are spread over seven routines; a code confused between two values, or a value that can be set but not read back, shows only for that value of that option, and results computed with the wrong method look plausible.',
     ['src/interp/ezsetopt.c', 'src/interp/ezgetopt.c', 'src/interp/ezsetval.c', 'src/interp/ezgetval.c'],
     [('setters', 'src/interp/ezsetopt.c:c_ezsetopt,src/interp/ezsetval.c:c_ezsetfval,c_ezsetival,c_ezsetval2'), ('getters', 'src/interp/ezgetopt.c:c_ezgetopt,src/interp/ezgetval.c:c_ezgetval,c_ezgetival')],
     'path-sensitive dataflow with an abstract string domain: extraction and comparison of the setters\' and getters\' tables',
     'The tables of all paths of the seven routines are extracted from LLVM IR and compared with the documented table and with each other. Covers the C routines; the Fortran entry points are P12\'s.')
prop('P16', 'Interpolation settings hold until the caller changes them',
     'Interpolation options and the current pair of source and target grids are what the caller last set: no interpolation, definition, masking or query call, Yin-Yang grids, vector winds, extrapolation and error returns included, leaves them changed when it returns, even where it alters them for its own needs. The vector and symmetry modes used inside wind interpolation are back at rest when the call returns, and the options of the standard file and whiteboard packages are changed only by their own setting calls.',
     ['inputs', 'histories'], 'every public routine that can reach a write of a setting (112 functions), every path to each of its returns',
     'A setting left changed by one call only shows in the results of the next, for the combination of grids, degree and extrapolation that took the path; tests make one call at a time.',
     ['src/interp', 'src/fstd98', 'src/whiteboard'],
     [('temporary changes', 'src/interp:c_gdinterp,ez_corrval,ez_calcxy,c_ezyymint,c_ezuvint_orig,c_ezwdint_orig,c_gdxyvval_orig'), ('current grids', 'src/interp:c_ezsint,c_ezuvint,c_ezwdint,c_ezdefset,c_find_gdin')],
     'interprocedural value-origin dataflow (entry value, constant, argument) of every setting along all paths of LLVM IR',
     'Origins are propagated through locals, copies of the option structure and call summaries computed to a fixed point. A restoration through the text interface (ezgetopt, ezsetopt) is not recognised as one. Fortran kernels are covered by their write effects.')
prop('P29', 'Formatted output and input agree with the values they are given',
     'Every message, text or request the library formats, and every text it parses with a format, has exactly one value per conversion and each value has the type its conversion names (integers of the right width, floating values, texts, addresses of the right kind of object). Formats are fixed by the program: what a caller or a file supplies is never interpreted as a format.',
     ['inputs', 'fault_sequences'], 'every formatted output or input call in the C sources (some 1130), most of them on error paths',
     'Most formatted calls are on error and debug paths no test takes; a wrong conversion prints garbage, stores through a stray address or crashes only there, exactly when something has already gone wrong.',
     ['src/primitives', 'src/fstd98', 'src/interp', 'src/whiteboard', 'src/gmm', 'src/compresseur', 'src/packers'],
     [('error messages', 'src/primitives/c_baseio.c,src/fstd98/xdf98.c,src/fstd98/fstd98.c'), ('texts built and parsed', 'src/primitives/read_direct.c,gossip_sock.c,DlInterface.c,src/whiteboard/WhiteBoard_c.c')],
     'abstract interpretation of constant format texts against the argument types of the compiled calls',
     'Format operands are resolved through selections and constants on LLVM IR (LP64). Compilation uses stubs/App.h, whose logger has the signature of the App submodule; widths, not signedness, are compared.')

prop('P17', 'A grid identifier names the grid it was given out for',
     'Defining a grid gives back an existing identifier only if type, dimensions, parameters, reference and the axes or subgrids given in memory are all equal (grids read from a file are known by their descriptor), and otherwise a new one whose grid holds exactly what was given. An identifier keeps naming that grid, and is found again, until it has been released as often as it was given out, whatever other grids are defined or released meanwhile. Asking about a grid answers what was given for it.',
     ['inputs', 'histories'], 'every definition, look-up, release and query of a grid, over every order of them',
     'Identity rests on a hash table with chained collisions: two grids that differ in one field or one axis value meet only when their hashes collide, and a lost link or reused number shows up as another grid silently interpolated, after histories no test builds.',
     ['src/interp'],
     [('identity and chaining', 'src/interp/ez_findgrid.c,ez_addgrid.c,ez_identifygrid.c,ezgdef_ffile.c,ezgdef_fmem.c,ezgdef_supergrid.c'), ('release', 'src/interp/gdrls.c'), ('queries', 'src/interp/ezgprm.c,ezgxprm.c,gdgaxes.c,ezgfstp.c')],
     'path-sensitive abstract interpretation of the look-up, insertion and release of grids; dataflow pairing of grid rows and columns; who-writes-identity analysis',
     'Hash collisions are assumed possible for any two grids. Comparisons by means other than field, element loop or byte comparison are reported undecided.')

prop('P31', 'A packed field unpacks to within the precision its number of bits allows',
     'Packing a field of numbers on a given number of bits and unpacking it gives back every value to within half a step of the quantum its range and bits determine, exactly for integers that fit, and missing values come back as missing values.',
     ['inputs'], 'every field length, stride, number of bits, range of values and data type',
     'The error depends on the values: ranges that straddle zero, denormal quanta, constants, single elements, bits that straddle a word.',
     ['src/packers', 'src/primitives/f_bit_slicer.c', 'src/compresseur'],
     [('float packers', 'src/packers/compact_IEEEblock.c,float_packer.c,compact_float.c'), ('integer packers', 'src/packers/compact_integer.c')],
     na='The bound is on rounding of floating-point values produced by runtime exponents and data-dependent shifts; no sound static argument in reach relates the quantum computed by the packer to the error of the value recomputed by the unpacker.')
prop('P32', 'Compressed records expand to exactly what was compressed',
     'Compressing a field of tokens and expanding it gives back every token, for every predictor the compressor chooses, and the length announced is the length written.',
     ['inputs'], 'every field, dimensions and number of significant bits',
     'The choice of predictor and code lengths follow the data block by block; an error in one combination appears only for blocks with that spread of differences.',
     ['src/compresseur'],
     [('compressors', 'src/compresseur/armn_compress.c,armn_compress_32.c')],
     na='Coder and decoder agree through a bit position and code lengths computed from the data, held in memory; proving that the two loops stay in step needs relational reasoning over runtime quantities beyond static analysis in reach, and these files are not in the build of this sandbox.')
prop('P33', 'Date arithmetic is exact and undoes itself',
     'A date stamp converted to a printable date and back is the same instant, adding a number of hours and taking the difference gives back that number, and dates with or without leap years follow their calendar, for the whole range of dates that can be represented.',
     ['inputs'], 'every representable date, every increment, both calendars and both stamp encodings',
     'Errors live at ends of months, centuries and at the limits of the encodings; a test samples a few dates.',
     ['src/base/moduledate.f90', 'src/base/jdatec.f', 'src/base/datec.f'],
     [('calendar', 'src/base/moduledate.f90'), ('julian days', 'src/base/jdatec.f,datec.f')],
     na='That the closed integer formulas of the two directions are inverse is an arithmetic identity over truncated divisions, decidable by running or by a solver, not by a dataflow or type argument.')
prop('P34', 'A coded level decodes to the value and kind it was coded from',
     'A vertical level coded in a record identifier decodes to the same kind and to the same value within its six digits, and the same level always gets the same code.',
     ['inputs'], 'every kind and value in its range, both code generations',
     'Rounding at powers of ten and at the limits of each kind decides the code; searches by level fail only for those values.',
     ['src/fstd98/convip_plus.f90', 'src/fstd98/convert_ip123.f90'],
     [('coding', 'src/fstd98/convip_plus.f90'), ('triplets', 'src/fstd98/convert_ip123.f90')],
     na='Whether the search over decimal exponents stops at a canonical code and rounds back to the value is a property of floating-point results; no static argument in reach bounds them.')
prop('P35', 'Interpolation reproduces what its method reproduces exactly',
     'A constant field stays constant, interpolating at a grid point gives its value, and linear and cubic methods reproduce linear and cubic fields within rounding; winds keep their modulus when grids are rotated.',
     ['inputs'], 'every grid type, degree, position and field',
     'Coefficients are data (positions, Gaussian latitudes, unequal spacing); an error in one term at one edge of the stencil is smooth and small.',
     ['src/interp'],
     [('kernels', 'src/interp/ez_rgdint_*.inc,ez_irgdint_*.inc'), ('winds', 'src/interp/ez_gdwfllw.inc,ez_llwfgdw.inc')],
     na='An identity between real-valued polynomials evaluated in floating point at runtime positions; deciding it needs symbolic algebra over values, not a static property of the program text. What is static about these routines (what they may write, what is precomputed for whom, which settings they use) is P05, P16 and P18.')

prop('P27', 'No result depends on a value that was never given',
     'Every routine gives its local values before it uses them, on every path and in every mode: what is computed, returned or stored never depends on what happened to be left in memory. A routine that returns a value returns one on every path, and a value expected back from another routine is received where it is then read.',
     ['inputs'], 'every path through every routine: grid types, modes, empty and blank inputs, first passes of loops, error exits',
     'A variable that was never set often holds zero or the right value by luck in a test; in another program, or with another compiler, the result changes from run to run.',
     ['src'],
     [('Fortran', 'src/interp/*.inc; src/base; src/fstd98/convip.f; src/primitives/ccard.F90; src/gmm'), ('C', 'src/interp, src/primitives, src/fstd98, src/compresseur, src/packers')],
     'assignment-free path analysis on the control-flow graphs of gcc and gfortran: reaching assignments, dominance, control dependence, interprocedural reads and writes of arguments',
     'Elements at variable places are not told apart; a loop that gives a value is taken to run at least once; listed cases are taken as complete; reads that conditions on the way may exclude are reported undecided. Blocks on the heap are followed within the routine that asks for them only.')
prop('P36', 'A data jar stores and fetches only within what it holds',
     'Inserting into or extracting from a data jar touches exactly the bits asked for, at the position given or at the mark: nothing is stored beyond the capacity of the jar, fetched beyond what was put in, or read or written beyond the end of the object. What does not fit, or is not there, is refused and then nothing at all has changed; what fits is accepted, moved whole, and the marks of the jar follow. A jar frees the storage it asked for, once, and never storage that belongs to the caller.',
     ['inputs', 'histories'], 'every size of object down to single bits, every position, every capacity and fill of a jar, empty jars included',
     'Tests insert whole numbers where they fit; one byte stored or fetched past the end, or a refusal that has already changed the jar, shows only with odd sizes or positions.',
     ['src/serializer'],
     [('insertion, extraction', 'src/serializer/jar_mod.F90: jar_put_into, jar_get_outof'), ('life of the storage', 'src/serializer/jar_mod.F90: jar_new_i8, jar_shape_with, jar_free, jar_final, jar_reset')],
     'evaluation of all paths over integer linear forms on the control-flow graphs of gfortran; section loops summarised as byte ranges; obligations proved by Fourier-Motzkin elimination, refuted only by whole numbers satisfying the path',
     'Sizes are not negative and do not overflow; marks lie within the capacity on entry (each routine is shown to leave them so); an obligation neither proved nor refuted is reported undecided.')
prop('P13', 'What is copied into a buffer of fixed size fits in it',
     'Whatever the caller, a file, the environment or a peer hands over, the library never writes a text past the end of a local array, a member of a structure or a block it has allocated: names, options, keys and messages that are too long are cut or refused. The terminating NUL is counted: a buffer filled to its last byte by a call that adds none is not terminated past its end.',
     ['inputs'], 'every length of every text and record handed over by callers, files, the environment and peers, at every copy into a buffer whose size the program fixes',
     'Tests use short names; a name one byte too long corrupts whatever lies behind the buffer, which may be noticed in an unrelated place or not at all.',
     ['src'],
     [('names and options', 'src/interp/ezsetopt.c,ezgetopt.c,ezsetval.c,ezgetval.c; src/primitives/clib_interface.c'), ('keys and configuration', 'src/primitives/c_ccard.c,get_ccard_arg.c,read_direct.c,appl_var.c,c_env_var_cracker.c'), ('peers and their files', 'src/primitives/gossip_sock.c')],
     'bounding of every copy (string, counted, formatted, element store) from LLVM IR: linear forms with path-sensitive relations, interprocedural summaries of routines that fill a buffer of their caller',
     'A copy whose extent depends on facts outside the routine that the analysis cannot bound is reported as undecided, not as held. Lengths of Fortran texts are not negative; the lower side of an index is not decided; a character array used as a string is terminated.')

import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))
p("C01","A run over several files always finishes",
"Dumping several files in one run terminates, whatever the files are (valid, unreadable, not an object file, missing, sharing or not sharing a debug id), whatever the number of jobs asked for (0, 1, fewer, as many or more than files) and however the workers are scheduled. No worker and no caller is ever left waiting for a job, a queue slot or a lock that nobody will provide.",
["schedules","fault_sequences","configurations"],"every interleaving of the worker threads, every choice of failing inputs, every job count",
"The two multi-file tests run one pair of valid files with two jobs under whatever schedule the OS picks; no test has a failing file, one job, or more modules than workers.",
["src/dumper.rs","src/action.rs"],[("bounded job queue, poison pills, remaining-files counter","dumper.rs several_files/consumer/send_store_jobs")],["return of several_files","process exit"],
[dict(name="counter",meaning="files not yet processed",where="dumper.rs several_files"),dict(name="job queue",meaning="get/dump jobs and poison pills",where="dumper.rs several_files")])
p("C02","Multi-file output is independent of scheduling and job count",
"When all inputs of a multi-file run are good, the symbol store afterwards holds exactly one file per distinct debug id, and its bytes are the same for every job count and every interleaving of the workers: those of processing the files one after the other in the order given. A file that shares its debug id with no other gets exactly the bytes it gets when dumped alone.",
["schedules","configurations"],"every interleaving, every job count, every partition of the inputs into modules, every input order",
"Tests run one pair of files under the schedule the OS happens to choose; lost, duplicated or order-dependent results need a particular interleaving.",
["src/dumper.rs","src/object_info.rs"],[("shared results map keyed by debug id, merge on insertion, store jobs sent by the last worker","dumper.rs consumer/send_store_jobs")],["files below the store directory"])
p("C03","A failing input is reported and does not take the others down",
"In a multi-file run in which some inputs cannot be read, recognised or parsed, or fail the requested CFI check, or whose output cannot be written, the run reports failure to its caller (error result, non-zero exit status), and reports success only if every input made it to the output. The modules whose inputs are all good are stored completely all the same, for every schedule and job count.",
["schedules","fault_sequences","configurations"],"every subset of failing inputs, every kind of failure, every interleaving and job count",
"No test gives a multi-file run a bad file.",
["src/dumper.rs","src/action.rs","src/main.rs"],[("error propagation out of the workers","dumper.rs consumer/several_files")],["result of several_files","exit status","files below the store directory"])
p("C04","Modules written to one shared output are never interleaved",
"When a multi-file run sends several modules to the same destination (standard output or one file), the records of one module are never mixed with those of another, under any interleaving of the workers: standard output holds every module's symbol text contiguous, complete and once, in the order in which the modules were given, and a single output file holds exactly one module's complete text.",
["schedules"],"every interleaving of the workers' writes",
"No test writes two modules to one output; corruption needs two workers writing at the same time and text longer than the write buffer.",
["src/dumper.rs"],[("writer creation and buffering in store()","dumper.rs store/get_writer_for_sym")],["bytes on stdout","bytes of the output file"])
p("C05","A failed write is never reported as success",
"If any write or creation of an output (file, store entry, standard output) fails or is cut short at any point, the run reports an error; if it reports success, every requested output holds the complete symbol text, byte for byte the same in each of them. Interrupted or short writes that the OS allows to be continued are continued.",
["fault_sequences","configurations"],"every system call of the output path failing in every way, every output length relative to the buffer, every output kind",
"Tests only write to a healthy disk.",
["src/dumper.rs","src/object_info.rs"],[("BufWriter over the output, dump(), store()","dumper.rs get_writer_for_sym/store, object_info.rs dump")],["result of single_file/several_files","bytes of each output"])
p("C06","A run that fails on its input leaves existing outputs untouched",
"For every input file, including every truncation and corruption of a valid one, a run either fails, and then neither creates nor modifies the output file or any symbol-store file, or succeeds and writes complete, well-formed symbol text for the module. The same holds for every other reason to refuse an input: unknown format, requested architecture not in the file, missing CFI under the CFI check, unusable mapping options.",
["inputs","configurations"],"every prefix and single-byte corruption of seed objects of each format; every refusal reason",
"Tests feed intact objects only.",
["src/dumper.rs","src/main.rs"],[("parse everything first, open outputs last","dumper.rs single_file/store")],["output file and store tree before/after","exit status"])
p("C07","Every code address maps to its source line",
"For every function in the debug information whose start its line-number sequence covers, and every code address in it covered by a line-table row that starts inside the function and has a line number, looking the address up in the emitted symbol file (without inline records) gives that function, and the file and line of that row; for code inlined into the function it gives the file and line of the outermost call site. No emitted line record has line number 0, and line records of a function are in address order and do not overlap.",
["inputs"],"every small function: sizes, line-row layouts, files, gaps, zero lines, inlinee layouts",
"Tests compare a handful of compiler-made binaries with stored output; odd row layouts never occur in them.",
["src/collector.rs","src/line.rs","src/source.rs"],[("line collection, elision of repeated rows, length inference","collector.rs collect_function_without_inlines, line.rs finalize")],["FUNC, line and FILE records"])
p("C08","Every code address maps to its inline call stack",
"With inline records enabled, for every function whose start its line-number sequence covers and every code address in it covered by a line-table row that starts inside the function, the emitted line record gives the file and line of the innermost inlined function at that address, and the INLINE records covering the address give, depth by depth, exactly the inlined functions active there, each with the file and line of its call site. Addresses outside any inlined call are covered by no INLINE record. (Rows without a line number are left open.)",
["inputs"],"every small tree of inlined calls over every small line table, nesting up to depth 3, split and adjacent ranges",
"Tests compare two compiler-made binaries with stored output.",
["src/collector.rs","src/line.rs","src/inline_origins.rs"],[("two-iterator walk over lines and inline ranges; range merging","collector.rs collect_function_with_inlines_recursive, line.rs ensure_order")],["FUNC, INLINE, INLINE_ORIGIN, line and FILE records"])
p("C09","Every function symbol is represented once, in address order",
"FUNC and PUBLIC records appear in strictly ascending address order, one per address. Every debug-info function at a non-zero address has a FUNC record with its size; every function symbol, taken in the order symbol table, dynamic symbols, compressed mini debug info, has a record at its address unless, when its turn comes, it lies inside the sized record before it; executable sections and (in PE files) unwind-table functions without any other record get a placeholder, which takes an export's name if one is at its address. In Windows modules a placeholder marks the end of the last record. A record is marked as multiple exactly when several functions, or several symbols without a function, share its address.",
["inputs"],"every small set of functions, symbols, sections and unwind entries with every placement, overlap, size and order",
"Tests compare compiler-made binaries, which contain few overlapping, duplicate or zero-sized symbols.",
["src/collector.rs","src/symbol.rs","src/object_info.rs"],[("ordered symbol map, is_inside_symbol, public and placeholder collection","collector.rs collect_publics/collect_placeholder_functions, symbol.rs")],["FUNC and PUBLIC records"])
p("C10","Symbol files are always well formed and self-contained",
"Whatever bytes occur in function, symbol, file, section or module names, every line of the output is one well-formed record of the Breakpad symbol format with a non-empty name: no name or frame program can split a record or start a new one. Control characters are dropped from names, and nothing else is changed to that end. FILE and INLINE_ORIGIN numbers are unique and consecutive from 0, and every number used by a line or INLINE record is defined in the same file.",
["inputs"],"every short name over an alphabet of separators, control characters, blanks and invalid UTF-8, in every position a name can come from",
"Names in the test binaries are ordinary identifiers.",
["src/object_info.rs","src/symbol.rs","src/line.rs","src/inline_origins.rs","src/collector.rs"],[("Display implementations of the records; name sanitising","object_info.rs Display, symbol.rs Display, inline_origins.rs")],["every line of the output"])
p("C11","Merging files of one module keeps all and mixes up nothing",
"When files with the same debug id are dumped together (such as a stripped binary and its debug file), the result contains every function of either file with its own name, size, lines and inline records resolved to the same source files and inline names as in the file it came from; public symbols that no sized record of either file covers; and the unwind records of both. The module is named after the stripped file, keeps its code id, and a function of the debug information always wins over a public or placeholder record at the same address. (The 'multiple' mark of merged records is left open.)",
["inputs","configurations"],"every pair of small modules: symbol sets, overlaps, shared and distinct source files, inline names, unwind info, stripped or not, in both orders",
"Tests merge a single pair, where one side has no source files, no inline names and few symbols.",
["src/object_info.rs","src/source.rs","src/inline_origins.rs","src/symbol.rs"],[("ObjectInfo::merge with file and inline-origin remapping","object_info.rs merge, source.rs SourceMap::merge")],["all records of the merged output"])
p("C12","Each source file is recorded once, under its real path",
"Every line is attributed to the path obtained from its compilation directory, include directory and file name by the rules of the debug format (the compilation directory being absolute, an absolute part replaces what precedes it), with '.' and '..' resolved for native objects and existing paths canonicalised. Two different paths (once decoded) never share a FILE record and one path never has two, whatever their encoding. Paths in PDBs are complete already and keep their directory and name, whichever separator they use.",
["inputs"],"every combination of small compilation directories, include directories and file names, absolute, relative, dotted, repeated, empty, non-UTF-8, in either DWARF version, for native and foreign objects",
"Unit tests call the join helper on a dozen strings; no test covers absolute names, dotted names or encodings.",
["src/source.rs","src/platform.rs","src/utils.rs"],[("path joining, normalisation, id cache","source.rs get_path/get_id, platform.rs, utils.rs normalize_path")],["FILE records and the file numbers of line records"])
p("C13","Path mapping follows the documented rules for every path",
"With mapping options, each source path is replaced by the expansion of the first rule that matches it: rules of the mapping file that list the path, then the other rules of the mapping file, then the command-line pairs in order, with groups, variables (the command line overriding the mapping file) and the SHA-512 digest in the requested case substituted and every other character of the destination kept. A rule whose destination uses a group that took no part in the match does not apply; where the digest of a file that cannot be read is needed, the path is kept unchanged. A path no rule applies to is kept unchanged, and invalid options are refused.",
["inputs","configurations"],"every destination template up to a bounded length over a delimiter alphabet; every bounded rule list and path",
"Two unit tests cover one template and one mapping file.",
["src/mapping.rs"],[("template parser, rule order, cache","mapping.rs PathMappingGenerator::new/apply, PathMappings::new/map")],["FILE records; result of single_file"])
p("C14","Store paths follow the symbol-store layout and stay inside the store",
"For every module, storing writes exactly one file, NAME/ID/BASE.sym below the store directory, where NAME is the module's file name (with a compressed pdb, exe or dll extension expanded), ID its debug id, and BASE the file name with a pdb extension removed; the file's MODULE line carries the same name and id. Whatever name the object itself carries, nothing is created outside the store directory, and an empty store directory stores nothing.",
["inputs","configurations"],"every module name up to a bounded length over an alphabet of dots, slashes, backslashes, extensions and letters, from file names and from embedded names",
"No test checks the store layout at all.",
["src/utils.rs","src/dumper.rs","src/object_info.rs"],[("get_path_for_sym, get_base, file_name_only","utils.rs, dumper.rs store")],["file tree after the run"])
p("C15","Only genuine symbol-server content is used and cached",
"Looking a file up by name and id first consults the local caches in the configured order and then the configured servers, in order, asking each for the plain and then for the compressed name and going on after an answer that cannot be used; it returns a file's bytes (decompressed if it was served as a cabinet) only if a cache held them or a server delivered them completely with a success status, and stores what it downloaded under NAME/ID/NAME in the cache configured for that server, and nowhere else. Error pages, empty or cut-off answers and 'Symbol Not Found' texts are neither returned nor cached, and a later lookup returns the same bytes from the cache without asking the server.",
["fault_sequences","configurations"],"every combination of answers (status, body, early close) of up to two servers to every request, every cache content, every configuration shape",
"The tests that touch the network are not runnable offline and only see a healthy server.",
["src/cache.rs","src/dumper.rs","src/utils.rs"],[("search_in_cache, get_jobs, check_data, fetch_data, copy_in_cache","cache.rs")],["result of search_file","cache tree","requests seen by the server"])
p("C16","An interrupted download never poisons the cache",
"Whatever the point at which the process dies or a file operation fails while a downloaded file is being cached, a later lookup either does not find the file in the cache or finds it complete; and a lookup that could not store its download completely does not report a cached success it cannot repeat. Lookups of the same file by several processes at the same time do not disturb each other: each of them, too, sees the file complete in the cache or not at all.",
["crash_points","fault_sequences"],"every file operation of the caching path as crash point or failing call, every torn-write length",
"No test interrupts a write.",
["src/cache.rs"],[("copy_in_cache","cache.rs copy_in_cache")],["cache tree after the crash","result of the next search_file"])
p("C17","The symbol file identifies its module; PE and PDB match",
"The MODULE record gives the platform, architecture, debug id and file name of the object the symbols came from (an ELF or Mach-O file's own embedded name if it has one), INFO CODE_ID the code id of the executable, and extra INFO lines exactly those requested. A PDB is combined only with a PE file of the same debug id, and vice versa; a non-matching neighbour is treated as absent. The PDB of a PE file is looked for at the path recorded in it, next to the PE file (plain, then compressed) and in the current directory; the PE file of a PDB next to it, under the same base name with the extensions dll, exe and their compressed forms.",
["inputs","configurations"],"every combination of neighbouring files (none, matching, mismatched, garbage, compressed) and every small choice of ids, architectures and names",
"Tests cover matching pairs only, and compare headers of fixed files.",
["src/object_info.rs","src/dumper.rs","src/windows/utils.rs","src/windows/pdb.rs","src/main.rs"],[("find_pe_for_pdb, get_pe_pdb_buf, from_object","windows/utils.rs, object_info.rs")],["MODULE and INFO records"])
p("C18","The right object is taken out of every container",
"From a universal binary with several architectures exactly the requested architecture is dumped, or the run fails if it is absent; a file with a single object is dumped whatever architecture is requested. From a cabinet archive exactly the member with the expanded name of the archive is dumped, from a dSYM bundle exactly its only DWARF file; bundles with none or several, and cabinets without that member, make the run fail; listing architectures prints all of them in order.",
["inputs","configurations"],"every set and order of up to three architectures and every requested one; every small cabinet and bundle content",
"One test reads a cabinet; there is no Mach-O test.",
["src/mac.rs","src/utils.rs","src/action.rs"],[("from_macho, print_macho_architectures, read_cabinet, get_mac_bundle","mac.rs, utils.rs")],["MODULE record, symbols, stdout of --list-arch"])
p("C19","Function names are cleaned up the same way everywhere",
"Compiler-made suffixes (such as .cold, .part.N, .isra.N, .llvm.N, [clone ...]) at the end of a function's or inlined function's name are removed, repeatedly and only at the end, and the rest is demangled without return type if it is a mangled name and kept as it is otherwise. Windows C decorations are removed from exported names and their parameter size reported, string and floating-point constant symbols are dropped, and no name, however odd, makes the run fail. (Public symbols whose mangling is not recognised are kept as they are.)",
["inputs"],"every name of bounded length over a token alphabet of identifiers, suffixes, digits, decorations and multi-byte characters, for functions, inlinees and public symbols",
"Unit tests cover about ten names.",
["src/common.rs","src/collector.rs","src/inline_origins.rs","src/symbol.rs"],[("fix_symbol_name, ParsedWinFuncName, should_skip_symbol","common.rs, symbol.rs")],["names in FUNC, PUBLIC and INLINE_ORIGIN records"])
p("C20","The same inputs always give the same bytes",
"Running the tool again on the same files with the same options gives byte-identical output, in every process and every run within a process, also when files are merged and however often other files were dumped before; a function's record does not depend on unrelated files dumped in the same process.",
["histories","inputs"],"every pair of runs over the explored inputs, under different hash seeds and address layouts (a finite set of each); every short history of earlier dumps",
"Each test dumps each file once.",
["src/source.rs","src/object_info.rs","src/dumper.rs","src/mapping.rs"],[("ordered maps; ids assigned in order of first use","source.rs, symbol.rs, inline_origins.rs")],["output bytes"])
p("C21","Unwind information is carried over completely",
"The output contains the STACK records of the object's unwind information: of the PE file when it accompanies a PDB and has some, otherwise of the object itself; merged files contribute the records of both. An entry that cannot be read does not take away the records of those before it. The CFI check accepts a run exactly when the output has at least one STACK record, and refuses it otherwise.",
["inputs","configurations"],"every combination of unwind information present or absent in each participating file, with and without the check, single and merged",
"The tests for this need files that are not in the repository.",
["src/object_info.rs","src/dumper.rs"],[("get_stack_info, merge of stack, has_stack","object_info.rs")],["STACK records; result of the run"])
p("C22","Every option acts on every file of a run, alone or with others",
"Whatever options are combined and whether one or several files are given, each option has its documented effect on every file of the run and no other: INLINE records exactly with --inlines, source paths mapped with the mapping options, the requested architecture taken from universal binaries, PDB files taken from the caches of the configured symbol servers (the option replacing the configuration file), the requested INFO lines, and files without unwind information refused under --check-cfi. The text goes exactly to the destinations asked for: standard output when none or '-' is given, the output file, the store, or the file and the store. With --debug-id or --code-id a single file comes from the caches under that id, never from the current directory, and the run fails if it is not there. Job count, verbosity and --type change no output; listing architectures lists them for every file and writes nothing else.",
["inputs","configurations"],"every combination of the options and destinations with every list of one to three files of the formats",
"The tests build one Config each by hand, all but two for one file, and never go through the command line.",
["src/main.rs","src/action.rs","src/dumper.rs","src/cache.rs","src/mac.rs"],[("option parsing, Config, several_files and single_file","main.rs, action.rs, dumper.rs")],["standard output, output file, store, exit status"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))

# Writes MANIFEST.json and known_findings.json.
import json, subprocess, jsonschema
MC="explicit-state enumeration of all small %s within bounds, each run through the real code and compared with a reference model"
SC="stateless model checking of the real multi-file run: every schedule of its threads within a preemption bound, under a controlled scheduler (interposed atomics, futexes, threads, file operations)"
C={
"C01":("model_checking",SC,"bounded: up to 4 files, 0 to 5 jobs, 1 or 2 (3) preemptions; sequentially consistent memory"),
"C02":("model_checking",SC,"bounded: up to 4 files, up to 4 jobs, 1 or 2 (4) preemptions; sequentially consistent memory"),
"C03":("model_checking",SC,"bounded: up to 3 files, 5 kinds of bad input, 3 kinds of refused output, 1 or 2 preemptions"),
"C04":("model_checking",SC,"bounded: up to 3 files, up to 3 jobs, 1 or 2 preemptions"),
"C05":("fault_enumeration","exhaustive fault enumeration on the real executable: every output system call of a run x every way it can fail or be cut short (interposed libc), each run judged on exit status and output bytes","bounded: one fault (pairs in the thorough tier) per run; outputs below, at and above the buffer size"),
"C07":("model_checking",MC%"functions (line rows x inlinee layouts)","bounded: up to 5 (6) line rows, 3 inlined calls"),
"C08":("model_checking",MC%"inline-call trees over line tables","bounded: up to 5 line rows, 3 (4) nested or adjacent inlined calls"),
"C09":("model_checking",MC%"sets of functions, symbols, sections, exports and unwind entries","bounded: up to 2 (3) functions and 3 (4) symbols over 4 slots"),
"C10":("model_checking",MC%"names in every position a name can come from","bounded: all names up to length 3 (4) over an alphabet of separators, control characters, blanks, invalid UTF-8"),
"C11":("model_checking",MC%"pairs and triples of modules, merged in every order","bounded: modules of up to 2 (3) symbols over 3 slots, 3 flavours of source files, inline names and unwind records"),
"C12":("model_checking",MC%"combinations of compilation directory, include directory and file name","bounded: all combinations of component lists, DWARF 2 to 5, native and foreign objects"),
"C13":("model_checking",MC%"destination templates and rule lists","bounded: all templates up to length 6 (7) over a delimiter alphabet; rule lists up to 3"),
"C14":("model_checking",MC%"module names stored by the real tool in a scratch store","bounded: all names up to length 4 (5) over an alphabet of dots, slashes, backslashes, extensions and letters"),
"C15":("model_checking","explicit-state exploration of every script of server answers x cache contents x configurations; the real executable runs against a scripted loopback server, each state compared with a reference model of the lookup protocol","bounded: up to 2 servers, one fault kind per answer, caches empty/filled/damaged, second lookup after the first"),
"C16":("fault_enumeration","exhaustive crash-point enumeration on the real executable: death before, in the middle of (torn write) and after every file operation of the caching path, and every failing call, each followed by a later lookup","bounded: one (thorough: two) faults or crash per download; page-cache semantics (no power loss reordering)"),
"C06":("fault_enumeration","exhaustive fault enumeration on the real executable and library: every truncation and every single-byte corruption (a set of values per byte) of one input of every format, every refused kind of input x option x output kind, every failing read; each run judged on exit status, panic, hang and well-formedness of what it wrote","bounded: single damage per file, small inputs; 3 GB of memory and 20 s per run"),
"C17":("model_checking",MC%"headers: architectures x platforms x identifiers x neighbour files x extra INFO lines","bounded: the full product of the listed values; up to 3 neighbour files"),
"C18":("model_checking",MC%"containers: plain files, cabinets, universal binaries and dSYM directories, with every architecture option","bounded: up to 3 (4) architectures per universal binary, up to 3 members per cabinet"),
"C20":("model_checking","explicit-state enumeration of histories (sequences of up to 4 dumps in one process) x hash seeds x input layouts of the real code; every output compared with the one of a fresh process","bounded: a finite set of hash seeds and address layouts, histories up to length 3 (4), 16 kinds of run"),
"C21":("model_checking",MC%"sets of unwind entries in each participating file (.debug_frame, .eh_frame, PE exception directory, PDB frame data), single and merged, with and without the check","bounded: up to 2 (3) entries per table, up to 3 files per run"),
"C22":("model_checking","explicit-state enumeration of command lines: all combinations of the options and destinations with all lists of files, each run with the real executable and compared with the text written down for each file and option","bounded: 6 kinds of file, lists of up to 3, 64 option sets, 6 destinations, 3 job settings; quick: lists of 3 with one destination and job setting"),
"C19":("model_checking",MC%"names over a token alphabet","bounded: all token sequences up to length 4 (5)"),
}
NA={}
import os,sys
ids=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash setup.sh","checks":[
 {"property":i,"quick_cmd":f"bash check.sh {i} quick","thorough_cmd":f"bash check.sh {i} thorough","technique":C[i][1],"level":C[i][0],"level_note":C[i][2]} for i in ids if i in C],
 "not_applicable":[{"property":i,"reason":NA.get(i,"check under construction")} for i in ids if i not in C]}
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
fixed=[
("C01","fetch_sub","the worker that handled the last file was decided by two atomic operations: no worker, or two, sent the store jobs","63384f5"),
("C01","","workers blocked in send() on the bounded job queue; no worker at all with zero jobs","271658f"),
("C03","","a failing file killed its worker (run hung, or the other modules were lost) and the error was not returned","4bbb220"),
("C02","","the files of a module were merged in the order of completion","eccdcb3"),
("C04","","several workers wrote their modules to the same output at the same time","d146bc3"),
("C05","","an error while writing the end of the output (flush on drop) was ignored","9ebc598"),
("C15","","several_files ignored the symbol servers given","9685882"),
("C12","","an absolute file name was appended to the directory","b906b35"),
("C12","","the pointer cache mixed up file names that are not UTF-8","6dcf489"),
("C10","","a name with a newline or an empty name broke a record","a81b8e5"),
("C17","","an extra INFO line could hold several lines","302256a"),
("C14","","an embedded module name '..' led out of the symbol store","f3a857e"),
("C19","","panic on an exported name that starts with a multi-byte character","dba8af8"),
("C15","","error pages of a symbol server were taken for files; next server not asked","01fadbf"),
("C16","","an interrupted download left a partial file in the cache","0f34e64"),
("C18","","panic on a cabinet whose name has no extension","8f0eb57"),
("C08","","a repeated line of an inlined function was elided across code of its caller","85af4a0"),
("C11","","merging source files: order depended on hashing, some files twice","edaa87f"),
("C11","","merging: real functions lost to placeholders, PE name and stripped name lost","d14335a"),
("C09","","overflow for symbols at the end of the address space","d6812de"),
("C06","","panic on mini debug info out of the file","a570df7"),
("C18","","panic on odd member names of a cabinet and odd names for the symbol server","591d705"),
("C17","","a PDB next to a PE file was used though it belongs to another one","ce735eb"),
("C09","","placeholders of executable sections were not relative to the load address","475993c"),
("C12","","a PDB source path without directory, or in the root directory, got a leading backslash","6e348f8"),
("C17","","the PDB of a PE file was looked for in the parent of the current directory","3ec2d29"),
("C06","","reading damaged unwind information left a partial STACK record without newline in a successful output","3a22c05"),
("C10","","a line break in the program string of a frame split its STACK record","4d55d58"),
("C11","","inlined calls of a merged function were lost when a path mapping gave their files the same path","593b0d1"),
("C22","","the mapping options and --inlines had no effect on the debug information of PE files","74fe5d1"),
("C15","","a damaged cabinet, or one without the file, served by a symbol server was cached and made this and every later lookup panic","bc182b0"),
("C17","","a PDB with another debug id in the cache of a symbol server (or delivered by it) was combined with the PE file","de01876"),
]
EXTRA=json.load(open('/verif/tools/extra_findings.json')) if os.path.exists('/verif/tools/extra_findings.json') else {"known":[],"fixed":[]}
json.dump({"known":EXTRA["known"],"fixed":[f"fixed: property={p} {h} {w}" for p,_,w,h in fixed]+EXTRA["fixed"]},open('/verif/known_findings.json','w'),indent=1)
print(len(m["checks"]),"checks")

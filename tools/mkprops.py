#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext),
                  why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "A damaged or cut-off source never crashes, hangs or silently compiles",
 "Whatever happens to the bytes of a source file or of a unit it uses (the file ends at any point, a read fails part way, stored bytes are flipped, lost, duplicated or transposed), the compiler stops within a bounded amount of work: with exit status 0 or 1, or by the orderly abort that follows an 'Internal compiler error' message; never by another signal and never in an endless loop. When the status is not 0 a diagnostic has been written to standard error. A source, or a unit it uses, that ends or becomes unreadable before its final 'end.' is always refused with status 1 and a diagnostic, and one whose brackets or begin and end no longer pair, or that has a character that begins no token, is never accepted.",
 ["inputs", "fault_sequences"], "Every byte offset of truncation or read error, and every small corruption, of every source file and used unit.",
 "The suite compiles about 120 intact programs and 41 hand-written erroneous ones; it contains no truncated or corrupted file and no read error, so end-of-file paths in the lexer and parser are unvisited.",
 ["lexer.cpp", "source.cpp", "parser.cpp", "semantics.cpp", "constants.cpp", "types.cpp", "utils.cpp"],
 [("token scanner handles end of file in every state", "lexer.cpp: Lexer::GetToken, StringToken, NumberToken"), ("error return propagation", "parser.cpp: Parser::Error, ParseUnit"), ("error count gates code generation", "lacsap.cpp: Compile")],
 [("errCnt", "number of diagnostics so far", "parser.h/parser.cpp, semantics.cpp")], ["compiler exit status", "compiler standard error"])

prop("C02", "The compiler's exit status is honest under I/O and tool failures",
 "The compiler exits with status 0 only if the requested output (object code linked into an executable, or LLVM IR) was completely written and was produced from the source as it is now. If opening or writing the output fails, if the source or a used unit cannot be read, or if the link step cannot be started, fails or is killed, the compiler exits with a nonzero status and a message on standard error, and it neither crashes nor hands an object left over from an earlier compilation to the linker.",
 ["fault_sequences", "histories"], "Every failure of every open, read, write and close the compiler performs and every outcome of the link command, with and without left-overs of earlier compilations.",
 "No test makes a file unwritable, fills a disk or makes the linker fail; each compilation in the suite runs with a working file system and a working clang.",
 ["binary.cpp", "lacsap.cpp", "source.cpp"],
 [("output stream creation and keep()", "binary.cpp: GetOutputStream, CreateObject, CreateBinary"), ("link command result", "binary.cpp: CreateBinary"), ("status to exit code", "lacsap.cpp: Compile, main")],
 observe=["compiler exit status", "object, IR and executable files", "commands handed to the shell"])

prop("C03", "Compilation is reproducible: same source and options, same output bytes",
 "The object code or LLVM IR and the diagnostics are a function of the source text, the units it uses and the command-line options alone. They do not depend on where memory happens to be allocated or what it contained before, on the clock or its jumps, on the environment variables, locale or time zone, on how many bytes each read returns, or on files left over from earlier compilations.",
 ["schedules", "programs", "configurations"], "Every program, option set and every behaviour of allocator, clock, environment and read sizes.",
 "Each test compiles once per option set and looks only at what the program prints; nothing compares two compilations of the same source.",
 ["expr.cpp", "parser.cpp", "semantics.cpp", "types.cpp", "callgraph.cpp", "constants.cpp", "trace.cpp", "namedobject.h", "stack.h", "lexer.cpp"],
 [("ordering of captured variables and closures", "callgraph.cpp: BuildClosures, UpdateCallVisitor"), ("symbol and case-label tables", "stack.h, expr.cpp"), ("unique ids for generated globals", "types.cpp, expr.cpp")],
 observe=["bytes of the .o/.ll file", "compiler standard error"])

prop("C04", "Compilations touch only their own outputs, alone, killed or concurrent",
 "Compiling NAME.pas creates or changes at most NAME.o, NAME and NAME.ll next to it; sources, used units and every other file keep their contents, whatever fails and whenever the compiler is killed. After a compilation was killed at any point or failed, compiling again without faults gives exactly the result of a compilation in a clean directory. Compilations of different programs running concurrently in one directory, in any interleaving, each give the result they give when run alone.",
 ["crash_points", "schedules", "fault_sequences"], "Every kill point, every interleaving of the file operations of concurrent compilations, with every prior state of the output files.",
 "The test runner compiles one program at a time per directory copy, never kills a compilation and never looks at other files.",
 ["binary.cpp", "lacsap.cpp", "source.cpp", "parser.cpp"],
 [("output names derived from the source name", "binary.cpp: replace_ext, CreateBinary"), ("sources opened read-only", "source.h: FileSource")],
 observe=["directory contents after each run"])

prop("C05", "The link step gets exactly the right files, whatever they are called",
 "For every legal path of a .pas file (spaces, quotes, shell metacharacters, short names, dots, relative or absolute, deep directories) and every way of naming the compiler on its command line, a successful compilation links exactly this program's object file with the runtime library beside the compiler into NAME, with the options that the model, debug and verbosity switches ask for, and executes nothing else. A source without the .pas extension or an impossible path is refused with a message and a nonzero status, never with a crash.",
 ["inputs", "configurations"], "Every file name, directory, working directory and option combination.",
 "All suite programs have plain lower-case names in one directory and the compiler is always called as ../lacsap.",
 ["binary.cpp", "utils.cpp", "lacsap.cpp"],
 [("link command construction", "binary.cpp: CreateBinary"), ("extension handling", "binary.cpp: replace_ext"), ("runtime library directory", "lacsap.cpp: main, utils.cpp: GetPath")],
 observe=["argument vector the link command evaluates to", "exit status"])

prop("C06", "Typed files keep the exact sequence of their components",
 "For every component type and every history of rewrite, append, write, put, reset, read, get, eof and close on a typed file, reading back yields exactly the components written, in order, and eof becomes true exactly after the last one. This holds within one run and across program runs that share the file, however the operating system splits the transfers.",
 ["histories", "schedules", "programs"], "Every operation history, component size and alignment, number of components, and every split of reads and writes into short transfers.",
 "The suite writes ten components of each type once and reads them back once, with complete transfers, in the same run.",
 ["runtime/getput.c", "runtime/readbin.c", "runtime/writebin.c", "runtime/fileio.c", "runtime/assign.c", "runtime/read.c", "expr.cpp", "builtin.cpp"],
 [("component transfer through the buffer variable", "runtime/getput.c: __get, __put"), ("look-ahead flag", "runtime/read.c: __eof; files[].readAhead"), ("record size passed by the compiler", "builtin.cpp: FunctionFileInfo::CodeGen"), ("mode per open", "runtime/fileio.c")],
 [("readAhead", "a component is present in the buffer variable", "runtime/runtime.h: struct FileEntry")], ["values the program prints", "contents of the file"])

prop("C07", "What is written to a text file reads back as the same values and lines",
 "Every history of write/writeln calls of integers, reals, booleans, enumerations, characters, strings and packed arrays of char with any field widths puts exactly the prescribed characters and line ends on the file, and reading it back with matching read/readln calls yields the same values (reals to the precision written) and the same line structure. This holds for every line length and file length, including around internal buffer sizes, and for every character value. (Field widths: a String-typed value is written as it is, a packed array of char up to its first chr(0), a Boolean is never cut below its full name.)",
 ["histories", "inputs", "schedules"], "Every sequence of values, widths, line lengths and file lengths and every split of the transfers.",
 "The suite's text files are a few short ASCII lines, so buffer boundaries, long lines, long strings and non-ASCII bytes are never reached.",
 ["runtime/write.c", "runtime/read.c", "runtime/fileio.c", "runtime/assign.c", "expr.cpp"],
 [("formatting", "runtime/write.c"), ("scanning", "runtime/read.c: readint64, readreal, readstr, readchars, readbool"), ("chunk buffer", "runtime/read.c: read_chunk_text")],
 [("readPos/bufferSize", "position in the chunk buffer", "runtime/runtime.h: struct FileEntry")], ["bytes of the text file", "values the program prints"])

prop("C08", "Results do not depend on how and when input bytes arrive",
 "For a given program and a given sequence of input bytes (on standard input or a text file), the values read, eof and eoln, the output and the exit status are the same however the bytes are divided into deliveries, however long each delivery is delayed, and whether the input is a terminal, a pipe or a file. In particular nothing is lost, repeated or misread where a number, word, line end or buffer is split between two deliveries.",
 ["schedules", "inputs"], "Every division of the input into reads, every delay and both terminal and non-terminal input.",
 "Every test feeds its input from one small file that arrives in a single read.",
 ["runtime/read.c", "runtime/assign.c", "runtime/getput.c"],
 [("chunked reading for non-terminals, per-character reading for terminals", "runtime/read.c: read_chunk_text"), ("terminal detection", "runtime/assign.c: InitFiles"), ("deferred look-ahead", "runtime/read.c: __read_nl, __eof, __eoln")],
 [("isText bit 1", "input is a terminal", "runtime/assign.c")], ["program output", "exit status"])

prop("C09", "Interactive programs make progress without reading ahead",
 "On a terminal, a program that has been given a complete line gets everything that line can satisfy, including readln, without waiting for a further line, and whatever it wrote before a read is visible before it waits for that read. So a peer that sends each line only after it has seen the answer to the previous one never deadlocks with the program, and the dialogue is the same for every timing.",
 ["schedules", "histories"], "Every dialogue program and every timing of the peer, including partial lines.",
 "No test is interactive: standard input is always a file, so read-ahead cannot block.",
 ["runtime/read.c", "runtime/assign.c", "runtime/write.c"],
 [("deferred look-ahead after readln", "runtime/read.c: __read_nl"), ("per-character reads on terminals", "runtime/read.c: read_chunk_text"), ("no initial get on input", "runtime/assign.c: InitFiles")],
 observe=["order of reads and writes at the terminal"])

prop("C10", "Output that cannot be written is never lost silently",
 "If any part of the output of a program to standard output or to a file cannot be stored (disk full, I/O error, file size limit, error reported only at close), the program does not end as if it had succeeded: it ends with a nonzero status and a message on standard error, at the latest when it closes the file or finishes. A program that ends with status 0 has delivered every byte it wrote, in order, even when the operating system accepts writes only piecemeal.",
 ["fault_sequences", "histories"], "Every position and kind of write failure, and every split of writes, in every program that writes.",
 "No test makes a write fail or be short.",
 ["runtime/write.c", "runtime/getput.c", "runtime/writebin.c", "runtime/fileio.c", "runtime/main.c"],
 [("error check at close and at exit", "runtime/fileio.c: __close, runtime/main.c"), ("stdio buffering", "runtime/write.c, runtime/getput.c")],
 observe=["exit status", "standard error", "bytes stored"])

prop("C11", "A failed open or read is reported, never taken for data or end of file",
 "If a file cannot be opened (missing, no permission, is a directory, no descriptors or memory left) or a read on it fails part way, the program stops with a nonzero status and a message on standard error; it never sees the failure as end of file, as a zero or stale value, or crashes. Everything the program wrote and closed or printed before the failure is preserved.",
 ["fault_sequences", "histories"], "Every kind and position of open and read failure in every program that reads.",
 "No test opens a missing file or has a failing read.",
 ["runtime/fileio.c", "runtime/getput.c", "runtime/read.c", "runtime/assign.c"],
 [("FileError on failed open", "runtime/fileio.c: OpenFile"), ("distinguishing error from end of file", "runtime/getput.c: __get, runtime/read.c: read_chunk_text")],
 observe=["exit status", "standard error", "program output up to the failure"])

prop("C12", "A killed program leaves closed files complete and others a clean prefix",
 "If a program is killed at an arbitrary point, every file it had closed holds everything written to it, every file it was writing holds a prefix of what was written since it was opened (after any earlier contents for append), files opened only for reading are unchanged, and no other file is affected. A program run started afterwards on these files reads exactly that surviving data (of a typed file the whole components; a torn last one does not count, and append continues after the last whole one) and works normally.",
 ["crash_points", "histories"], "Every kill point in every history of file operations, followed by any further run.",
 "No test kills a program or continues from what one left behind.",
 ["runtime/fileio.c", "runtime/getput.c", "runtime/write.c", "runtime/assign.c"],
 [("data handed to the operating system on close and on reopen", "runtime/fileio.c: __close, OpenFile"), ("append mode", "runtime/fileio.c: __append")],
 observe=["file contents after the kill", "what the next run reads"])

prop("C13", "Every file variable is a file of its own",
 "Operations on one file variable never disturb the position, buffer variable, contents, mode or end-of-file state of another, in any interleaving, for global, local (also in recursive activations), array-element, record-field, heap-allocated and parameter file variables of the same or different component types. File variables that are not given an external name are internal files: distinct from each other and from those of every other program running at the same time in the same directory.",
 ["histories", "schedules", "programs"], "Every interleaving of operations on many file variables, and of concurrent program instances.",
 "The suite uses its file variables one after the other and runs one program per directory.",
 ["runtime/assign.c", "runtime/runtime.h", "runtime/fileio.c", "runtime/read.c", "expr.cpp"],
 [("handle allocation", "runtime/assign.c: __assign"), ("names of internal files", "runtime/assign.c: __assign_unnamed"), ("initial state of file variables", "expr.cpp: VarDeclAST::CodeGenGlobal/CodeGenLocal")],
 [("files[]", "table of open files", "runtime/assign.c")], ["values read from each file", "file names used"])

prop("C14", "File use is bounded: opening and closing can go on for ever",
 "A program that keeps only a bounded number of files open can assign, open, read, write and close files any number of times without running out of file variables, operating-system descriptors or memory. A program that really opens more files than the limit stops with a message and a nonzero status, and everything already written to its files is kept.",
 ["histories", "fault_sequences"], "Every number of open/close cycles and every descriptor and memory limit.",
 "No test opens more than about thirty files or reopens a file more than a few times.",
 ["runtime/assign.c", "runtime/fileio.c"],
 [("handle reuse", "runtime/assign.c: __assign"), ("close before reopen", "runtime/fileio.c: OpenFile"), ("buffer allocation per open", "runtime/assign.c: SetupFile")],
 [("files[].inUse", "entry is taken", "runtime/runtime.h")], ["descriptors open", "live heap memory", "exit status"])

prop("C15", "Direct access positions a file exactly where it is told",
 "On a typed file, seekread(f,n) makes the n-th component (counting from 0) the next one read, and seekwrite(f,n) and seekupdate(f,n) make the next component written the n-th and leave all others as they were; position, lastposition, empty and eof agree with that at every step of every history of seeks, reads and writes. Asking for position, lastposition or empty never changes what is read or written next. lastposition is the index of the last component, -1 when there is none; seeking to a negative position or beyond the end is reported as an error (a seek to the end itself is not).",
 ["histories", "programs"], "Every history of seeks, transfers and queries for every component type and file size.",
 "There is no test that seeks at all.",
 ["runtime/seek.c", "runtime/fileio.c", "runtime/getput.c", "builtin.cpp"],
 [("position arithmetic with look-ahead", "runtime/seek.c"), ("argument conversion", "builtin.cpp: FunctionSeek::CodeGen")],
 observe=["components read", "file contents"])

prop("C16", "bind, unbind and binding tell the truth about a file's external name",
 "After bind(f, b) with b.name set, for a file variable f that has a place in the file table (by assign or an earlier open), f denotes the external file of that name and binding(f) reports bound with that name; after unbind(f) it reports not bound; and a file given its name by assign reports that name; on a fresh variable bind leaves it unbound and binding says so. No call changes the binding, contents or position of another file.",
 ["histories", "inputs"], "Every history of bind, unbind, binding, assign, open and close on several files.",
 "The one test calls bind on a file variable that was never assigned and expects failure.",
 ["runtime/bind.c", "builtin.cpp", "types.cpp"],
 [("name stored per file table entry", "runtime/bind.c"), ("record layout shared between compiler and runtime", "types.cpp: GetBindingType, runtime/runtime.h")],
 observe=["result of binding", "which external file is used"])

prop("C17", "Heap variables are disjoint, stable and fail cleanly",
 "Every variable created by new is big enough for its type, disjoint from every other live variable, and keeps its value until it is assigned or disposed, in every history of new and dispose, whatever addresses and left-over contents the allocator returns. When memory is exhausted, at any allocation the program or its runtime makes, the program stops with a message and a nonzero status and does not crash or go on with an invalid pointer.",
 ["histories", "fault_sequences", "programs"], "Every history of new and dispose over every pointed-to type, every placement by the allocator and every failing allocation.",
 "The suite allocates a few nodes from a fresh heap, hardly ever disposes them and never runs out of memory.",
 ["runtime/alloc.c", "builtin.cpp", "types.cpp", "runtime/assign.c", "runtime/read.c"],
 [("size computed by the compiler", "builtin.cpp: FunctionNew::CodeGen, types.cpp Size()"), ("allocation", "runtime/alloc.c: __new, __dispose")],
 observe=["values printed", "writes outside live blocks", "exit status"])

prop("C18", "Dates, times and random numbers follow the clock and seed exactly",
 "gettimestamp gives the current local date and time as one consistent instant with every field in range, and date and time format exactly that instant however much later they are called and however the clock has moved since. clock never yields a value the processor clock did not have at the call. The random sequence is a function of the last seed alone: it is the same in every run until randomize, which makes it depend on the current time only, and random(n) is always in 0..n-1 and random in [0,1].",
 ["schedules", "configurations", "histories"], "Every clock value, jump and skew between calls, every time zone, every seed and every interleaving of the calls.",
 "The suite prints one time stamp's shape and one fixed random sequence; the clock is the real one.",
 ["runtime/gettimestamp.c", "runtime/clock.c", "runtime/math.c", "builtin.cpp"],
 [("conversion and formatting", "runtime/gettimestamp.c"), ("generator state", "runtime/math.c")],
 [("rand_seed", "generator state", "runtime/math.c")], ["values printed against the simulated clock"])

prop("C19", "However a program ends, all it did before is kept and the status tells why",
 "When a program ends normally, by halt(n), by panic or by a run-time check or file error, everything it wrote before to standard output and to its files, open or closed, is stored exactly once, in order, and nothing after the ending statement takes effect. The exit status is 0 for normal end, n modulo 256 for halt(n), 11 for panic, 12 for a range error and nonzero for a file error, with the message on standard error, from any depth of calls and any pattern of buffered output.",
 ["histories", "programs", "schedules"], "Every history of outputs to any number of files followed by every way of ending at every call depth.",
 "The suite checks only the output of programs that end normally; exit statuses and messages are not compared.",
 ["runtime/main.c", "runtime/panic.c", "runtime/rangeerror.c", "runtime/fileio.c", "builtin.cpp"],
 [("orderly exit flushes open streams", "runtime/panic.c, runtime/rangeerror.c, runtime/main.c"), ("halt", "builtin.cpp: FunctionHalt::CodeGen")],
 observe=["exit status", "standard error", "file contents"])

prop("C20", "All build modes behave alike in every environment",
 "A program compiled with any optimization level, with or without debug information, for the 32-bit or the 64-bit model, shows the same history of observable actions (output, files, status) in the same environment: the same input arrivals, clock values, file failures, kill points and memory failures. Optimization never drops, duplicates or reorders an observable action, not even in front of a failure.",
 ["programs", "configurations", "fault_sequences"], "Every program, every pair of build modes and every environment behaviour.",
 "The suite compares each mode's normal output with one expected file for fixed inputs, without faults.",
 ["expr.cpp", "types.cpp", "binary.cpp", "lacsap.cpp", "builtin.cpp"],
 [("size and layout computation per model", "types.cpp"), ("code generation", "expr.cpp"), ("pass pipeline", "lacsap.cpp: RunOptimisationPasses"), ("calling convention shared with the runtime", "expr.cpp, builtin.cpp, runtime/runtime.h")],
 observe=["output, files and exit status per mode"])

prop("C21", "readstr and writestr are exact and independent of every file operation",
 "writestr puts into its string exactly the characters write would put on a text file, and readstr scans its string exactly as read would scan the same characters from a file, from the start of the string at every call. Any interleaving with file input and output, with other strings and with calls to themselves through functions evaluated inside the same statement changes neither their results nor those of the files.",
 ["histories", "inputs"], "Every interleaving of string and file transfers, nesting, value and width.",
 "The suite has one short writestr and one short readstr program without nesting or files.",
 ["runtime/read.c", "runtime/write.c", "expr.cpp"],
 [("per-call scan state", "runtime/read.c: __read_S_init, __read_S_end, findInterface"), ("shared scanning code", "runtime/read.c: struct interface"), ("string formatting", "runtime/write.c: __write_S_*")],
 [("intfList", "active readstr states", "runtime/read.c")], ["values printed"])

prop("C22", "eof, eoln, f^, get and read always agree on the current position",
 "At every point of every history of get, read, readln, eof, eoln and f^ on a text file or typed file open for reading, f^ is the component that the next read or get consumes (a line end showing as a space or line-feed character with eoln true), eof is true exactly when no component is left, and evaluating eof, eoln or f^ any number of times changes nothing. This holds wherever the current position lies relative to the runtime's internal buffers and whichever of get and read were mixed before.",
 ["histories", "schedules", "inputs"], "Every interleaving of look-ahead queries and consuming operations, at every buffer alignment and delivery split.",
 "The suite uses either get with f^ or read, never both on one file, and its files are shorter than any internal buffer.",
 ["runtime/read.c", "runtime/getput.c", "runtime/fileio.c", "expr.cpp"],
 [("two paths that advance a file", "runtime/getput.c: __get and runtime/read.c: __get_text"), ("buffer variable access", "expr.cpp: FilePointerExprAST::Address")],
 [("readAhead", "buffer variable holds the current component", "runtime/runtime.h")], ["values printed"])

prop("C23", "Using a file that is not open is an error, not a crash",
 "Reading, writing, seeking, querying or closing a file variable that is not open in any history (never opened, already closed, failed to open, closed twice, opened the other way) is reported with a message and a nonzero status or, where harmless, has no effect; it never crashes the program, corrupts memory, or affects another file, and output made before is kept.",
 ["histories"], "Every history of operations including every wrong order of them.",
 "No test uses a file after closing it or before opening it.",
 ["runtime/fileio.c", "runtime/getput.c", "runtime/write.c", "runtime/read.c", "runtime/seek.c", "runtime/runtime.h"],
 [("handle and open checks", "runtime/runtime.h: getFile, runtime/fileio.c, runtime/seek.c"), ("FileError", "runtime/fileio.c")],
 observe=["exit status", "standard error", "other files"])

prop("C24", "Reading never writes outside the variable being read",
 "Whatever the input contains (lines longer than the string or packed array being read, numbers out of range, end of file in the middle of a value, control and non-ASCII bytes), a read, readln or readstr stores only into its target variables: every other variable keeps its value and the program goes on or stops with an error, and a string or packed array receives at most as many characters as it can hold.",
 ["inputs", "schedules"], "Every input byte sequence, delivery and target type and capacity.",
 "The suite's input lines always fit their targets.",
 ["runtime/read.c", "runtime/write.c", "expr.cpp"],
 [("bounded copy into strings and arrays", "runtime/read.c: readstr, readchars"), ("width of the stored result", "runtime/read.c: __read_bool, __read_int32")],
 observe=["neighbouring variables"])

# --- no simulation target: stated, not claimed
prop("C30", "Compiled expressions and statements compute what Pascal prescribes",
 "For every valid program, evaluation of its arithmetic, relational, Boolean and conversion expressions and execution of its structured statements, procedure and function calls (value, var, procedural and conformant-array parameters, nested scopes, goto) produce the results that ISO 7185 prescribes.",
 ["programs", "inputs"], "Every program and every operand value.",
 "The suite fixes 178 programs; ISO acceptance gives one sample per rule.",
 ["expr.cpp", "builtin.cpp", "types.cpp", "callgraph.cpp"], [("code generation", "expr.cpp")], observe=["program output"])
prop("C31", "Every ill-typed program is rejected and every well-typed one accepted",
 "The compiler reports an error exactly for programs that violate the language's scope, type and protection rules and accepts all others, and never emits code for a program it has reported an error in.",
 ["programs"], "Every program.",
 "41 negative tests sample the rules.",
 ["semantics.cpp", "parser.cpp"], [("type checking visitor", "semantics.cpp")], observe=["diagnostics, exit status"])
prop("C32", "Set, string, complex and mathematical library functions are correct",
 "Set operations, string functions (copy, trim, index, comparison, concatenation to the maximum length), complex arithmetic and mathematical functions return the mathematically right result for every argument in their domain.",
 ["inputs"], "Every argument value.",
 "The suite samples a handful of arguments of each.",
 ["runtime/set.c", "runtime/string.c", "runtime/cmath.c", "runtime/math.c", "runtime/array.c", "runtime/val.c"], [("library functions", "runtime/*.c")], observe=["results"])
prop("C33", "With -Cr every out-of-range subscript and value is caught",
 "In a program compiled with range checking, every array subscript and subrange assignment out of range stops the program with the range-error report of the right file, line and limits, and no other assignment or subscript does.",
 ["programs", "inputs"], "Every program and index value.",
 "The suite's -Cr runs only show that correct programs still work, and 35 programs do not even compile with -Cr at this commit.",
 ["expr.cpp", "runtime/rangeerror.c"], [("RangeCheckAST code generation", "expr.cpp")], observe=["exit status 12 and message"])
prop("C34", "Numbers, strings, comments and identifiers are tokenised as prescribed",
 "Every source text is divided into the tokens the standard prescribes, with numeric literals of every base and form given their exact value or rejected as too large, and every token carrying its right line and column.",
 ["inputs"], "Every source text.",
 "The suite contains each token form a few times.",
 ["lexer.cpp", "token.cpp", "source.cpp"], [("scanner", "lexer.cpp")], observe=["tokens, diagnostics"])
prop("C35", "Program parameters arrive unchanged",
 "paramcount is the number of command-line arguments and paramstr(i) is the i-th one, cut to 255 characters, or empty when there is none.",
 ["inputs"], "Every argument vector and index.",
 "One test passes two arguments.",
 ["runtime/params.c", "builtin.cpp"], [("argument vector", "runtime/params.c")], observe=["program output"])
prop("C36", "AST dump, call graph and debug information describe the program faithfully",
 "The -emit=ast, -callgraph and -g outputs list exactly the constructs, calls, variables and lines of the program and never change the code generated for it.",
 ["programs"], "Every program.",
 "The suite only checks that -g programs still run.",
 ["expr.cpp", "callgraph.cpp", "types.cpp"], [("dump methods and debug-info builder", "expr.cpp, types.cpp")], observe=["dumps, DWARF"])
prop("C37", "Compile time grows moderately with program size",
 "Compiling takes time roughly proportional to the size of the program for every program.",
 ["programs"], "Every program size and shape.",
 "One test bounds the time for one program.",
 ["parser.cpp", "semantics.cpp", "lacsap.cpp"], [("single passes over the syntax tree", "lacsap.cpp: Compile")], observe=["elapsed time"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

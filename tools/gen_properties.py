#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long JSON lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "xcc success implies every stage succeeded and the output is complete",
  "Whenever the xcc driver ends with exit status 0, every file (or stream) it was asked to produce is byte-for-byte the one a fault-free run of the same command produces, and executables are executable. A preprocessor, compiler, assembler or linker process that fails, crashes, is killed or cannot be started, and a pipe or process system call that fails, always makes xcc end with a non-zero status; an input that is rejected on a quiet system is rejected under every process interleaving.",
  ["schedules", "fault_sequences", "inputs", "crash_points"],
  "all xcc command lines (-E, -S, -c, link; one or several .c/.s/.o/.a inputs, stdin), all interleavings of driver and stage processes, all sets of fork/exec/pipe/dup/wait/I-O failures and kills of stage processes at any system call",
  "Tests run each command once on an idle machine with no failing stage other than a syntax error; the order in which stages finish and the point where one dies are never varied.",
  ["src/xcc/main.c", "src/cpp/cpp.c", "src/cc/cc1.c", "src/as/as.c", "src/ld/ld.c"],
  [("compile(): reaps stages and ors their statuses", "src/xcc/main.c"), ("compile_csource()/compile_asm()/do_compile()", "src/xcc/main.c"), ("pipe_exec()/exec_with_ofd()", "src/xcc/main.c")],
  ["exit status of xcc", "output file bytes and mode"])

p("C02", "cpp, cc1, as and ld never report success with damaged output",
  "If the preprocessor, the compiler proper, the assembler or the linker run on its own ends with exit status 0, then everything it wrote (standard output or the -o file) equals what it writes on a fault-free system for the same inputs. A read error, a write error, a full disk, a failing close or seek, or memory exhaustion at any point either is survived with identical output or ends in a non-zero status; it never yields a truncated, padded or reordered output under status 0.",
  ["fault_sequences", "inputs"],
  "all inputs of the four stages, all system-call failures (EIO, ENOSPC, EFBIG, EMFILE, ENOMEM, ...) at any call, one-shot or persisting",
  "No test makes any read, write, close, seek or allocation fail.",
  ["src/cpp/cpp.c", "src/cpp/preprocessor.c", "src/cc/cc1.c", "src/cc/frontend/lexer.c", "src/as/as.c", "src/as/emit_elf.c", "src/ld/ld.c", "src/ld/elfobj.c", "src/util/archive.c", "src/util/util.c"],
  [("read_or_die, malloc_or_die", "src/util/util.c"), ("emit_elf_obj", "src/as/emit_elf.c"), ("output_exe", "src/ld/ld.c"), ("getline based line readers", "src/util/util.c")],
  ["exit status", "stdout / output file bytes"])

p("C03", "wcc never reports success with a damaged or missing .wasm/.o/-E output",
  "If the WebAssembly compiler wcc ends with exit status 0, then the object file, linked module or preprocessed text it was asked for is complete and byte-for-byte what a fault-free run of the same command writes. Any failing read, write, close, seek, temporary-file operation or allocation inside wcc (preprocess, compile, link in one process) is either survived with identical output or reported by a non-zero exit status.",
  ["fault_sequences", "inputs"],
  "all wcc command lines (-E, -c, link, several inputs, objects and archives), all system-call failures at any call",
  "Tests only check that wcc compiles on a healthy machine.",
  ["src/wcc/wcc.c", "src/wcc/emit_wasm.c", "src/wcc/wasm_linker.c", "src/util/archive.c", "src/cpp/preprocessor.c"],
  [("compile_csource: tmpfile -> fseek -> compile -> emit_wasm", "src/wcc/wcc.c"), ("linker_emit_wasm", "src/wcc/wasm_linker.c"), ("read_wasm_obj", "src/wcc/wasm_linker.c")],
  ["exit status", "output file bytes"])

p("C04", "A failed command leaves no half-made output behind",
  "When xcc, as, ld or wcc ends by itself with a non-zero status, the output path it was given holds either no file at all or exactly the file (same bytes) that was there before the command started; it never holds a partial, empty or stale-looking new artefact. (When one command compiles several sources to separate outputs, complete outputs of earlier sources may stay.) A non-regular output such as a device node is never removed.",
  ["fault_sequences", "crash_points", "schedules", "inputs"],
  "all failing commands: invalid inputs, unresolved symbols, and every I/O, allocation or process fault (including kills of xcc's stage processes) at any system call; with and without a pre-existing output file",
  "Tests look at the exit status of failing compilations, never at what they leave on disk, and never make a write fail.",
  ["src/xcc/main.c", "src/as/emit_elf.c", "src/ld/ld.c", "src/wcc/wcc.c", "src/wcc/wasm_linker.c"],
  [("remove(ofn) when a stage failed", "src/xcc/main.c"), ("output opened only after all inputs were processed", "src/as/emit_elf.c, src/ld/ld.c, src/wcc/wasm_linker.c")],
  ["file system content after the command"])

p("C05", "xcc always terminates and never leaves a stage process running",
  "For every input size, pipe capacity, process interleaving and failure or death of any stage process at any point, xcc finishes within a bounded number of steps once nothing but its own processes can make progress: it never deadlocks waiting for a stage, and no stage waits for ever on a pipe. When xcc has exited, none of the stage processes it started is still alive (killed ones at most waiting to be reaped).",
  ["schedules", "crash_points", "fault_sequences", "inputs"],
  "all interleavings, pipe capacities from 1 byte up, deaths/failed starts of any stage at any system call, inputs much larger and smaller than a pipe",
  "Tests use inputs whose stages never die mid-stream; a pipe is never full when a reader disappears.",
  ["src/xcc/main.c", "src/as/as.c"],
  [("compile(): kill the peer of a dead stage", "src/xcc/main.c"), ("closing of pipe ends", "src/xcc/main.c")],
  ["process table after/while the command runs"])

p("C06", "The compilers touch nothing but the requested outputs",
  "After xcc or wcc has exited by itself, with success or failure, the file system differs from before only at the requested output paths: no temporary or intermediate file is left anywhere, no input, header, library or unrelated file is modified or deleted. This includes a pre-existing file whose name collides with a temporary name.",
  ["fault_sequences", "schedules", "inputs", "histories"],
  "all commands and inputs (C and assembly sources, several inputs, failing and succeeding), all faults except failures of the deletion itself and kills of the driver itself",
  "Tests do not inspect the directories after a run and never fail after the temporary object was made.",
  ["src/xcc/main.c", "src/wcc/wcc.c", "libsrc/stdlib/mkstemps.c", "libsrc/stdio/tmpfile.c"],
  [("remove_on_exit + atexit(remove_tmp_files)", "src/xcc/main.c, src/wcc/wcc.c"), ("mkstemps", "src/xcc/main.c")],
  ["file system content after the command"])

p("C07", "Concurrent compilations do not interfere",
  "Any number of xcc and wcc commands with distinct output files, running at the same time in the same directory on shared inputs (make -j), each end with the status and produce the bytes they produce when run alone, under every interleaving of their processes and every collision of randomly chosen temporary names.",
  ["schedules", "configurations"],
  "all interleavings of two to four commands, adversarial random numbers for temporary names",
  "Tests run one command at a time; name collisions have probability 2^-35 in real life.",
  ["src/xcc/main.c", "src/wcc/wcc.c", "libsrc/stdlib/mkstemps.c"],
  [("mkstemps for intermediate objects", "src/xcc/main.c"), ("tmpfile for preprocessed text", "src/wcc/wcc.c")],
  ["exit status and outputs of every command"])

p("C08", "Output depends only on the inputs",
  "Two runs of the same compile, assemble, preprocess or link command on the same input files give byte-identical outputs and the same exit status (and, for a command that is a single process, the same diagnostics), whatever the memory layout, the stale contents of heap and stack memory, how reads and writes are split, the pipe capacities and process scheduling, process ids, clock, random numbers, environment variables and output path. The same holds for native and wasm targets and with the SSA option.",
  ["schedules", "configurations", "inputs"],
  "all inputs; all legal memory layouts and stale memory contents, all legal chunkings of reads and writes, all schedules, environments and clocks",
  "The bootstrap test compares two builds in one environment; layout- or schedule-dependent output differs only on some runs.",
  ["src/util/table.c", "src/util/util.c", "src/cc/backend/regalloc.c", "src/cc/backend/ssa.c", "src/as/as.c", "src/ld/ld.c", "src/wcc/wasm_linker.c", "src/cc/frontend/lexer.c"],
  [("hash tables keyed by string hash, not address", "src/util/table.c"), ("getline-based readers", "src/util/util.c")],
  ["output bytes, stderr, exit status"])

p("C09", "Rerunning after a crash gives the right result; torn objects never link",
  "If a build is killed (all its processes) at any instant, running the same command again afterwards succeeds with exactly the fault-free output, whatever partial files the crash left. Linking with an object file or archive of which only a prefix reached the disk (natively also a prefix followed by zero bytes) either fails with a non-zero status or gives exactly the output the intact file gives; it never gives a different program under status 0 and never runs for ever. (A wasm object cut exactly between two sections is itself a well-formed object and outside this statement.)",
  ["crash_points", "histories", "inputs"],
  "all kill points of compile and link commands (xcc, as, ld, wcc), all truncation lengths of object and archive inputs",
  "No test kills a build or offers a damaged object.",
  ["src/xcc/main.c", "src/ld/elfobj.c", "src/ld/ld.c", "src/util/archive.c", "src/wcc/wasm_linker.c"],
  [("O_TRUNC on outputs", "src/ld/ld.c, src/as/emit_elf.c"), ("read_or_die on every section", "src/util/util.c"), ("section headers at the end of objects", "src/as/emit_elf.c")],
  ["exit status and output of the rerun / of the link"])

p("C10", "stdio output: accepted bytes reach the file once, in order, or an error is told",
  "For every sequence of fputc/fputs/puts/putchar/fwrite/fprintf/fflush/fclose calls on files, pipes and standard streams of the bundled C library (native and wasm), the bytes that reach the descriptor are, in order and without loss or duplication, the bytes accepted, however the kernel splits the writes. If a write to the descriptor fails, the program sees it: the output call, a later call, fflush or fclose on that stream reports failure; when none reports failure, everything was delivered.",
  ["histories", "fault_sequences"],
  "all call sequences, buffer fill levels, sizes and split points; all short writes and write/close errors at any point",
  "Tests write a few short strings to a healthy disk.",
  ["libsrc/stdio/_file.c", "libsrc/stdio/fdopen.c", "libsrc/stdio/fclose.c", "libsrc/stdio/fwrite.c", "libsrc/stdio/fputc.c", "libsrc/stdio/fputs.c", "libsrc/stdio/stdin.c", "libsrc/stdio/vfprintf.c", "libsrc/_wasm/unistd/write.c"],
  [("_fwrite/_fflush", "libsrc/stdio/_file.c"), ("_fclose", "libsrc/stdio/fdopen.c")],
  ["return values of the calls", "bytes received by the descriptor"])

p("C11", "stdio input: the exact bytes of the stream, however reads are split",
  "For every sequence of fgetc/getc/ungetc/fgets/getline/fread/feof calls on files, pipes and character devices of the bundled C library (native and wasm), the bytes handed to the program are exactly the bytes of the stream in order, however the kernel splits the reads, and end-of-file is reported when, and only when, the stream has ended. A read error is reported as a failed call, never as extra or garbage data, a crash or a write outside the caller's buffer, and bytes delivered afterwards continue at the right place.",
  ["histories", "fault_sequences"],
  "all call sequences and sizes, all short reads and read errors at any point, files and pipes",
  "Tests read small regular files where every read is full.",
  ["libsrc/stdio/_file.c", "libsrc/stdio/fgetc.c", "libsrc/stdio/fgets.c", "libsrc/stdio/getline.c", "libsrc/stdio/ungetc.c", "libsrc/stdio/fread.c", "libsrc/stdio/feof.c", "libsrc/_wasm/unistd/read.c"],
  [("_fread and its buffer", "libsrc/stdio/_file.c"), ("unget_char", "libsrc/stdio/fgetc.c")],
  ["return values and buffers"])

p("C12", "stdio positions: seek, tell and mixed read/write act on one byte sequence",
  "On seekable files opened in any mode (r, w, a, with + and b) the bundled C library behaves as a single file with a position: after any history of reads, writes, fseek with any origin, ftell and fflush (with the repositioning that C requires between reading and writing), reads return what the file holds there, writes land at the position (at the end in append mode), and ftell reports the position. The final file content equals the model's, also when the kernel splits reads and writes.",
  ["histories", "fault_sequences"],
  "all legal operation histories, sizes around the buffer capacities, all splits of reads and writes",
  "Tests use one fseek on a small file.",
  ["libsrc/stdio/fseek.c", "libsrc/stdio/ftell.c", "libsrc/stdio/_file.c", "libsrc/stdio/_detect_open_flag.c", "libsrc/stdio/fdopen.c"],
  [("_fseek", "libsrc/stdio/_file.c"), ("ftell", "libsrc/stdio/ftell.c")],
  ["return values, file content"])

p("C13", "malloc/calloc/realloc/free keep live blocks apart and intact",
  "For every history of malloc, calloc, realloc and free in the bundled C library (native and wasm), live blocks are aligned, do not overlap each other or the program's data, keep their contents until freed (realloc keeps the common prefix, calloc gives zeroes), and freed memory can be allocated again. When the system refuses more memory or the request is impossibly large the call returns NULL, existing blocks stay intact and the heap remains usable.",
  ["histories", "fault_sequences"],
  "all operation histories and sizes (0 to huge), all points at which the system refuses to grow the heap, stale contents of fresh memory",
  "Tests allocate a few blocks and memory never runs out.",
  ["libsrc/stdlib/malloc.c", "libsrc/stdlib/realloc.c", "libsrc/stdlib/calloc.c", "libsrc/unistd/brk.c", "libsrc/_wasm/unistd/brk.c"],
  [("K&R free list", "libsrc/stdlib/malloc.c"), ("brk/sbrk", "libsrc/unistd/brk.c, libsrc/_wasm/unistd/brk.c")],
  ["returned pointers and block contents"])

p("C14", "Library calls that allocate internally fail cleanly when memory is out",
  "Every function of the bundled C library that needs memory of its own (fopen, fdopen, tmpfile, fmemopen, open_memstream and writes to it, getline, strdup, strndup, snprintf and friends, getcwd with NULL) either works exactly as with plenty of memory or reports failure through its return value. It never crashes, ends the process, corrupts other blocks, leaks a descriptor or memory, loses bytes already accepted, or claims success without the effect, and works again once memory is available.",
  ["fault_sequences", "histories"],
  "all call histories, all points at which memory growth is refused",
  "Memory never runs out in tests.",
  ["libsrc/stdio/fdopen.c", "libsrc/stdio/fopen.c", "libsrc/stdio/_fileman.c", "libsrc/stdio/fmemopen.c", "libsrc/stdio/open_memstream.c", "libsrc/stdio/getline.c", "libsrc/stdio/vsnprintf.c", "libsrc/string/strdup.c", "libsrc/string/strndup.c", "libsrc/unistd/getcwd.c"],
  [("NULL checks after malloc/calloc/realloc", "libsrc/stdio, libsrc/string")],
  ["return values, descriptors open afterwards, stream contents"])

p("C15", "mkstemp, mkstemps and tmpfile create fresh exclusive files or fail",
  "A successful mkstemp/mkstemps/tmpfile of the bundled C library (native and wasm) returns a descriptor or stream of a file that did not exist before, named by the template with only its X's replaced, readable and writable; it never opens, truncates or links to an existing file. A name that already exists is not a reason to fail while others are free, whatever the random source returns (short, failing or repeating), and a template without the X's fails without creating anything.",
  ["fault_sequences", "histories", "schedules"],
  "all templates, all contents of the directory, all behaviours of the random source and of open",
  "Tests never collide: the chance is 2^-35 per call.",
  ["libsrc/stdlib/mkstemps.c", "libsrc/stdlib/mkstemp.c", "libsrc/stdlib/getrandom.c", "libsrc/stdio/tmpfile.c", "libsrc/_wasm/unistd/open.c"],
  [("O_CREAT|O_EXCL", "libsrc/stdlib/mkstemps.c"), ("getrandom", "libsrc/stdlib/getrandom.c")],
  ["returned descriptors, files in the directory"])

p("C16", "exit runs handlers once in reverse order, flushes every stream, keeps the status",
  "When a program using the bundled C library (native and wasm) returns from main or calls exit at any point, also inside an exit handler or with many streams open, the registered atexit handlers run exactly once, last registered first (handlers registered while exiting included), then all data written to still-open streams is delivered, and the process ends with the given status (its low eight bits natively). A registration that cannot be kept is refused by its return value; a failing write to one stream does not stop the others from being flushed.",
  ["histories", "fault_sequences", "crash_points"],
  "all numbers and orders of registrations, open streams, exit points, and write failures or splits during the final flush",
  "Tests rely on the final flush of one stream on a healthy system.",
  ["libsrc/stdlib/exit.c", "libsrc/stdlib/atexit.c", "libsrc/stdlib/__cxa_atexit.c", "libsrc/stdio/_fileman.c", "libsrc/stdio/stdin.c", "libsrc/crt0/_start.c", "libsrc/_wasm/crt0/_start.c"],
  [("__on_exit_chain", "libsrc/stdlib/exit.c"), ("destructors flushing files", "libsrc/stdio/_fileman.c, libsrc/stdio/stdin.c")],
  ["order of handler effects, bytes delivered, exit status"])

p("C17", "System-call wrappers report failure as -1 with errno and success unchanged",
  "Each wrapper of the bundled C library for file, directory, process and pipe system calls (open, read, write, close, lseek, stat family, unlink, mkdir, rmdir, chdir, chmod, getcwd, dup, pipe, fork, execve, wait, waitpid, kill, ioctl/isatty, clock_gettime, time, remove) returns exactly the kernel's result and effect on success. When the kernel refuses, it returns its documented failure value (-1, NULL, or 0 for isatty) with errno set to the kernel's error code, and nothing else in the process changes.",
  ["fault_sequences", "inputs"],
  "all wrappers, all arguments, all kernel error codes at any call",
  "Tests check neither failing calls nor errno.",
  ["libsrc/unistd/_syscall.h", "libsrc/unistd/write.c", "libsrc/unistd/read.c", "libsrc/unistd/open.c", "libsrc/unistd/fork.c", "libsrc/unistd/getcwd.c", "libsrc/unistd/wait4.c", "libsrc/unistd/stat.c", "libsrc/unistd/time.c"],
  [("SYSCALL_RET + SET_ERRNO", "libsrc/unistd/_syscall.h")],
  ["return value, errno, kernel-side arguments"])

p("C18", "Compiled wasm programs use the WASI host correctly and survive its refusals",
  "The wasm C library's open/read/write/lseek/stat/fstat/unlink/mkdir/rmdir/close act on exactly the file the path names through the preopened directories with the requested flags (create, truncate, append, exclusive), and time and random calls return what the host gives. When the host refuses a call the library reports failure (-1 or NULL) and the program goes on; it never traps, hangs, reads outside linear memory or claims success.",
  ["fault_sequences", "histories", "configurations"],
  "all preopen layouts, paths and flag combinations, all host error codes and short transfers at any host call",
  "No test runs a .wasm file in this environment; elsewhere they run on a healthy host with one preopen.",
  ["libsrc/_wasm/unistd/open.c", "libsrc/_wasm/unistd/stat.c", "libsrc/_wasm/unistd/unlink.c", "libsrc/_wasm/unistd/read.c", "libsrc/_wasm/unistd/write.c", "libsrc/_wasm/unistd/lseek.c", "libsrc/_wasm/wasi.h", "libsrc/_wasm/crt0/_start.c"],
  [("preopen search", "libsrc/_wasm/unistd/open.c"), ("errno mapping", "libsrc/_wasm/unistd/*.c")],
  ["WASI calls made and results returned to the program"])

p("C19", "The compiler hosted in WebAssembly equals the native one, faults included",
  "wcc compiled by itself to WebAssembly and run on a WASI host produces for every command (with sources named by absolute paths, as WASI has no current directory) the same output bytes and exit status as the native wcc, also when the host splits reads and writes arbitrarily. When the host refuses an I/O, seek, open or memory-growth request it either still produces the same bytes or ends with a failure status or trap; it never claims success with a different output.",
  ["fault_sequences", "inputs", "configurations"],
  "all inputs and command lines, all splits and failures of host calls",
  "The suite only checks that cc.wasm can be built.",
  ["src/wcc", "libsrc/_wasm", "libsrc/stdio", "libsrc/stdlib/malloc.c"],
  [("self-hosting build", "Makefile"), ("bundled C library", "libsrc")],
  ["output bytes and exit status in the simulated WASI host"])

p("C20", "The self-hosted native toolchain behaves like the host-built one under faults",
  "The toolchain compiled by itself and linked with the bundled C library produces, for every command, the same outputs and exit status as the toolchain built by the host compiler, under every process interleaving, pipe capacity and split of reads and writes. When a system call fails it either still produces the same output or ends with a non-zero status; it never reports success with damaged output and never hangs.",
  ["fault_sequences", "schedules", "inputs"],
  "all inputs, interleavings, transfer splits and system-call failures",
  "The bootstrap test compares binaries, and runs the suite once on a healthy machine.",
  ["src", "libsrc", "Makefile"],
  [("self-hosting build gen2", "Makefile"), ("bundled C library", "libsrc")],
  ["output bytes and exit status"])

p("C21", "Generated native code may be interrupted at any instruction",
  "A program compiled by xcc for x86-64, including the bundled C library, computes the same results when it is interrupted between any two instructions by code that preserves the registers but overwrites all stack memory below the 128-byte red zone, as signal handlers and debuggers do. It never keeps live data below that area, at any optimisation option, in prologues, epilogues, calls, alloca/VLA code or varargs.",
  ["schedules", "programs"],
  "all programs and all sets of interruption points",
  "Tests never interrupt a running program.",
  ["src/cc/arch/x64/emit_x64.c", "src/cc/arch/x64/ir_x64.c", "src/cc/backend/codegen.c", "src/cc/backend/emit_code.c", "src/cc/builtin.c", "libsrc/misc/setjmp.c", "libsrc/misc/longjmp.c", "libsrc/crt0/_start.c"],
  [("stack pointer lowered before locals are stored", "src/cc/arch/x64/emit_x64.c")],
  ["output and exit status of the interrupted program"])

p("C22", "Compiled programs start up, run exit code once and lose no output at exit",
  "For every program made by xcc or wcc from any number of sources: each constructor runs exactly once before main; main gets the arguments (and natively the environment, also through execvp and getenv) it was started with, ended by NULL; after main returns or exit is called anywhere - in main, a constructor or an exit handler - every function registered with atexit runs once, the last registered first, also those registered while exiting, and every destructor exactly once, after the functions registered by main; every byte accepted by a stream anywhere, also in handlers and destructors, is written out before the process ends; and the exit status is the one given last. Link order, the number of sources, split writes, failures of another stream, lack of memory and start-up calls refused by the WASI host change none of that.",
  ["histories", "programs", "faults"],
  "all programs with any number of constructors, destructors and handlers in any number of sources; all points at which exit is called; all partial writes and failures of other streams",
  "Tests have one source, at most a few handlers and no fault.",
  ["libsrc/crt0/_start.c", "libsrc/_wasm/crt0", "libsrc/stdlib/exit.c", "libsrc/stdlib/atexit.c", "libsrc/stdlib/__cxa_atexit.c", "libsrc/stdlib/_add_exit_func.c", "libsrc/stdio/stdin.c", "libsrc/stdio/_fileman.c", "src/ld/ld.c", "src/wcc/wasm_linker.c", "src/wcc/emit_wasm.c", "src/cc/frontend/parser.c"],
  [("start-up and exit sequence", "libsrc/stdlib/exit.c"), ("init and fini functions of all sources", "src/wcc/wasm_linker.c")],
  ["order of events in the running program, arguments, file contents after exit, exit status"])

p("C23", "Sources compiled by one process do not influence each other",
  "For every sequence of sources given to one invocation of wcc (which compiles them all in one process) or xcc, the result is that of compiling each source in a process of its own and linking the objects: the same sources are accepted, with the same diagnostics, and the linked program behaves the same. Macros, types, tags, enumeration constants, static variables and functions, labels, string literals, function types and tables, constructors and destructors, #pragma once and include guards of one source are not visible in another, whatever the order and number of sources and the options.",
  ["histories", "inputs"],
  "all sequences of sources and options",
  "Tests compile one source per process.",
  ["src/wcc/wcc.c", "src/wcc/gen_wasm.c", "src/wcc/emit_wasm.c", "src/wcc/traverse.c", "src/cc/frontend/parser.c", "src/cc/frontend/lexer.c", "src/cc/frontend/var.c", "src/cpp/preprocessor.c", "src/cpp/macro.c", "src/xcc/main.c"],
  [("compile_csource is called once per source in one process", "src/wcc/wcc.c")],
  ["exit status, diagnostics, behaviour of the linked program"])

# --- not decided by this family (see DESIGN.md) ---
p("N01", "Compiled programs have the meaning the C standard gives them",
  "For every valid C program, the executable made by xcc (with or without SSA and optimisation options) and the module made by wcc show the observable behaviour the C standard requires.",
  ["programs", "inputs"], "all valid C programs", "Tests sample a few hundred expressions.",
  ["src/cc", "src/wcc"], [("whole compiler", "src/cc")], ["behaviour of compiled programs"])
p("N02", "Preprocessing and diagnostics follow the C standard",
  "For every source file, cpp performs macro expansion, conditional inclusion and line control as C requires, and every constraint violation is diagnosed with a failing status.",
  ["inputs"], "all source texts", "Tests sample a few dozen macros and errors.",
  ["src/cpp", "src/cc/frontend"], [("preprocessor", "src/cpp/preprocessor.c")], ["cpp output, diagnostics"])
p("N03", "Assembler encodings, relocations and linking follow the x86-64 and wasm specs",
  "Every instruction and directive is encoded as the architecture specifies, and every relocation, symbol binding and section is linked as the ELF and wasm object rules require, so that objects interoperate with other tools.",
  ["inputs"], "all assembly texts and objects", "Tests assemble what the compiler emits.",
  ["src/as", "src/ld", "src/wcc/wasm_linker.c"], [("encoders", "src/as/arch/x64/asm_code.c")], ["object and executable bytes"])
p("N04", "Pure C library functions compute their specified results",
  "printf-family formatting, strtol/strtod, string, ctype, qsort/bsearch, math and setjmp/longjmp functions of the bundled library return what the C standard specifies for every argument.",
  ["inputs"], "all arguments", "Tests sample a few arguments per function.",
  ["libsrc/stdio/vfprintf.c", "libsrc/stdlib", "libsrc/string", "libsrc/math", "libsrc/misc"], [("library functions", "libsrc")], ["return values"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

import json,subprocess
L=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
def h(sub):
    m=[l.split()[0] for l in L if sub in l]
    assert len(m)==1,(sub,m)
    return m[0]
F=[
("C01","fix: xcc:","a stage that died by a signal or failed after another one, or a failed pipe/fork/dup, was ignored: exit 0 with a truncated object"),
("C01","fix: cpp, cc1","a write error of cpp or cc1 (full disk, EIO) was not reported: xcc -S/-E exit 0 with a cut file"),
("C02","fix: cpp, cc1","read, write and close errors ignored: exit 0 with truncated output"),
("C02","fix: as: report","write/close errors of the object ignored: exit 0 with a damaged object"),
("C02","fix: ld: report failed output and remove","write/close errors of the executable and read errors of objects/archives ignored: exit 0 with a damaged executable"),
("C02","fix: util:","allocation failures and read errors in helpers ignored (NULL dereference or a silently shortened input)"),
("C03","fix: wcc: report","write/close errors of .o/.wasm/-E output and failed temporary files ignored: exit 0 with damaged or missing output"),
("C03","fix: wcc: forget","with several sources on one command line the constructors of an earlier source leaked into the next object (assertion failure)"),
("C02","fix: Do not take another","a failing stat (EIO, EACCES) of a header or library made cpp and ld take another one of the same name further on the search path: exit 0 with different output"),
("C03","fix: Do not take another","a failing stat (EIO, EACCES) of a header or library made wcc take another one of the same name further on the search path: exit 0 with different output"),
("C19","fix: Do not take another","the same in cc.wasm, where stat reported every refusal of the host as a missing file"),
("C04","fix: xcc:","failed xcc left an empty or partial output file; a device given as output could be removed"),
("C04","fix: as: report","failed as left a partial object"),
("C04","fix: ld: report failed output and remove","failed ld left a partial executable"),
("C04","fix: wcc: report","failed wcc left a partial output"),
("C05","fix: xcc:","deadlock when as or cc1 died early (the driver kept the pipe's read end open); stages left running after a failed fork"),
("C05","fix: as: a string","as looped for ever (reading past the line) on an .ascii/.string whose closing quote is missing, e.g. after its input was cut by a read error or a dying cc1"),
("C06","fix: xcc:","temporary and intermediate objects left behind on failure; compiling DIR/part.s made DIR/part.s.o beside the source"),
("C07","fix: xcc:","two concurrent links of the same .s source shared (and deleted) one intermediate object beside the source"),
("C08","fix: util:","change_ext wrote past its buffer (result depended on heap contents)"),
("C08","fix: as: report","section order depended on hash table addresses"),
("C08","fix: ld: report failed output and remove","order of the link map depended on addresses"),
("C09","fix: wcc: report","torn wasm objects and archives were linked or crashed the linker"),
("C09","fix: ld: report failed output and remove","zero-filled or cut ELF objects and archives were linked into a different program under status 0"),
("C20","fix: libc stdio","short reads and writes damaged the streams of the self-hosted tools"),
("C10","fix: libc stdio","a short write duplicated or lost bytes; failed writes were not reported by fflush/fclose"),
("C10","fix: libc memory streams","failed growth of a memory stream was reported as success"),
("C11","fix: libc stdio","read errors taken for data or end of file; fread after a short read lost its place"),
("C12","fix: libc stdio","fseek/ftell ignored read-ahead; mixed read/write positions wrong"),
("C13","fix: libc malloc","huge requests overflowed the size computation and returned a too small block"),
("C14","fix: libc memory streams","vsnprintf allocated and failed; open_memstream lost bytes when memory ran out"),
("C14","fix: libc malloc","strndup read past the terminator"),
("C15","fix: libc mkstemps","an existing name made mkstemps fail or the template was written before it was validated; failing getrandom ignored"),
("C16","fix: libc exit","handlers ran twice when exit was called inside a handler; handlers registered while exiting were lost"),
("C17","fix: libc write, fork","write/fork/time/getcwd/isatty returned the raw negative kernel result without errno"),
("C18","fix: wasm libc","refused host calls claimed success, O_EXCL and O_APPEND were ignored, 64-bit seek result truncated"),
("C18","fix: wasm open and stat","open and stat of a preopened directory by its own name failed"),
("C18","fix: wasm open honours","O_CREAT and O_EXCL were ignored for read-only descriptors"),
("C19","fix: wasm libc","refused host calls inside cc.wasm were ignored"),
("C19","fix: wcc hosted in wasm","switch statements compiled by cc.wasm never became jump tables: its INTPTR_MIN and INTPTR_MAX (bundled stdint.h) were swapped"),
("C16","fix: libc: exit runs every destructor","output that exit handlers and destructors wrote on wasm was lost: the flush ran before them; the eighth and later destructors were dropped"),
("C22","fix: libc: exit runs every destructor","with eight or more destructors of one program some never ran; their output was not flushed"),
("C20","fix: libc: strtod rounds to nearest","literals such as 0.57 compiled by gen2cc1 differed in the last bit from the host-built cc1"),
("C19","fix: libc: strtod rounds to nearest","cc.wasm accepted `double q = 1e;`, which wcc rejects, and rounded literals differently"),
("C23","fix: wcc: forget the init","constructors of one source were registered again by every later source of the command"),
("C18","fix: wasm: stat follows","stat of a symbolic link described the link instead of the file it leads to"),
("C20","fix: Keep NaN quiet","__builtin_nan with a payload gave a signalling NaN, which the self-hosted compiler emitted differently"),
("C19","fix: Keep NaN quiet","__builtin_nan was computed with a 32-bit shift in cc.wasm"),
("C01","fix: ld: Make the output executable","a link onto an existing file that is not executable ended with status 0 and an output that cannot be executed"),
("C20","fix: libc: strtod rounds correctly however","literals of more than 40 digits, or hexadecimal ones, next to the midpoint of two doubles were rounded differently by gen2cc1"),
("C19","fix: libc: strtod rounds correctly however","literals of more than 40 digits, or hexadecimal ones, next to the midpoint of two doubles were rounded differently by cc.wasm"),
("C20","fix: Evaluate floating constants in double","`double d = 0.1 + 0.2;` gave 0.3 with the host-built compiler (long double arithmetic) and 0.30000000000000004 with the self-hosted one"),
("C19","fix: Evaluate floating constants in double","`double d = 0.1 + 0.2;` gave another constant in wcc than in cc.wasm"),
]
out={"findings":[],"fixed":["fixed: property=%s %s %s"%(p,h(s),w) for p,s,w in F]}
json.dump(out,open("/verif/known_findings.json","w"),indent=1)
print(len(F))

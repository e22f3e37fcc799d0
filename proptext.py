"""Text of the properties (source of properties.jsonl and MANIFEST.json; see tools/gen.py)."""
T = {}
def text(pid, title, statement, quant, why, mechanism, over=("inputs",), note="", state=None, observe=None):
    T[pid] = dict(title=title, statement=statement, over=list(over), quant=quant, why=why, mechanism=mechanism, note=note, state=state, observe=observe)

text("P01", "Arbitrary-precision integer arithmetic is exact",
 "For all arbitrary-precision integers, addition, subtraction, multiplication, negation, absolute value, both division pairs, powers, comparison and the conversions to and from 64-bit integers and words give exactly the mathematical result, and raise an exception exactly where the Basis says so (division by zero, a result that does not fit). Every result is in the one canonical form of its value, so equality of values is equality of representations.",
 "all integers of any size, all signs, all pairs and exponents",
 "Carry, borrow and quotient-estimate corrections depend on particular digit patterns among 2^62 values per digit and any number of digits; the existing tests never exercise multi-digit division.",
 [("digit-list arithmetic and Knuth division", "base/system/smlnj/init/target64-core-intinf.sml: natadd0, natsub, natmadd, natmul, natdivmod, natpow"), ("conversions", "base/system/smlnj/init/target64-core-intinf.sml: testInf64, truncInf64, extend64Inf, copy64Inf")],
 note="All functions of the module under contract; the machine primitives have the compiler's documented wrap-around meaning.")
text("P02", "File-system primitives act exactly as asked and report faithfully",
 "Each POSIX file-system primitive of the runtime (open, stat and its variants, chmod, chown, link, symlink, rename, unlink, mkdir, rmdir, mkfifo, chdir, getcwd, access, umask, ftruncate, utime, readlink, pathconf and fpathconf, and opening, reading, rewinding and closing directories) performs exactly the one system call it names, once, on exactly the path, descriptor, mode, owner, length and times the ML program passed. It returns exactly what that call returned, converted without loss: a status record has every field of the kernel's record in its place, with file type, permission bits (set-user-id and set-group-id included), 64-bit size and nanosecond times. It raises SysErr with the error number of that call when, and only when, the call fails. It writes nothing but its result.",
 "all argument values (paths, descriptors, modes, 64-bit lengths and times) and all outcomes of the system call, including every error number",
 "The ranges are 64-bit and the outcomes are the kernel's: a lost bit in a mode, a truncated length or a dropped microsecond shows only for particular values, and failures of most calls cannot be provoked in a test.",
 [("system-call wrappers", "base/runtime/c-libs/posix-filesys/*.c: _ml_P_FileSys_*"), ("status record", "base/runtime/c-libs/posix-filesys/stat.c: mkStatRep"), ("result conventions", "base/runtime/c-libs/cfun-proto-list.h, base/runtime/include/ml-c.h: CHK_RETURN, RAISE_SYSERR")])
text("P03", "POSIX I/O primitives move exactly the bytes and flags asked for",
 "The POSIX I/O primitives (read, write, seek, close, dup, pipe, fsync, descriptor and status flags, record locks) make exactly the one system call they name with exactly the descriptor, buffer start, byte count, 64-bit offset, whence, flags or lock region the ML program passed. Nothing outside the given slice of an array is read or written. The value returned is exactly the one the kernel reported: the byte count, the full 64-bit position, the flag words split into access mode and the rest, both pipe ends in order, every field of the lock. A read returns a well-formed zero-terminated string of exactly the bytes read (the empty string at end of file). SysErr with that call's error number is raised when, and only when, the call fails.",
 "all descriptors, slices, counts below 2^31, 64-bit offsets and lock regions, all results of the system calls",
 "Offsets and lock ranges are 64-bit and short counts and errors are the kernel's choice; the tests read and write small files and never see a truncated offset, a wrong slice start or an unterminated buffer.",
 [("read and write", "base/runtime/c-libs/posix-io/read.c, readbuf.c, write.c, writebuf.c"), ("seek and locks", "base/runtime/c-libs/posix-io/lseek.c, fcntl_l.c"), ("descriptor and status flags", "base/runtime/c-libs/posix-io/fcntl_*.c")])
text("P04", "Process, process-environment and user-database primitives are faithful",
 "The process primitives (fork, exec, execp, exece, wait, kill, alarm, sleep, pause, exit), the process-environment ones (process, user, group and session ids, setuid, setgid, setpgid, setsid, groups, login, uname, times, getenv, environ, ttyname, isatty, ctermid, sysconf) and the passwd and group lookups make exactly the system call they name with exactly the arguments the ML program passed: the argument and environment vectors given to exec hold exactly the strings of the two lists, in order and ended by NULL, whatever their length. The result has every component of the kernel's answer in its place: the child's id together with the kind and number of its exit, stop or signal status, every name and number of the records, all the strings of lists of any length in order. SysErr with that call's error number is raised when, and only when, the call fails; a name or value the system does not know raises the documented error.",
 "all argument values, lists of every length, every exit status, all outcomes of the system calls",
 "Statuses, ids and long argument lists are chosen by the environment: a wrong status byte, a missing terminator or a list that outgrows the allocation area shows only for particular values and lengths.",
 [("process control", "base/runtime/c-libs/posix-process/*.c"), ("process environment", "base/runtime/c-libs/posix-procenv/*.c"), ("passwd and group records", "base/runtime/c-libs/posix-sysdb/*.c")])
text("P05", "Terminal control, polling and temporary names are faithful",
 "OS.IO.poll asks the system for exactly the descriptors and events of its items, with exactly the given time limit (none when none is given), and reports, in the order of the items, exactly those items for which something they asked for is ready, each with no more than it asked for; a list of any length works, and a descriptor that the system cannot poll is an error. The terminal primitives (attributes, speeds, control characters, drain, flow, flush, break, foreground process group, window size) pass every flag word, control character and speed unchanged in both directions. OS.FileSys.tmpName creates a new file, leaves no descriptor open, and returns that file's name. SysErr with the failed call's error number is raised when, and only when, a call fails.",
 "all item lists, descriptors, event sets, time limits and outcomes of the system calls",
 "Which descriptors are ready is the kernel's choice and lists have any length: a wrong bit, a wrong bound or a lost item shows only for particular sets.",
 [("polling", "base/runtime/c-libs/posix-os/poll.c: _ml_OS_poll, ML_Poll"), ("terminals", "base/runtime/c-libs/posix-tty/*.c"), ("temporary names", "base/runtime/c-libs/posix-os/tmpname.c")])
text("P06", "Socket and network-database primitives are faithful",
 "The socket primitives (socket, socketpair, bind, connect, listen, accept, shutdown, close, send, sendto, recv, recvfrom and their buffer forms, every socket option, non-blocking mode, bytes available, the out-of-band mark, own and peer address) make exactly the system call they name, once, with exactly the descriptor, address bytes, buffer start, count, flags, option and value the ML program passed. Received bytes land exactly in the requested slice and nowhere else, and a returned string or address has exactly the bytes and length the kernel gave. Internet and Unix addresses are built and taken apart without loss (ports in network byte order, the full path with its terminator), and a path too long for an address is an error. Host, network, service, protocol and RPC lookups ask for exactly the given key and report every field and list element of the entry found, or NONE when there is none. A failing call is an error carrying the system's error number; no value held across a collection is used afterwards.",
 "all descriptors, addresses, buffers, flags, option values, lists of every length and all outcomes of the system calls",
 "Peers, addresses and entry lists are chosen by the environment and lengths by the kernel: a swapped port, a wrong slice start, a truncated option or a lost address shows only for particular values, and the tests use no network.",
 [("data transfer", "base/runtime/c-libs/smlnj-sockets/send*.c, recv*.c"), ("addresses", "base/runtime/c-libs/smlnj-sockets/to-inetaddr.c, from-inetaddr.c, to-unixaddr.c, from-unixaddr.c, getaddrfamily.c"), ("options", "base/runtime/c-libs/smlnj-sockets/ctl*.c, util-sockaddr*.c, getTYPE.c, getERROR.c, setNBIO.c"), ("network database", "base/runtime/c-libs/smlnj-sockets/get*by*.c, util-mk*ent.c")])
text("P07", "Errors, system constants and primitive names are reported faithfully",
 "Whenever a primitive reports a failure, the ML program sees exactly one exception SysErr raised in the innermost handler, carrying the system's message for the error number that was current and SOME of that number, or, for an error of the runtime itself, the given message and NONE, together with the place it was raised. Error messages are those of the system for the number asked. Every POSIX error name and every signal name has the number of the system's headers, a number found in a table of constants gives that number with its name, an unknown one gives the unknown entry, and the list of a table has all its entries in order. Looking up a C function by library and name finds exactly the function of that name, and nothing for any other name; all of them are registered under their full names for exported heaps.",
 "all error numbers and messages, all names, tables of every length",
 "Failures that reach most error paths cannot be provoked in a test, and the tables hold hundreds of names of which a test names a few.",
 [("raising", "base/runtime/c-libs/unix-raise-syserr.c: RaiseSysError; base/runtime/kernel/run-ml.c: RaiseMLExn"), ("error names", "base/runtime/c-libs/posix-error/*.c"), ("constants", "base/runtime/gc/ml-objects.c: ML_SysConst, ML_SysConstList; base/runtime/c-libs/posix-signal/osval.c"), ("names of primitives", "base/runtime/c-libs/c-libraries.c: BindCFun, InitCFunList")])
text("P08", "Dates, clocks, timers and elementary functions are faithful",
 "Converting a time to a date (universal or local) converts exactly the seconds given and reports every field of the system's answer; converting a date back gives the system exactly the fields given, and the time found, in nanoseconds, or an error when there is none. Formatting passes exactly the format and the date, normalised when its summer-time flag is unknown, and returns exactly the text produced. The local offset is computed for exactly the time given. The time of day, processor time and collector time are reported in full 64-bit nanoseconds; processor time never goes back, and the collector's time grows by exactly the time of each collection. The interval timer is set to exactly the interval asked, to the microsecond, and switched off on NONE. The elementary functions (cos, sin, exp, log, sqrt, atan) and the rounding mode pass their argument to the system's function and return its result unchanged.",
 "all times, dates and formats, all 64-bit nanosecond values, all outcomes of the system functions",
 "Dates beyond 32-bit seconds, carries between seconds and microseconds and failures of the conversions show only for particular values.",
 [("dates", "base/runtime/c-libs/smlnj-date/*.c: _ml_Date_*, _ml_alloc_tm"), ("clocks", "base/runtime/c-libs/smlnj-time/*.c; base/runtime/include/ml-objects.h: ML_AllocNanoseconds; base/runtime/kernel/unix-timers.c: GetCPUTime; base/runtime/kernel/timers.c"), ("interval timer", "base/runtime/c-libs/smlnj-runtime/setitimer.c, itick.c"), ("functions", "base/runtime/c-libs/smlnj-math/*64.c, ctlrndmode.c")],
 note="Every function of the property is verified against its contract; the values of the system's own conversions and functions are taken as given.")
text("P09", "Objects the runtime allocates are well formed and never overlap",
 "Every object that the C runtime allocates for ML (strings, byte arrays, real arrays, raw data, arrays, vectors, records, code objects, lists of strings) has the descriptor of its kind and exact length, holds exactly the contents given (each array element the initial value, each vector element the list's element in order, the joined fields of concatenated records, the bytes of the C string with zero bytes after them), and lies wholly in space that was free: small objects at the allocation pointer, larger ones at the free end of the right first-generation arena, which keeps room for the next collection; the allocation pointers move past exactly the object. A collection that an allocation needs happens before any pointer that it would invalidate is held; shrinking gives back exactly the space after the object. Starting a collection passes every register of the ML state, every declared C root and every extra root given; a major collection follows when asked for or when an arena of the first generation cannot take the next allocation area; afterwards allocation starts at the base of the area with its limit below the reserved buffer.",
 "all lengths and contents, all fill states of the arenas, all collection levels and root sets",
 "Whether an object overlaps another depends on sizes around the small-object limit, the fill state of the arenas and the moment of a collection, and corruption shows only at a later collection.",
 [("objects", "base/runtime/gc/ml-objects.c: ML_CString, ML_CStringList, ML_AllocString, ML_AllocRaw, ML_AllocRaw64, ML_ShrinkRaw, ML_AllocCode, ML_AllocBytearray, ML_AllocRealdarray, ML_AllocArrayData, ML_AllocArray, ML_AllocVector, ML_AllocCData, ML_CData"), ("records", "base/runtime/gc/record-ops.c; base/runtime/c-libs/smlnj-runtime/record1.c, record-concat.c, alloc-code.c"), ("collections", "base/runtime/gc/call-gc.c: InvokeGC, InvokeGCWithRoots, NeedGC")],
 note="Every function of the property is verified against its contract; what the collections themselves do with the arenas is assumed (stated in the assumptions).")
text("P10", "A minor collection moves every live new object, once and whole",
 "A collection of the allocation area copies an object the first time it is met: all of its words and its descriptor (pairs without one) go to the free end of the arena for its kind (records, pairs, strings, arrays), the arena's pointer moves past exactly the copy, and the old object is marked and refers to the copy, so that every later reference gets the same copy. Every root, every assigned cell of an older object and every word of every copied record, pair and array that referred to a new object refers to its copy afterwards, and no other word changes. A cell of an older generation that refers to a younger one leaves its card marked with a generation at most that of the object referred to, and no card is made cleaner. A weak pointer is no reason to keep its object: afterwards it refers to the copy if the object was copied for another reason and is the nulled weak pointer otherwise. The store list and the list of weak pointers are empty afterwards, and the counts of collections, of bytes allocated and of bytes copied per arena advance by what happened.",
 "all object kinds and sizes, all lists of roots, updated cells (repeated ones too) and weak pointers of any length, all heap layouts",
 "The collector is reached from every program, with object graphs and update histories that no test enumerates; a missed word or card is harmless until a later collection.",
 [("copying", "base/runtime/gc/minor-gc.c: MinorGC_ForwardObj, MinorGC_FwdSpecial; base/runtime/gc/copy-loop.h"), ("updated cells", "base/runtime/gc/minor-gc.c: MinorGC_ScanStoreList; base/runtime/gc/card-map.h"), ("sweep", "base/runtime/gc/minor-gc.c: MinorGC_SweepToSpace, MinorGC_CheckWord"), ("weak pointers", "base/runtime/gc/gc-util.c: ScanWeakPtrs"), ("the collection", "base/runtime/gc/minor-gc.c: MinorGC")],
 note="All functions of the minor collector are verified, each caller against the contracts of its callees; lists of any length by invariants over an arbitrary element. Not proved: that the sweep terminates.", over=("inputs", "histories"))
text("P11", "Signals and requests of ML code are each served once and ML resumes intact",
 "Every signal that is caught is counted exactly once, for its own number; while ML code runs and no handler is pending or active it makes the handler pending and clears only the limit register of the interrupted code, otherwise it changes nothing of that code. The signal that is delivered is the next pending one in cyclic order, so that none is passed over for ever; the handler is told its number and how many were received since the last time, which then count as handled, so that none is delivered twice or lost. The handler's argument holds all the registers of the interrupted code as they were, and resuming restores exactly those. Setting, reading and masking signals has the effect that SML's interface gives it (ignore, default, handler; NONE, SOME [] and SOME l), on that signal and no other. Each request of ML code (collection, return, uncaught exception, hardware fault, binding or calling a C function, allocation) is answered by exactly the service it names, on arguments read after any collection, with the result in the argument register and control at the caller's continuation, and no other register changes; an exception that nobody handles is reported, whatever its argument, and ends the program; time is charged to the account of the code that was running.",
 "all signals, counts, processor states and register contents; all masks and lists of signals; all requests, with and without a collection", "Signals arrive between any two instructions and in any number; a test sees a few of these moments. Requests are served with a collection at each possible point.",
 [("receiving", "base/runtime/mach-dep/unix-signal.c: CSigHandler; base/runtime/mach-dep/signal-util.c: GCSignal"), ("delivery and resumption", "base/runtime/mach-dep/signal-util.c: ChooseSignal, MakeHandlerArg, MakeResumeCont, LoadResumeState"), ("states and masks", "base/runtime/mach-dep/unix-signal.c: SetSignalState, GetSignalState, SetSignalMask, GetSignalMask; base/runtime/c-libs/smlnj-signals"), ("requests", "base/runtime/kernel/run-ml.c: RunML, ApplyMLFn, UncaughtExn"), ("state across ML code", "base/runtime/kernel/ml-state.c: InitVProcState, InitMLState, SaveCState, RestoreCState")],
 note="Proved for the C side; the assembly that enters and leaves ML code is assumed. SaveCState and RestoreCState are proved for one to four values (the callers pass one or two).", over=("inputs", "histories"))

text("P12", "A major collection keeps, moves and promotes every live object once and whole",
 "When a collection of the older generations meets an object for the first time it copies all of it: to the arena for its kind of its own generation, or of the next one when the object is old (it was there at the generation's previous collection); the old object refers to the copy, so that every later reference gets the same copy, and no other arena changes. A big (code) object is not moved: its descriptor, found from any address in it, is set to kept when it was young and to promoted when it was old, and no other descriptor changes. Every root, every cell on a dirty card of every generation that is not collected, and every word of every copied record, pair and array that referred to an object of a collected generation refers to its copy afterwards, and no other word changes. A card is marked with a generation at most that of every younger object its cells refer to. A weak pointer does not keep its object alive: it is put on the list of weak pointers to be decided at the end, unless its object is not collected or was copied already. Allocating a big object takes the pages of one free block, and freeing one joins it with the free blocks next to it: the map from pages to descriptors, the list of free blocks and the region's counts and generation agree with that afterwards, and no other object changes.",
 "all object kinds and sizes, all generations and numbers of generations, all roots, cards and heap layouts; all big-object regions, free lists and sizes",
 "Collections of older generations are rare in tests, and a reference or card that is missed shows only when a later collection moves the object; the histories of allocation, promotion and assignment that matter cannot be enumerated.",
 [("copying and promotion", "base/runtime/gc/major-gc.c: MajorGC_ForwardObj, MajorGC_FwdSpecial, MajorGC_ForwardBigObj"), ("roots and dirty cards", "base/runtime/gc/major-gc.c: MajorGC_ScanRoots; base/runtime/gc/card-map.h"), ("sweep", "base/runtime/gc/major-gc.c: MajorGC_SweepToSpace, MajorGC_SweepToSpArrays"), ("big objects", "base/runtime/gc/big-objects.c: BO_Alloc, BO_Free, BO_GetDesc, BO_AddrToCodeObjTag, BO_GetCodeObjTag")],
 note="Each function is proved against the contracts of its callees; arenas, cards, lists and maps of any length by invariants over an arbitrary element.", over=("inputs", "histories"))

NA = {}
def na(pid, title, statement, quant, why, mechanism, files, reason, over=("inputs",)):
    text(pid, title, statement, quant, why, mechanism, over); NA[pid] = dict(files=files, reason=reason, title=title)
na("P90", "Compiled programs behave as the Definition of Standard ML says",
 "Every program that the compiler accepts is well typed and its machine code, on every input, has the behaviour that the Definition of Standard ML and the Basis give it (values, exceptions, order of effects); optimisation changes nothing but cost.",
 "all accepted programs and all their inputs", "Programs and inputs are unbounded and each optimisation combines with every other.",
 [("elaboration and translation", "base/compiler/**: Elaborator, FLINT, CPS"), ("code generation", "base/compiler/**, base/old-basis")], ["base/compiler/core.cm"],
 "The compiler is about 100,000 lines of SML using functors, higher-order control and mutable state throughout; no deductive verifier for SML exists here, the one written for P01 covers first-order functions over integers and lists, and a semantics of the source and target languages would have to be specified first. Contracts on single functions would not state this property.")
na("P91", "CML communication is synchronous and happens at most once",
 "In Concurrent ML, a synchronisation commits to exactly one of its alternatives, a message is received exactly once by exactly one thread, and a thread that can proceed is eventually scheduled.",
 "all programs and all interleavings of threads, including preemption at every point", "The preemption points are chosen by the timer.",
 [("events and channels", "cml/src/core-cml/*.sml"), ("scheduler", "cml/src/core-cml/scheduler.sml")], ["cml/src/core-cml/scheduler.sml", "cml/src/core-cml/channel.sml", "cml/src/core-cml/event.sml"],
 "The implementation is first-class continuations (callcc/throw) and asynchronous signal handlers in SML; contracts for captured continuations are outside the logic of the SML verifier built here, and model checking a hand-written model is a different family of technique.", over=("inputs", "schedules"))
na("P92", "The compilation manager rebuilds exactly what a change can affect",
 "After any edit, CM recompiles every unit whose compiled code could differ and no stale binary is ever linked; the result of an incremental build equals that of a build from scratch.",
 "all dependency graphs and all edit histories", "Histories of edits and dependency graphs are unbounded.",
 [("dependency analysis and recompilation", "base/cm/**")], ["base/cm/main/cm-boot.sml"],
 "Depends on the whole elaborator (static environments, pickling and their hashes) and on file-system state; the functions concerned are higher-order SML over mutable tables, out of reach of the SML verifier built here.", over=("inputs", "histories"))
na("P93", "Generated parsers and lexers recognise exactly their grammar's language",
 "A parser or lexer generated by ml-yacc, ml-lex, ml-antlr or ml-ulex accepts exactly the language of its specification and performs the actions in the specified order.",
 "all specifications and all inputs", "Grammars and inputs are unbounded.",
 [("table construction", "ml-yacc/src/*.sml, ml-lex/lexgen.sml, ml-lpt/**")], ["ml-lex/lexgen.sml", "ml-yacc/src/mklrtable.sml"],
 "Needs a proof of LALR(1)/LL(k)/DFA construction over functorised SML with imperative tables; beyond the first-order fragment the SML verifier supports.")

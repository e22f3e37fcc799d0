SMLV_TRUSTED = ["smlv: SML parser, symbolic evaluator and contract rules in /verif/smlv (own code, not itself verified)",
                "z3 5.3 and cvc5 1.1.2", "meanings given to the compiler's inline primitives (smlv/prims.py)"]
GEN = ["the compiler, the runtime and the collector execute the verified functions faithfully", "memory exhaustion and interrupts are not modelled",
       "termination is proved only where a measure is given"]
PROPS = {}
def prop(pid, **k):
    k.setdefault("trusted", SMLV_TRUSTED); k.setdefault("assumptions", GEN)
    PROPS[pid] = k

prop("P01", specs=["intinf"], files=["base/system/smlnj/init/target64-core-intinf.sml"], replay=["intinf_search"],
     assumptions=GEN + ["digit lists have fewer than 2^57 cells"])
CV_TRUSTED = ["cv: LLVM IR reader, symbolic executor and contract rules in /verif/cv (own code, not itself verified)", "clang 18 -O0 translation of the C sources to LLVM IR", "z3 5.3 and cvc5 1.1.2"]
CGEN = ["system calls and libc functions behave as their manual pages say (assumed contracts in cv/cstubs.py and the spec files: result -1 and errno on failure, outputs written only where documented)",
        "the ML caller passes a well-formed value of the type documented for the primitive", "the allocation area has room for the fixed-size objects a primitive builds (the heap-limit slop)",
        "LP64 Linux configuration (ARCH_AMD64), the one built here"]
CTECH = "contract-based deductive verification of the C source (CV: contracts per function, symbolic execution of clang's LLVM IR of the current tree for all inputs, z3/cvc5)"
def cprop(pid, groups, files, **k):
    k.setdefault("trusted", CV_TRUSTED); k.setdefault("assumptions", CGEN); k.setdefault("technique", CTECH)
    k["cspecs"] = groups; k["files"] = files
    PROPS[pid] = k
import glob, os
def rt(d, *fs):
    """files of a runtime directory (all the C files when none are named)"""
    r = os.path.join(os.environ.get("SMLV_REPO", "/repo"), "base/runtime", d)
    return [f"base/runtime/{d}/{f}" for f in (fs or sorted(os.path.basename(x) for x in glob.glob(r + "/*.c")))]

cprop("P02", ["c_filesys"], rt("c-libs/posix-filesys"))
cprop("P03", ["c_io"], rt("c-libs/posix-io"))
cprop("P04", ["c_process"], rt("c-libs/posix-process") + rt("c-libs/posix-procenv") + rt("c-libs/posix-sysdb"))
cprop("P05", ["c_tty"], rt("c-libs/posix-tty") + rt("c-libs/posix-os", "poll.c", "tmpname.c", "posix-os-lib.c"))
cprop("P06", ["c_socket"], rt("c-libs/smlnj-sockets"))
cprop("P07", ["c_error"], ["base/runtime/c-libs/unix-raise-syserr.c", "base/runtime/c-libs/c-libraries.c", "base/runtime/kernel/run-ml.c", "base/runtime/gc/ml-objects.c"] + rt("c-libs/posix-error") + rt("c-libs/posix-signal"))
cprop("P08", ["c_time"], rt("c-libs/smlnj-date") + rt("c-libs/smlnj-time") + rt("c-libs/smlnj-math", "atan64.c", "cos64.c", "ctlrndmode.c", "exp64.c", "log64.c", "sin64.c", "sqrt64.c", "smlnj-math-lib.c") + rt("kernel", "timers.c", "unix-timers.c") + rt("c-libs/smlnj-runtime", "setitimer.c", "itick.c"))
cprop("P09", ["c_objects"], ["base/runtime/gc/ml-objects.c", "base/runtime/gc/record-ops.c", "base/runtime/gc/call-gc.c"] + rt("c-libs/smlnj-runtime", "alloc-code.c", "record1.c", "record-concat.c"),
      assumptions=CGEN[:2] + CGEN[3:] + ["MinorGC and MajorGC: a minor collection takes at most an allocation area's worth of each arena, a major one leaves room for reqSizeB and an allocation area (assumed)", "a list of C strings fits the allocation area"])
cprop("P10", ["c_gc"], ["base/runtime/gc/minor-gc.c", "base/runtime/gc/gc-util.c", "base/runtime/gc/copy-loop.h", "base/runtime/gc/card-map.h"],
      assumptions=CGEN[:1] + ["heap invariants at the start of the collection: boxed words are addresses below 2^47, page identifiers are those of the generations in use, an object's descriptor gives its size, every updated cell of an old object lies in an arena that its generation's card map covers with fewer than 2^31 cards", "the first generation's arenas have room for what the allocation area holds (P09 keeps it so)", "the cells of the store list are not objects that ML can reach, so copying does not change them", "termination of the sweep (every object is copied at most once) is not proved"])
cprop("P11", ["c_signal"], ["base/runtime/mach-dep/unix-signal.c", "base/runtime/mach-dep/signal-util.c", "base/runtime/mach-dep/signal-sysdep.h", "base/runtime/kernel/run-ml.c", "base/runtime/kernel/ml-state.c", "base/runtime/c-libs/smlnj-signals", "base/runtime/config/unix-signals.c", "base/runtime/config/gen-unix-signals.c"],
      assumptions=CGEN[:1] + ["restoreregs (assembly) runs ML code and returns a request with the ML registers and the processor's state in any condition; it keeps the processor of the ML state", "the signal handler runs with all signals blocked, so it is not interrupted by itself; the two counters of a signal are each written by one side only", "fewer than 2^31 signals of one kind are pending", "the signal-set and sigaction functions of the C library do what POSIX says; signal numbers are 1 to 64", "a C function called from ML may change the ML registers in any way"])
cprop("P12", ["c_major"], ["base/runtime/gc/major-gc.c", "base/runtime/gc/big-objects.c", "base/runtime/gc/copy-loop.h", "base/runtime/gc/card-map.h", "base/runtime/gc/heap.h", "base/runtime/gc/arena-id.h"],
      assumptions=CGEN[:1] + ["heap invariants at the start of the collection: boxed words are addresses below 2^47, page identifiers are those of the generations in use, an object's descriptor gives its size, a cell of an old array that refers to a younger generation lies on a card marked with that generation or a younger one, the cells of arrays do not refer to code objects directly, weak pointers do not refer to code objects", "each to-space has room for what is copied to it (Flip computes the sizes; not verified)", "array arenas are smaller than 16 GB", "the words that the roots refer to are distinct", "the descriptors of a big-object region cover disjoint ranges of its pages, as BO_Alloc and BO_Free keep them; malloc succeeds", "MajorGC itself (the order of the steps, freeing of from-spaces, promotion of descriptors between lists), Flip, TrimHeap, FreeGeneration and MarkRegion are not under contract", "termination of the sweep is not proved"])

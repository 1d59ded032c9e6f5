"""What each check runs: build configurations, budgets, and text for the evidence."""
import os, concurrent.futures as cf
import build as B

Q, T = 20000, 600000
STUB_FS = "operating system calls on files (open, fstat, fallocate, ftruncate, fsync, mmap, msync, munmap, close, read, write, rename ...): simulated file system with page cache, durable state and seeded write-back"
STUB_HEAP = "operator new/delete: tracked allocator with seeded failures, red zones and a memory limit"
STUB_STREAM = "stream device (std::streambuf) with seeded transfer sizes and failures; std::iostream itself is real"
STUB_USER = "user classes whose constructors, copies and serialize() are fault and yield points"
REAL = "all of /repo/src/checkpoint (library sources and templates, without Kokkos), libstdc++"
DIST = ("A run is non-trivial if at least one injected fault, crash, damage, mutation or hostile history step actually took effect; "
        "two runs are distinct if their abstract executions differ: the sequence of operations, types, transports, faults fired "
        "(kind, position, argument) and outcomes, hashed. ")
MODEL = ["the simulated file system: msync makes data durable, fsync data, size and name; everything else reaches the disk or not as the seed decides",
         "sampling: seeds explored are evidence, not proof"]

NOTE = "Seeded search, not exhaustive: a clean batch is evidence. The real library runs unmodified against a simulated file system, heap, streams and user code; trusts the model of the file system (msync/fsync semantics), the type zoo as representative, and the harness' own value digests."

def P(rule, real=(), stub=(STUB_FS, STUB_HEAP, STUB_STREAM, STUB_USER), assumes=(), configs=("A", "B"), q=Q, t=T, thorough=("A", "B")):
    return dict(note=NOTE, rule=DIST + rule, real=[REAL] + list(real), stub=list(stub), assumes=list(assumes) + MODEL, configs=list(configs),
                thorough_configs=list(thorough), quick_ms=q, thorough_ms=t)

PROPS = {
 "C01": P("Each seed is a history of saves, disturbed saves, crashes with seeded write-back, torn pages, reboots and loads over up to three files."),
 "C02": P("Each seed saves and loads with one to three failing system calls or a full disk; success is tested by a crash that keeps only durable state."),
 "C03": P("Each seed is a history of saves and loads with failing system calls, full disk, allocation and user failures and damaged files; descriptors, mappings and heap are audited after each operation."),
 "C04": P("Each seed loads checkpoints cut at seeded positions or left behind by a crash in the middle of a save.", configs=("A", "B", "D"), thorough=("A", "B", "D")),
 "C05": P("Each seed interleaves saves, loads and raw bytes of the caller on one stream with seeded buffering.", configs=("A", "B")),
 "C06": P("Each seed breaks a stream (end of data, device error, exception) at a seeded byte while a sequence of objects is saved or loaded.", configs=("A", "B")),
 "C07": P("Each seed saves objects over all transports into environments with different memory content, previous file content and buffering.", configs=("A", "B")),
 "C08": P("Each seed changes the object at seeded yield points while another task saves it."),
 "C09": P("Each seed makes allocations, system calls, streams, user code or the allocation callback fail during saves.", configs=("A", "B")),
 "C10": P("Each seed makes allocations, constructors, copies, serializers, system calls or streams fail during loads.", thorough=("A", "B", "D")),
 "C11": P("Each seed is a history of mutations, checkpoints and rollbacks, some failing, on one object.", configs=("A", "B")),
 "C12": P("Each seed delivers data of another type or no checkpoint at all over all transports.", thorough=("A", "B", "D")),
 "C13": P("Each seed is a set of threads with calls on distinct objects and a schedule that switches between them at memory accesses of the library (random intervals, priorities with change points, or at memory used by several threads); "
          "the process is cold, results are compared with the same calls made one after the other in another process, and every access is checked for a conflicting unordered one.",
          real=("library, containers and user code compiled with -fsanitize=thread instrumentation",),
          stub=(STUB_FS, STUB_HEAP, STUB_STREAM, STUB_USER, "thread scheduler, mutexes, condition variables, once and static-local guards: one thread runs at a time, the seed decides who; happens-before race detector behind the instrumentation"),
          assumes=("accesses made inside the precompiled libstdc++.so and libc are not seen by the race detector",), configs=("T",), thorough=("T", "U")),
 "C14": P("Each seed saves and loads polymorphic objects over mixed transports, some with faults, counting serializer calls per hierarchy level. A second configuration spreads the classes over six dynamically loaded modules: each seed decides in a fresh process which modules are loaded in which order and what is saved, loaded and restored in between.",
          real=("dynamic loading: the modules are real shared objects, loaded with dlopen into a fresh process per run",), configs=("A", "B", "M"), thorough=("A", "B", "M")),
 "C15": P("Each seed schedules sends, deliveries (copied, duplicated, reordered, misaligned), mutations and destructions between tasks.", configs=("A", "B")),
 "C16": P("Each seed loads write-protected sources repeatedly, some loads failing.", configs=("A", "B")),
 "C17": P("Each seed is a chain of two or three executions of the program, each with its own history of operations and failures, memory content and load address; what one saves the next ones load, and equal objects must give equal bytes.",
          real=("process start: every simulated process is a real fresh execution (static initialisation included)",), configs=("F",), thorough=("F", "G")),
}

def describe(cfg):
    c = B.CONFIGS[cfg]
    return "defines %s; platform features %s; flags %s" % (" ".join(c["defs"]), " ".join(c["have"]) or "none", " ".join(c["flags"]) or "none")

def build(prop, cfgs, work):
    out = {}
    with cf.ThreadPoolExecutor(len(cfgs)) as ex:
        for c, e in zip(cfgs, ex.map(lambda c: B.build_sim(c, os.path.join(work, c)), cfgs)):
            out[c] = e
    return out

def workers(cfgs, n):
    if len(cfgs) == 1:
        return {cfgs[0]: n}
    k = max(1, n * 5 // 8) if len(cfgs) == 2 else max(1, n // 2)
    rest = max(len(cfgs) - 1, n - k)
    out = {cfgs[0]: k}
    for i, c in enumerate(cfgs[1:]):
        out[c] = rest // (len(cfgs) - 1) + (i < rest % (len(cfgs) - 1))
    return out

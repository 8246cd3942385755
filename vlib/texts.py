"""Wording of the evidence files and of MANIFEST.json."""
TRUST = ["the reference cipher in harness/ref.c, written from the published description of CSA and checked against the repository's vectors, is right",
         "compilers, sanitizer run-times and qemu user emulation behave as documented"]
BUILDS = "Builds: the repository's own configurations and the documented ones it does not test, compiled from /repo/src as it is now (see per_build_evaluations)."


def T(technique, rule, note, assumptions=(), ref=True):
    return dict(technique=technique, rule=rule, level_note=note, assumptions=list(assumptions) + (TRUST if ref else TRUST[1:]))


TEXT = {
"C01": T("runtime monitor: online comparison with a reference cipher, coverage-guided generation",
  "Cases are drawn by a seeded generator biased to structural control words (single bits, equal halves, checksum form), structural payloads and lengths around block borders; libFuzzer adds inputs steered by branch and comparison coverage of the library itself. "
  "A case is one control word, direction, length and content; distinct ones are counted by hash, per build; for the fuzzer, inputs that reached new coverage. Lengths below 8 are a small part.",
  "Held on every executed call, compared byte by byte with an independent implementation. Nothing is claimed about control words and payloads not drawn; of payloads of 2 GiB the quick tier compares the head (which depends on every block of an encryption) and that every block went through both ciphers, the thorough tier far more."),
"C02": T("runtime monitor: round-trip invariant over both APIs",
  "A case takes random data through encrypt-then-decrypt or decrypt-then-encrypt, each half by the single packet or the batch API in an independently drawn batch split; distinct (build, case) by hash of control word, pairing and data.",
  "Held on every executed round trip.", ref=False),
"C03": T("runtime monitor: differential oracle (batch against single packet API), exhaustive count x limit grid, coverage-guided generation",
  "Random batches (count, limit, lengths, layout, contents from edge-biased distributions), a grid over packet counts and all 24 limits in both directions, key sweeps, and coverage-guided batches checked against the reference. A batch is distinct by the hash of key, limit, lengths and contents, per build.",
  "Every packet of every executed batch was compared. The single packet API is itself checked by C01."),
"C04": T("runtime monitor: metamorphic oracle over batches (permute, shrink, replace and relocate neighbours)",
  "A case runs a batch, then variants of it in which every other packet is moved, dropped, replaced, resized or relocated, and compares the packets the two runs share; or the packets of a batch lie at the corners of the address space, as far apart as it allows, and are compared with the reference; distinct by hash, per build.",
  "Held on every executed pair of batches and every placed batch."),
"C05": T("runtime monitor: prefix oracle against the single packet API and reference",
  "Batches in which most packets exceed the limit, by 1 byte up to UINT_MAX (the longest in sparse mappings), mixed with shorter ones; all limits 0..184; the prefix must equal the processed prefix, everything behind must be unchanged. Distinct by hash, per build.",
  "Held on every executed batch; beyond a few hundred bytes the bytes behind the limit are compared in the mapped part."),
"C06": T("runtime monitor: malleability and truncation relations plus reference",
  "A case flips random bits of the residue, changes the length within the residue, or takes payloads shorter than 8 bytes, through either API and direction, and checks the relation and the reference result; distinct by hash, per build.",
  "Held on every executed case."),
"C07": T("runtime monitor: read-only pages, canaries and whole-argument comparison; AddressSanitizer poisoning",
  "Every argument that must not be written lives on a read-only page (key context, control word, descriptors) or is surrounded by canary bytes or poisoned memory at random distances; any store there faults or is found by comparison. Distinct by hash of the case, per build.",
  "Held on every executed call, transient stores included where the memory was read-only or poisoned.", ref=False),
"C08": T("compiler sanitizers (ASan, UBSan, bounds; gcc and clang), guard pages, valgrind memcheck in the thorough tier",
  "Valid call sequences (single, batch, limits, placements at the end of mapped memory, key histories, terminators) in sanitizer builds of 20 x86 variants by two compilers and in guard-page runs of all builds including other processors. AVX2 gathers are replaced by plain loads in sanitizer builds so that they are checked. Distinct by hash of the case, per build.",
  "No report on the executions made. Accesses inside one object but outside the intended member are seen only by the bounds build; uninitialised reads belong to C21.",
  ["a sanitizer report names a real error: the builds contain only the library and the monitor"], ref=False),
"C09": T("runtime monitor: model of context -> control word over random histories",
  "A history of 60 operations over six contexts of each kind (allocate, set, reuse control word buffer, process in either API, release), every processing result compared with the reference under the model's key; plus marathons of hundreds of thousands of calls on few contexts and hundreds of contexts alive together. Distinct by history, per build.",
  "Held on every executed history."),
"C10": T("ThreadSanitizer (gcc and clang) and stress with a result oracle on optimised builds",
  "Rounds of 8 threads sharing key contexts, with private contexts and payloads that are adjacent bytes of one buffer, started together by a barrier; a second workload allocates, sets, uses and frees contexts concurrently; a third holds up to 100 calls in the middle (a signal handler that waits), makes others meanwhile and lets the held ones go on one by one; rounds of 100 threads too. Every result is compared with the reference. Distinct by the round's inputs, per build.",
  "No race report and no wrong result in the executed rounds. A race in code ThreadSanitizer does not see (inline assembly) would have to show in a result."),
"C11": T("runtime monitor: single-stepped calls with a nested library call at chosen or at every instruction; timer signals",
  "sigevery runs a complete nested call in the trap handler after EVERY instruction of an outer call, for all 32 pairs of outer and nested operation and context sharing; sigstep nests at random instructions over random cases; sigtimer interrupts with real timers; sigdeep lets up to 40 handlers interrupt each other. All results are compared with the reference. Distinct by (operations, interruption point).",
  "Held at every instruction boundary executed on x86-64; on other processors only timer interruptions. Nested calls at all points are short ones."),
"C12": T("fault injection into the allocator and heap accounting at the boundary",
  "The C library's allocator is intercepted at link time: every request is counted, refused on demand (all, each of the first ones), filled with rubbish and optionally returned with the minimum alignment. A case is an allocation under failure or a life cycle of up to 12 contexts with processing while the heap is exhausted. Distinct by case, per build and allocator variant.",
  "Every single refusal among the first four requests of each allocation function and total exhaustion were injected; leaks are counted exactly."),
"C13": T("offline comparison of result digests recorded from every build",
  "The same seeded sequence of calls (both APIs, batches split to each build's size) runs in every build, a digest is recorded for every 10 calls, and the digests are compared across all builds. Distinct by call, per build.",
  "All pairs of builds agreed on the common calls; slow (emulated) builds run a prefix of the sequence.", ref=False),
"C14": T("runtime monitor: placement sweep with a reference oracle; AddressSanitizer and UBSan alignment checks",
  "Each case places payloads, control words and descriptors at chosen residues modulo 64, across page borders or ending at the last mapped byte, and compares with the result of an aligned call and the reference; or puts them, and the key contexts, at, before and across multiples of 2^31 to 2^46 and the ends of the address space; distinct by placement and content, per build.",
  "Held on every executed placement."),
"C15": T("runtime monitor: CPU state read before and after every call",
  "Before each call the x87 control word, MXCSR (rounding, masks, flush modes), and on other processors FPCR/FPSCR/VSCR are set to drawn values; afterwards they, the x87 tag word, the direction flag and a floating point computation are checked. Distinct by entry state and call, per build (eight of them with real MMX registers).",
  "Held after every executed call.", ref=False),
"C16": T("runtime monitor: termination sweep with unmapped and trap entries behind the terminator",
  "All counts from 0 to the batch size, terminators with arbitrary length fields, further valid-looking entries behind the terminator or unmapped memory right behind it; results and everything behind are checked; the batch size is compared with the word width of the build. Distinct by (count, limit, filling), per build.",
  "All counts were executed on every build; contents are samples."),
"C17": T("runtime monitor: single-stepped calls inspected for system calls and clock/random instructions; errno, output and repetition oracles",
  "Each call runs single-stepped; every instruction about to execute is looked at for system call, clock and random number instructions; stdout and stderr are a file that must stay empty, errno must stay; the call is repeated after others with the same result. The same calls run in other environments, directories and stack limits. Distinct by case, per build.",
  "Held on every executed call; stepping is x86-64 only, elsewhere output, errno and repetition.", ref=False),
"C18": T("runtime monitor: forked calls observed from outside through shared memory",
  "Limits 0.. in a sweep, then boundary and random 32-bit values, in a child process whose payloads are shared with the monitor: invalid ones must end in SIGABRT with the payloads unchanged, valid ones must return. Distinct by (limit, direction), per build.",
  "All limits of the sweep and the drawn ones, in builds with assertions.", ref=False),
"C19": T("instruction counting by single-stepping between call and return",
  "A call is single-stepped and its instructions counted: all kinds of batches, limits, lengths and contents against a linear model calibrated on the build itself, with generous slack (30 percent) and an absolute ceiling. Distinct by (measure, limit/length/kind).",
  "Held on the measured calls, x86-64 builds; the bounds are loose so that ordinary optimisation differences do not matter.", ref=False),
"C20": T("end-to-end monitor: configure, make, install, then client programs observed",
  "For each set of configure options: bootstrap, configure, make and make install into a scratch prefix, exported symbols against the header, then C and C++ programs of several standards built against the installed files only, statically and dynamically, run and compared with a known answer; the README example too. evaluations are steps and program runs; distinct ones those completed.",
  "Held for the listed option sets with the compilers present."),
"C21": T("MemorySanitizer on the output bytes; differential runs over rubbish in stack, registers, heap and unused slots",
  "shadow: outputs of calls with uninitialised surroundings must be fully initialised according to MemorySanitizer (full batches of uniform block count, since it over-approximates lane swaps); stale: the same call after five different fillings of stack, registers, heap and context and after different earlier calls must give the same bytes; digests under three stack fillings and in builds that initialise automatic variables. Distinct by case, per build.",
  "Held on the executed calls."),
"C22": T("runtime monitor: single bit and byte changes of control words, against the reference and across the APIs",
  "A case takes a control word, changes each of its 64 bits in turn and compares both APIs' ciphertexts with the original's and the reference's; distinct by control word, per build.",
  "All 64 bit changes of every drawn control word were executed."),
"C23": T("runtime monitor: calls made on a painted stack bounded by an unmapped page",
  "Each call runs on a stack of its own, painted before and inspected after: the deepest word that changed gives the stack used. Kinds of call, payload lengths up to 1 MiB (3 MiB in the thorough tier), packet counts, limits, contents and control words are drawn; results are compared with the reference. Distinct by (case, control word, length), per build.",
  "Held on every executed call; only memory that was written counts as used, an array never touched at its far end does not show."),
"C24": T("runtime monitor: model of context -> control word over histories whose steps run in different threads, stacks and processes",
  "A case is a history of 40 steps over three contexts of each kind; every step (key setup, single call, batch, release and renewal) is carried out in a drawn place: the main thread, one of three standing threads, a thread that ends at once, a coroutine's stack, or a forked child whose changes must not come back. Every result is compared with the reference under the model's key. A process also forks while up to 40 calls are held midway in other threads, and the child calls the library. Distinct by history, per build.",
  "Held on every executed history; steps follow one another (simultaneous use is C10)."),
"C25": T("runtime monitor: programs compiled once against the header as it was, run with every build of the shared library",
  "The monitors are compiled once per processor against a copy of the public header taken at the pinned commit and linked dynamically; the same executable then runs its single, batch, history, key, placement and terminator workloads with each build's libdvbcsa.so. A second program loads up to 25 builds at run time, several at once, calls them with rubbish in the unused upper halves of argument registers, unloads and reloads them. Distinct as in the workloads, per build.",
  "Held on the executed calls; calling convention details are exercised as gcc compiles them, on four processors."),
"C26": T("instruction counting by single-stepping between call and return",
  "The instructions of a full batch of 64..184 byte packets (equal, with residues, with short ones, with longer ones) are counted and compared with those of one single packet call of the same length times the batch size; distinct by (limit, kind, direction), per build.",
  "A ratio of at least two was seen in every measurement (the real one is above five), x86-64 optimised builds.", ref=False),
"C27": T("runtime monitor: siglongjmp out of a stepped or timed handler, then reference oracle on what follows",
  "A call of any kind is left for good at a drawn instruction (single-stepping) or time (timer) by siglongjmp out of a signal handler; bytes outside what it may write must be unchanged, or its thread ends there; and one to three calls after it, the first with the same context, must give the reference result without hanging. Distinct by (kind, direction, point), per build.",
  "Held on every abandoned call; a context whose key setup was left is set again before it is used."),
"C28": T("runtime monitor: snapshots of process state around loading, use and unloading of each shared library",
  "A program takes some 140 values of its process (signal dispositions and mask, floating point control, limits, timers, locale, environment, files, threads, memory protection, process status, the C library's random numbers, tokenising, option parsing and stream buffering) before and after it loads up to 25 builds of the shared library, allocates, sets keys, processes, frees and unloads, in one or many threads; every value must be the same. Distinct by (case, build).",
  "Held for the values listed, on the executed sequences; changes made and taken back inside one call do not show here (C17 and C11 see system calls)."),
"C29": T("runtime monitor: emulated processors that trap (or misinterpret, as real ones do) what they do not have; reference oracle",
  "Each build runs single packets, key sweeps, batches, round trips, allocation and placement cases on the oldest processor model it is for (x86-64 with SSE2 alone, with SSSE3, with AVX2 but none of its companions; Cortex-A35 and A53; POWER7; 603e and e300), the principal ones also on models in between (SSE4a, SSSE3, SSE4.2, AVX, Haswell) and on qemu's newest; an illegal instruction or a wrong result is a violation. Distinct by case, per build.",
  "Held on the executed calls under qemu's models; what those models do not tell apart (old PowerPC 64 below POWER7, x86 before SSE2) is not claimed, and results of AVX2 builds are not judged under emulation (qemu 8.2 miscomputes some AVX2 code), only traps."),
}

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["public API of the machines: registers, pc, cycles, memory, returned error"]
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))

p("C01", "Every instruction computes its architectural result on every engine",
  "Executing any one supported instruction (RV32/RV64 I, M, C, the A and B extensions, and the machine's fused macro-operations) from any register and memory state leaves exactly the registers, program counter and memory that the RISC-V specification prescribes, on every execution engine. This includes register zero staying zero, sign extension of 32-bit results, shift-amount masking, division by zero and signed overflow, and jump targets computed before the link register is written. The few documented differences between machine versions apply exactly where the version selects them.",
  ["inputs", "programs", "configurations"],
  "for all instructions x all operand register choices that alias differently (rd=rs1, rd=rs2, x0, ...) x all operand values in the boundary alphabet x all engines x versions 0-2 x instruction-set configurations",
  "the upstream tests run fixed riscv-tests programs with a few dozen values per instruction and compare engines only on those; aliasing patterns and value corner cases per engine are not enumerated",
  ["src/instructions/execute.rs", "src/instructions/common.rs", "src/instructions/register.rs", "src/instructions/utils.rs", "src/bits.rs", "src/machine/asm/execute_x64.S", "src/machine/asm/cdefinitions_generated.h"],
  [("interpreter handlers", "src/instructions/execute.rs"), ("register arithmetic", "src/instructions/register.rs"), ("assembly handlers", "src/machine/asm/execute_x64.S"), ("slow path of the assembly engine", "src/machine/asm/mod.rs")])

p("C02", "Every instruction word decodes to its specified meaning or is rejected",
  "For every 32-bit word (and every 16-bit compressed word) and every instruction-set and version configuration, decoding yields the one operation, registers, immediate and length that the RISC-V encoding tables give it, or reports an invalid instruction when the word is reserved, unsupported, or belongs to an extension that is not enabled. Decoding depends only on the bytes at that address, the configuration and - for fused macro-operations - the instructions that follow. Reading an instruction never reaches outside executable memory.",
  ["inputs", "configurations"],
  "for all 2^32 words x register widths x machine versions x extension sets, and the same word at every page position",
  "tests decode a handful of hand-written words; only exhaustive enumeration can show that no reserved encoding is accepted and no field is misplaced",
  ["src/decoder.rs", "src/instructions/i.rs", "src/instructions/m.rs", "src/instructions/a.rs", "src/instructions/b.rs", "src/instructions/rvc.rs", "src/instructions/utils.rs", "src/instructions/mod.rs"],
  [("factory per extension", "src/instructions/{i,m,a,b,rvc}.rs"), ("decode_bits / decode_raw", "src/decoder.rs"), ("packed instruction layouts", "src/instructions/mod.rs")])

p("C03", "All execution engines agree on every program",
  "Running the same program from the same initial state under the same configuration on any of the engines - the plain interpreter over each memory backend, the trace-caching interpreter, the assembly engine, and the single-stepping assembly engine - ends the same way: same exit code or kind of error, same registers, same memory contents and flags and, for programs that finish, same program counter and cycles. The agreement covers control flow in and out of cached code, loops, self-modifying sequences that are refused, faults in the middle of straight-line code, system calls and cycle exhaustion.",
  ["programs", "configurations"],
  "for all instruction sequences up to the bound over an alphabet with at least one instruction of every kind (arithmetic, memory, branch, jump, compressed, atomic, fused, illegal, ecall, ebreak), at every alignment relative to page and trace boundaries, with several cycle limits",
  "tests compare engines on fixed ELF programs; short adversarial programs (faults in mid-trace, colliding trace slots, jumps into the middle of traces) are not enumerated",
  ["src/machine/mod.rs", "src/machine/trace.rs", "src/machine/asm/mod.rs", "src/machine/asm/traces.rs", "src/machine/asm/execute_x64.S", "src/instructions/execute.rs"],
  [("interpreter loop", "src/machine/mod.rs"), ("trace cache", "src/machine/trace.rs"), ("fixed traces and threaded code", "src/machine/asm/")])

p("C04", "Host memory operations follow one page model on every memory backend",
  "Every history of host memory operations (initialising pages, storing bytes, filling, loading and storing words of each width, fetching, setting, clearing and reading page flags, load-reservation bookkeeping) returns on every memory backend the results of a flat byte array with per-page flags: bytes read are the bytes last written, pages never written read as zero, out-of-range and misaligned requests fail, and a failing request changes nothing but at most the part of its own range it had already completed. Where W^X is enforced, executable pages cannot be written, non-executable ones not fetched and frozen pages not re-initialised; written pages are marked dirty. Backends agree with each other.",
  ["histories", "inputs", "configurations"],
  "for all operation sequences up to the depth bound over page-, frame- and memory-end-straddling addresses and sizes, on flat, sparse, W^X-wrapped and assembly memory, 32- and 64-bit",
  "unit tests store and load a few values; overlapping histories around page/frame boundaries and lazily initialised frames are not sampled",
  ["src/memory/mod.rs", "src/memory/flat.rs", "src/memory/sparse.rs", "src/memory/wxorx.rs", "src/machine/asm/mod.rs"],
  [("page flags", "src/memory/mod.rs"), ("W^X wrapper", "src/memory/wxorx.rs"), ("lazy frames", "src/machine/asm/mod.rs")],
  state=[("page flags", "per-page FREEZED/EXECUTABLE/DIRTY bits", "src/memory/*.rs"), ("frames", "256KB lazily zeroed frames", "src/machine/asm/mod.rs")])

p("C05", "Guest accesses and fetches are confined by bounds and W^X",
  "A guest store succeeds only if every byte it touches lies inside memory on pages that are not executable, a guest fetch only from executable pages, and a guest load only inside memory; otherwise the run ends with an out-of-bound or permission error and no byte of memory is changed. The same holds for the bulk reads and writes a system call makes on the program's behalf. A page is never writable and executable at the same time, whatever accesses came before and however often a failed machine is run again. Successful stores mark exactly the touched pages dirty.",
  ["histories", "programs", "inputs"],
  "for all sequences of up to three guest accesses (every width, atomics included) at addresses around every page, frame, permission and memory boundary, and all fetches at those boundaries, on every engine, re-running after errors",
  "existing tests hit single representative addresses; the engines cache the last checked page or frame, so correctness depends on the history of previous accesses",
  ["src/memory/wxorx.rs", "src/memory/mod.rs", "src/machine/asm/mod.rs", "src/machine/asm/execute_x64.S", "src/decoder.rs"],
  [("permission check", "src/memory/mod.rs"), ("CHECK_WRITE/CHECK_READ with last page/frame caches", "src/machine/asm/execute_x64.S")])

p("C06", "Cycles are charged exactly and the limit stops execution at the right point",
  "A program that finishes has consumed exactly the sum of the cost of each executed instruction under the installed cost model plus what system calls added. For every cycle limit, execution succeeds if and only if that total does not exceed the limit, and otherwise it ends with a cycles-exceeded error before any instruction or block that was not paid for takes effect; raising the limit and running again then continues the program as if the limit had always been high enough, and with several runs the accounting carries over. Adding cycles never wraps around.",
  ["programs", "inputs", "configurations"],
  "for all short programs in the alphabet x every limit from zero to total+1 x cost functions (including ones returning 0 and huge values) x engines, plus every operation's entry in the estimated cost table",
  "tests check a few total counts; off-by-one at the limit, per-engine accounting at block ends and overflow near the maximum are not enumerated",
  ["src/machine/mod.rs", "src/machine/asm/mod.rs", "src/machine/asm/execute_x64.S", "src/machine/trace.rs", "src/cost_model.rs"],
  [("add_cycles / add_cycles_no_checking", "src/machine/mod.rs"), ("per-trace charging", "src/machine/asm/execute_x64.S, src/machine/trace.rs"), ("estimate_cycles", "src/cost_model.rs")])

p("C07", "Pausing at any moment and resuming changes nothing",
  "A pause requested at any moment makes the run return with a pause indication at an instruction boundary, after finitely many further instructions, and running again continues so that the final exit code, registers, memory, and cycles are those of the uninterrupted run, for any number of pauses. A request (on the signal the machine was last given) is never lost and never honoured twice, and it also works when issued from inside a system call or while the machine is not running. Machines that do not share the pause handle are not affected.",
  ["schedules", "programs"],
  "for all programs in the alphabet x every position of one or two pause requests (every instruction decode or block boundary, system call, and before running) x engines",
  "one test pauses one program from another thread at arbitrary times; the interleaving of request and execution is not controlled",
  ["src/machine/mod.rs", "src/machine/trace.rs", "src/machine/asm/mod.rs", "src/machine/asm/execute_x64.S"],
  [("Pause flag", "src/machine/mod.rs"), ("check at trace entry", "src/machine/asm/execute_x64.S")])

p("C08", "A version-1 snapshot taken anywhere restores the same execution",
  "Making a snapshot at any instruction boundary of a run and resuming it on a fresh machine of any engine with the same configuration yields the same registers, program counter, memory contents, page flags and reservation, and the resumed run finishes with the same exit code and the same final state as the uninterrupted run; the same holds when the snapshot is stored through its serialised form in between. Making a snapshot does not disturb the machine it is taken from. A snapshot for a different version is refused.",
  ["crash_points", "programs", "configurations"],
  "for all programs in the alphabet x every instruction boundary as snapshot point x engine pairs x versions x register widths",
  "tests snapshot fixed programs at one cycle limit",
  ["src/snapshot.rs", "src/machine/mod.rs", "src/memory/mod.rs"],
  [("make_snapshot/resume", "src/snapshot.rs"), ("DIRTY flag tracking", "src/memory/*.rs, src/machine/asm/execute_x64.S")])

p("C09", "A version-2 snapshot taken anywhere restores the same execution",
  "For every history of guest and host writes, including data mapped from external sources with any offset, length and zero padding, overlapping each other or later overwritten by guest or host, a version-2 snapshot resumed on a fresh machine reproduces registers, program counter, cycles, limit, memory contents and reservation, and the run then finishes as the uninterrupted one does, also when the snapshot is stored through its serialised form in between. Pages unchanged since they were mapped from a data source are restored from that source, everything else from the snapshot itself. A snapshot that does not fit (wrong version, unknown data, out-of-range or misaligned pages) is refused with an error.",
  ["crash_points", "histories", "programs"],
  "for all sequences up to the depth bound of external-store / host-write / guest-write / snapshot / resume operations over overlapping page ranges, plus every instruction boundary of programs, across engine pairs",
  "tests take a snapshot of two fixed programs; the overlap of tracked source ranges with writes is a history property",
  ["src/snapshot2.rs", "src/elf.rs", "src/memory/mod.rs"],
  [("page tracking", "src/snapshot2.rs"), ("DIRTY flags", "src/memory/*.rs")])

p("C10", "Loading an ELF places exactly its segments, with exactly their permissions",
  "Loading a program maps exactly the loadable segments of the file at their addresses: file bytes copied, the rest of each segment zero, executable segments executable and not writable, writable ones not executable, read-only and executable pages frozen (protected from being initialised again; in version 0 writable ones too), entry point and program-header-derived metadata taken from the right fields. A file that is malformed, truncated, overlapping a frozen page, out of memory range, or of the wrong class is rejected with an error, never a panic. Loading reports the total file size of the loaded segments and charges no cycles by itself.",
  ["inputs", "configurations"],
  "for all ELF images in a grid over class, header fields, number of segments, offsets, addresses, sizes, flags, alignment around page and file boundaries, and every truncation and single-field corruption of a valid image, on every engine and version",
  "tests load prebuilt compiler output; malformed headers and unaligned or adjacent segments are hardly covered",
  ["src/elf.rs", "src/machine/mod.rs", "src/memory/mod.rs"],
  [("parse_elf / LoadingAction", "src/elf.rs"), ("load_binary / load_elf", "src/machine/mod.rs")])

p("C11", "The initial stack holds the arguments exactly as the ABI lays them out",
  "After loading a program with any list of arguments, the stack pointer, argument count, argument pointers and NUL-terminated argument strings are laid out as documented for the machine version, lie entirely inside the stack area, do not overlap one another, and every argument read back through the pointers equals the argument given. When the arguments do not fit in the stack the load fails with an error. A load that succeeds changes no memory outside the stack area. The stack pointer is aligned as the version requires.",
  ["inputs", "configurations"],
  "for all argument lists up to the bound on count and lengths (0..40 bytes), all stack sizes around the required size, versions 0-2, register widths, and engines",
  "tests pass one or two fixed argument lists and never vary the stack size",
  ["src/machine/mod.rs"],
  [("initialize_stack", "src/machine/mod.rs")])

p("C12", "Macro-operation fusion never changes what a program computes",
  "With macro-operation fusion enabled (machine version 2), every instruction sequence leaves the same registers, memory, program counter, exit code and error as the same sequence executed without fusion, whether or not it matches a fusion pattern, wherever it lies relative to page boundaries, and when control enters in the middle of a fusible sequence. Fused instructions differ only in the cycles charged. On earlier versions the known exceptions are confined to the documented patterns.",
  ["programs", "inputs", "configurations"],
  "for all instruction pairs, triples and longer windows from each fusion pattern with every register assignment over a small register set, near-miss variants of each pattern, every position across a page end, and register values in the alphabet",
  "tests use hand-written fusible sequences with well-chosen registers; near misses with aliased registers are the dangerous inputs",
  ["src/decoder.rs", "src/instructions/execute.rs", "src/machine/asm/execute_x64.S"],
  [("rule_adc/rule_sbb/... pattern rules", "src/decoder.rs"), ("fused handlers", "src/instructions/execute.rs, src/machine/asm/execute_x64.S")])

p("C13", "A machine that is reset or reused behaves like a fresh one",
  "After a reset (from the host or from inside a system call that replaces the program), running a new program gives the result a fresh machine gives: no register, memory byte, page flag, reservation, cached decoded instruction or cached trace of the previous program remains visible, and the cycle limit given applies. Code loaded at an address that held other code before the reset is what executes next.",
  ["histories", "programs"],
  "for all sequences of run / reset / load / exec-from-syscall operations up to the depth bound, over programs that place different code at the same or cache-colliding addresses, on every engine",
  "one exec test replaces a program once; cached state of every kind must be cleared on every path",
  ["src/machine/mod.rs", "src/machine/trace.rs", "src/machine/asm/mod.rs", "src/machine/asm/traces.rs", "src/decoder.rs"],
  [("reset / reset_signal", "src/machine/mod.rs"), ("reset_instructions_cache", "src/decoder.rs, src/machine/asm/traces.rs")])

p("C14", "Load-reserved, store-conditional and atomics are sequentially correct",
  "In every sequence of load-reserved, store-conditional, atomic read-modify-write and ordinary accesses, a store-conditional succeeds exactly when the reservation made by the latest load-reserved on the same address is still held, writes memory only on success, reports success as zero and failure as one, and always consumes the reservation. Atomic operations return the old value and store the specified combination, sign-extended, at both widths. Reservation and result are identical on all engines and survive snapshots.",
  ["histories", "programs", "inputs"],
  "for all sequences up to the depth bound of LR/SC/AMO/plain accesses of both widths over two overlapping addresses and boundary addresses, on all engines",
  "tests run fixed riscv-tests programs with a single lock-like loop",
  ["src/instructions/execute.rs", "src/machine/asm/mod.rs", "src/memory/mod.rs"],
  [("reservation address", "src/memory/mod.rs load_reservation_address"), ("AMO handlers", "src/instructions/execute.rs")])

p("C15", "Execution is deterministic: it depends on nothing but its inputs",
  "Two runs of the same program with the same inputs under the same configuration produce the same result whatever the host heap contains, whatever machines were created, run or dropped before in the same process or run concurrently in other threads, and in whatever order memory is first touched. Memory that neither the loader nor the program wrote reads as zero; in the testing mode that fills it with a pattern instead, it depends only on the seed and the order of first touches, and everything written reads back as without that mode.",
  ["histories", "programs", "schedules"],
  "for all programs in the alphabet x heap contents before creation (zeroed, poisoned with several patterns, recycled from other machines) x order of first touches over every page of a frame, on every engine",
  "tests run each program once in a fresh process whose heap is mostly zero",
  ["src/memory/flat.rs", "src/memory/sparse.rs", "src/machine/asm/mod.rs", "definitions/src/asm.rs"],
  [("zero-filling / lazy frame initialisation", "src/machine/asm/mod.rs, src/memory/*.rs")])

p("C16", "System calls, breakpoints and exit are dispatched exactly as installed",
  "An environment call with the exit number stops the machine with the given exit code (as a signed byte); any other is offered to the installed handlers in order until one accepts it, sees and may change registers and memory, and the effects of the handler are visible to the next instruction; if none accepts it the run fails with an invalid-call error. A breakpoint reaches the installed debugger once, and an error from a handler stops the run and is reported unchanged. Every handler is initialised once before the program runs.",
  ["programs", "histories", "configurations"],
  "for all sequences of calls x handler lists (accept, reject, fail, modify registers/pc/memory/cycles, pause, exit) up to the bounds, on every engine, at every position relative to block boundaries",
  "tests install one or two handlers",
  ["src/machine/mod.rs", "src/machine/asm/mod.rs", "src/machine/trace.rs", "src/syscalls/mod.rs", "src/debugger.rs"],
  [("ecall/ebreak dispatch", "src/machine/mod.rs"), ("RET_ECALL/RET_EBREAK", "src/machine/asm/mod.rs")])

p("C17", "No guest program or binary can crash or corrupt the host",
  "Whatever bytes are given as program, code, registers or arguments, loading and running them with a cycle limit always returns - with an exit code or an error - without a panic, a host memory fault, a write outside the machine's own memory, or unbounded work. This includes odd and wrapped-around program counters, register values at the ends of the address space, and code at the very end of memory.",
  ["inputs", "programs"],
  "for all short byte sequences from the instruction-parcel alphabet at all boundary positions and entry offsets, all 16-bit parcels, all boundary register values, every engine, built with overflow checks, with guard regions around the machine memory",
  "fuzzing (upstream has fuzz targets) samples; unit tests only run valid programs",
  ["src/machine/mod.rs", "src/machine/asm/mod.rs", "src/machine/asm/execute_x64.S", "src/memory/*.rs", "src/elf.rs", "src/decoder.rs"],
  [("checked arithmetic and bounds checks", "src/machine, src/memory"), ("CHECK_* macros", "src/machine/asm/execute_x64.S")])

p("C18", "The packed and tagged instruction forms and register abstractions are faithful",
  "Packing an instruction's operation, registers, immediate and length into the internal instruction word and unpacking it again, in every format and through the tagged view, returns the same fields for all field values; the textual rendering names the same operation and operands, and the dump of a machine names every register with its value. The generic register arithmetic gives the same result for every register representation as plain machine arithmetic of that width, for all operand values tried.",
  ["inputs"],
  "for all opcodes x register triples x immediates in range (full range for the format or its boundary alphabet) x lengths; for all register operations x all pairs over the value alphabet and all 8-bit-pattern products",
  "unit tests check a few constructed instructions; some consumers (debuggers, code generators) only see the tagged view",
  ["src/instructions/mod.rs", "src/instructions/tagged.rs", "src/instructions/ast.rs", "src/instructions/register.rs", "src/bits.rs", "definitions/src/instructions.rs"],
  [("Rtype/Itype/Stype/Utype/R4type/R5type packing", "src/instructions/mod.rs"), ("TaggedInstruction", "src/instructions/tagged.rs"), ("AST values", "src/instructions/ast.rs")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")

HOOKS = None
NOT_APPLICABLE = []

p("D01", "Every 32-bit word decodes exactly as RV32IM prescribes, or is refused",
  "For every program counter and every 32-bit word, decoding either yields the RV32IM operation with exactly the operand registers and the (sign-extended, or for jumps, branches and AUIPC absolute) immediate that the encoding prescribes, or refuses the word and reports that word and program counter. Immediate left and logical right shifts appear as multiplication and unsigned division by the power of two; FENCE, EBREAK, MRET, CSRRS and the CSRRW/CSRRWI writes to writable CSRs (below 0xC00) decode to a no-op; everything outside RV32IM and these is refused, including the `unimp` word on which an aborting guest stops. Decoding never fails in any other way and depends on nothing but its two arguments.",
  "inputs", "all 2^32 instruction words, at word-aligned, unaligned, zero and wrap-around program counters",
  "The tests decode a handful of words per mnemonic; the space is 2^32 words times all program counters, and a wrong bit in one immediate field or one funct7 guard changes only the words that use it.",
  "runner/src/decode.rs runner/src/instruction.rs",
  ["decode_instruction @ runner/src/decode.rs", "extract_immediate @ runner/src/decode.rs", "Op/Args encoding @ runner/src/instruction.rs"],
  "TLA+ encoding map enumerated by TLC, applied to all 2^32 words; sampled decodes re-derived by TLC",
  "TLC checks the encoding map itself (totality, single encodings, reachability) and emits it as a table; the real decoder is compared with it on every 32-bit word, and recorded decodes are re-derived by TLC from the specification.")

p("V01", "Arithmetic and comparison instructions compute the RV32IM result",
  "Executing any arithmetic, logical, shift, comparison, multiplication or division instruction writes to the destination register the 32-bit result RV32IM defines for the two source operands (including shift-amount masking, signedness, high products, division by zero and signed overflow), where the second operand is register plus immediate. Nothing but the destination register, the program counter (advanced by four) and the clock changes, and register zero always reads zero.",
  "inputs programs", "all operand values, operations, destination registers and instruction sequences",
  "The repository's property tests of the executor sample values per instruction in isolation, and cannot even be built offline; corner pairs, aliasing of registers and accumulated state across a program are combinations no list of cases settles.",
  "runner/src/vm.rs runner/src/state.rs",
  ["execute_instruction @ runner/src/vm.rs", "register_op @ runner/src/state.rs", "set_register_value @ runner/src/state.rs"],
  "TLA+ machine model (VM.tla) + TLC trace validation of recorded executions",
  "Exhaustive over the corner-operand grid for all 18 operations; every recorded step of random programs must be a step of VM.tla. Bounded by the generated operands and program lengths.")

p("V02", "Branches and jumps transfer control exactly as RV32IM prescribes",
  "A branch goes to its target exactly when its signed, unsigned or equality condition holds and otherwise to the next instruction; a jump goes to base plus offset with bit zero cleared and writes the address of the following instruction to its destination register, also when source and destination coincide. Execution that reaches an address with no instruction, a misaligned address or an undecodable word stops with an error instead of continuing.",
  "programs inputs", "all programs, code placements (including the ends of the address space) and operand values",
  "Tests execute single branches at fixed addresses; wrap-around of the program counter, link-register aliasing, backward loops and falling off the text need multi-step programs.",
  "runner/src/vm.rs runner/src/state.rs runner/src/code.rs runner/src/decode.rs",
  ["jalr, branch_op @ runner/src/vm.rs, runner/src/state.rs", "current_instruction @ runner/src/state.rs"],
  "TLA+ machine model (VM.tla) + TLC trace validation of recorded executions",
  "Every step of recorded random machine code (decoded by the specification itself) must be a step of VM.tla; the end of each run must be one VM.tla allows. Bounded by the generated programs.")

p("M01", "Memory is a byte map: loads return what was last stored, little-endian",
  "A load returns, for each byte address it covers, the byte most recently written there (or its initial image, or zero if it never had a value), assembled little-endian and sign- or zero-extended as the instruction says; a store changes exactly the one, two or four bytes it covers. Addresses are base plus offset modulo 2^32, with no alignment requirement and wrap-around at the end of the address space.",
  "histories inputs", "all sequences of overlapping, unaligned and wrapping loads and stores over all initial images",
  "Tests store and load one value at one address; the guarantee is about every history of overlapping accesses of mixed width.",
  "runner/src/state.rs runner/src/vm.rs",
  ["memory_load, load_u8, store_u8 @ runner/src/state.rs", "store, lb/lh/lw/lbu/lhu @ runner/src/vm.rs"],
  "TLA+ machine model (VM.tla) + TLC trace validation of recorded executions",
  "Recorded histories of 25+ overlapping accesses per program are replayed through VM.tla's byte map. Bounded by the generated histories.")

p("M02", "Read-only memory and program text can never be changed by execution",
  "Once a program is loaded, no instruction or environment call changes a byte of its read-only image or the set of read-only addresses, an attempted write to such an address stops the machine, and where an address is in both images the read-only content wins. The instructions that execute are those of the loaded text, whatever is stored over its copy in data memory.",
  "programs histories", "all programs and write histories, including partial overlaps, self-modifying stores and writes made by environment calls",
  "Tests attempt one store to one read-only byte; multi-byte writes that straddle a boundary, device writes and later execution of overwritten text are histories tests do not form.",
  "runner/src/state.rs runner/src/ecall.rs runner/src/poseidon2.rs runner/src/code.rs runner/src/elf.rs",
  ["StateMemory::new, store_u8 @ runner/src/state.rs", "Harvard separation of ro_code @ runner/src/elf.rs"],
  "TLA+ invariants ReadOnlyFrozen/CodeFrozen model-checked, executions trace-validated by TLC",
  "Invariants exhaustively checked on VM.tla with all 2-instruction (thorough: 3) programs over a catalogue; recorded executions with read-only bytes and self-modifying text must be behaviours of VM.tla.")

p("E01", "Input devices hand out their bytes in order, once, and never more than asked",
  "A read from the private, public, call or event tape stores the next min(requested, remaining) bytes of that tape contiguously from the given address and advances only that tape's cursor by that amount; the event-commitment, cast-list-commitment and program-id devices always hand out a prefix of their 32 bytes. No read affects another device, any register, or memory outside the written range.",
  "histories inputs", "all interleavings of reads of all devices with all requested sizes (including zero and beyond the end) and destination addresses",
  "Tests read each tape once with a fitting size; cursors are state, so the guarantee is about read histories across seven devices.",
  "runner/src/ecall.rs runner/src/state.rs sdk/src/core/ecall.rs",
  ["ecall_read @ runner/src/ecall.rs", "read_bytes @ runner/src/state.rs", "ecall numbers @ sdk/src/core/ecall.rs"],
  "TLA+ machine model with device cursors, model-checked, plus TLC trace validation",
  "TapesOnlyAdvance/OneTapeAtATime checked exhaustively on small programs; recorded read histories must be behaviours of VM.tla. Bounded by generated histories.")

p("E02", "The hash call digests exactly the given bytes and writes exactly 32 bytes",
  "The hashing environment call computes the sponge digest of exactly the requested input bytes as they are in memory before the call (wrapping at the end of the address space) and stores its 32 bytes at the output address, changing nothing else but the program counter and clock, also when input and output overlap. Its result equals the native hash of the same bytes.",
  "inputs histories", "all input ranges, contents, lengths that are multiples of the rate, and overlapping or wrapping placements",
  "Tests hash a few non-overlapping buffers; overlap, wrap-around and multi-block chaining are not sampled.",
  "runner/src/poseidon2.rs runner/src/ecall.rs sdk/src/native/poseidon.rs",
  ["ecall_poseidon2, hash_n_to_m_no_pad @ runner/src/poseidon2.rs"],
  "TLA+ machine model with uninterpreted hash + TLC trace validation",
  "The permutation is uninterpreted (stand-in constants); which bytes are absorbed, how the sponge chains and where output goes is decided by VM.tla on recorded executions.")

p("E03", "Environment calls dispatch by number; halt is final; unknown calls do nothing",
  "Every environment call behaves as its number in the first argument register says, an unknown number only advances the program counter, halting leaves the program counter and all memory in place and nothing executes afterwards, and a guest panic always stops the host with the guest's message. The trace-message call has no effect on the machine.",
  "programs inputs", "all call numbers, argument values (including wrapping message ranges) and call sequences",
  "Tests make one call per program; the dispatch is over 2^32 numbers and its effects depend on the history.",
  "runner/src/ecall.rs runner/src/vm.rs sdk/src/core/ecall.rs",
  ["ecall dispatch @ runner/src/ecall.rs", "step @ runner/src/vm.rs", "ecall constants @ sdk/src/core/ecall.rs"],
  "TLA+ machine model (VM.tla) + TLC trace validation of recorded executions",
  "HaltIsFinal and NeverStuck model-checked; recorded call sequences must be behaviours of VM.tla, including how each run ends.")

p("R01", "The execution record is a complete, exact account of the run",
  "Running a program to completion yields one row per executed instruction, in order, with the clock starting at two and advancing by one, each row holding the machine state just before the instruction, the instruction itself, and its operands, result, next program counter, memory addresses touched, device transfer or hash entry exactly as executed; the last state is the halted state. Each row's state is the previous row's state after its instruction, and re-running gives the same record.",
  "programs histories", "all programs that halt, over all tapes and memory images",
  "The prover's witness is built from this record, yet the tests only look at final registers; a row that disagrees with the transition it records is invisible to them.",
  "runner/src/vm.rs runner/src/state.rs runner/src/ecall.rs runner/src/poseidon2.rs",
  ["step, execute_instruction @ runner/src/vm.rs", "Aux @ runner/src/state.rs"],
  "TLA+ machine model incl. auxiliary columns + TLC trace validation of whole execution records",
  "Every row of the record produced by a whole run is compared, all columns, with the VM.tla transition it claims to describe. Bounded by the generated programs.")

p("L01", "An executable file becomes exactly the program its loadable segments describe",
  "Loading a 32-bit little-endian RISC-V executable yields the entry point of its header; a read-only memory made of exactly the bytes of its loadable segments that are readable and not writable; a read-write memory made of exactly the bytes of those readable and writable (executable or not); and, for every aligned word with a byte in an executable loadable segment, the decoding of that word at its address. A segment's bytes are its file contents followed by zeros up to its memory size, also at the very end of the address space; other program headers contribute nothing, and the order of headers does not matter. The machine then starts at the entry point with all registers zero, read-only memory taking precedence and alone protected. A file that is not such an executable (wrong magic, class, byte order, type or machine, misaligned entry, no or more than 256 program headers, contents missing) is not loaded. Images given as words or bytes load to the same bytes and decodings, and overlapping or misaligned words are refused. (For loadable segments that do not overlap and end within the address space.)",
  "inputs", "all executable files and images: number, kind, order, permissions, placement and sizes of segments, and damaged headers",
  "The one test loads one example executable and looks at nothing; which byte comes from where depends on segment kinds, sizes and neighbours a real linker output rarely combines.",
  "runner/src/elf.rs runner/src/code.rs runner/src/state.rs",
  ["internal_load_elf, extract_elf_data, parse_and_validate_elf @ runner/src/elf.rs", "From<&HashMap<u32, u8>> for Code @ runner/src/code.rs", "State::new @ runner/src/state.rs"],
  "TLA+ loader model (Loader.tla) that re-derives every image from the bytes of the file + TLC trace validation of recorded loads",
  "LoaderDesign checks the loader machine on all small two-header files; then TLC parses the raw bytes of thousands of generated executables itself and compares every byte and decoded word of the program the real loader built. Bounded by the generated files; the elf crate is a stand-in.")

p("S01", "The native system tape records every call, event and input, attributed correctly",
  "Running programs natively yields a call tape with one entry per call, in the order the calls were made and including nested calls, each with the true caller (the program in charge at that moment, or the null program outside any), the callee, and the serialized argument and return value of exactly that call; the caller receives what the resolver returned. Events and input bytes are recorded, in order and unaltered, under the program in charge when they were produced, and are refused outside any program. The dumped tape file carries exactly this and reads back unchanged.",
  "histories inputs", "all call trees, payload sizes, event and input interleavings, and manual identity changes",
  "The tests make one flat call; who is in charge depends on the whole history of nested calls, and payload attribution shows only when several programs and calls interleave.",
  "sdk/src/native/calltape.rs sdk/src/native/identity.rs sdk/src/native/inputtape.rs sdk/src/native/eventtape.rs sdk/src/native/systemtape.rs sdk/src/common/system.rs",
  ["CallTape::send @ sdk/src/native/calltape.rs", "IdentityStack @ sdk/src/native/identity.rs", "OrderedEvents::push_temporal @ sdk/src/native/eventtape.rs", "dump_proving_files @ sdk/src/native/systemtape.rs"],
  "TLA+ model of native execution (Sdk.tla), model-checked; real scripts trace-validated by TLC",
  "Call-tree invariants model-checked exhaustively on small scopes; recorded runs of random call scripts against the real global tape, and the file they dump, must be behaviours of Sdk.tla.",
  state=[("SYSTEM_TAPE", "global call, event and input tapes sharing one identity stack")])

p("S02", "Event order hints and event commitment are canonical",
  "For every list of emitted events, the canonical form orders them by address (as the number the event tree uses), then event kind, then value hash, emission order breaking ties; the two kinds of hints are the exact permutations linking emission and canonical order in both directions; and the event commitment is the Merkle root of the canonical hashes at those addresses. The result depends only on the list of events, not on how the list was built.",
  "inputs histories", "all event lists: any addresses (also ones that differ only in high or low bytes), kinds, duplicate events and data",
  "The test orders three events with all-equal address bytes; byte order, ties, repeated addresses and permutations versus their inverses only differ on other lists.",
  "sdk/src/native/eventtape.rs sdk/src/common/types/canonical_event.rs sdk/src/common/types/event.rs sdk/src/common/merkle.rs",
  ["get_canonical_ordering, get_temporal_order_canonical_hints, get_canonical_order_temporal_hints, canonical_hash @ sdk/src/native/eventtape.rs", "CanonicalEvent @ sdk/src/common/types/canonical_event.rs"],
  "TLA+ definition of the canonical order, hints and tree root; recorded results re-derived by TLC",
  "Hints, order and root of recorded random event lists are re-derived by TLC from the specification, hash values looked up in the recorded hash calls. Bounded by the generated lists.")

p("S03", "The Merkle root is the root of the canonical binary tree over the leaf addresses",
  "For every list of leaves sorted by 64-bit address, the computed root is that of the binary tree in which two leaves meet at their longest common address prefix, unpaired nodes rise unchanged, and leaves at the same address are first combined pairwise in order; one leaf is its own root and no leaves give the zero hash. It terminates without failure for every such list.",
  "inputs", "all sorted lists of leaves, including equal addresses, dense and sparse addresses and addresses that differ in the top bit",
  "The test uses four leaves with 9-bit addresses; merge order depends on every pairwise address difference up to 64 bits.",
  "sdk/src/common/merkle.rs",
  ["merkleize, merkleize_step @ sdk/src/common/merkle.rs"],
  "TLA+ tree definition, step-wise algorithm model-checked against it, recorded roots re-derived by TLC",
  "The iterative algorithm is model-checked against the tree on all small leaf sets; the real code's roots on recorded leaf lists over all 64 address bits are re-derived by TLC.")

p("S04", "A guest reads exactly its declared input, in order and once",
  "Inside the machine, reading an input tape (public or private) into a buffer yields the next min(buffer length, bytes not yet read) bytes of that tape's declared content, in order, returns that number, leaves the rest of the buffer as it was, and advances only that tape; the length it reports is the declared length, and reads never hand out bytes twice, skip bytes, or run past the declared content. Reading past the end is not an error.",
  "inputs histories", "all input contents, declared lengths, buffer sizes and interleavings of reads and length queries on both tapes",
  "No test runs guest code at all: the reading side compiles only for the virtual machine, and how much is left depends on the whole history of reads.",
  "sdk/src/mozakvm/inputtape.rs sdk/src/common/system.rs sdk/src/core/ecall.rs runner/src/ecall.rs",
  ["RawTape::read @ sdk/src/mozakvm/inputtape.rs", "Read for PublicInputTape, PrivateInputTape @ sdk/src/mozakvm/inputtape.rs"],
  "TLA+ guest model (Guest.tla), model-checked; guest runs in the real machine trace-validated by TLC",
  "A guest compiled from the SDK runs random scripts in the real virtual machine; every operation's result must be the transition of Guest.tla. Bounded by the generated scripts and inputs.")

p("G01", "A guest's calls are checked against the call tape, entry by entry",
  "A guest's call succeeds only when the next entry of the call tape is exactly that call, by this program, to that callee, with that argument, and then returns that entry's return value. Asking for an incoming call passes over the entries that do not involve this program and yields the next entry addressed to it, with its caller, argument and return, or nothing when there is none; it aborts rather than pass over a call this program is recorded as making, and rather than accept a caller that is neither the null program nor in the cast list. When a check fails the guest never halts normally.",
  "inputs histories", "all call tapes (honest, reordered, truncated, forged) and all sequences of calls and receives of a program",
  "This is what stops a prover from inventing calls, and it runs only inside the machine, where no test reaches; a forged tape must be refused at whichever entry it was forged.",
  "sdk/src/mozakvm/calltape.rs sdk/src/common/system.rs",
  ["CallTape::send, CallTape::receive @ sdk/src/mozakvm/calltape.rs", "SYSTEM_TAPE @ sdk/src/common/system.rs"],
  "TLA+ guest model (Guest.tla), model-checked; guest runs in the real machine trace-validated by TLC",
  "Honest and tampered call tapes, made up or produced by native runs, drive a real guest in the real virtual machine; each result, refusal and end must be a transition of Guest.tla. Bounded by the generated tapes and scripts.")

p("G02", "A guest halts only if it emitted exactly the committed events and calls",
  "Each event a guest emits must equal the recorded event that the hint in turn points to, and no recorded event may be used twice. The guest halts normally only if every recorded event was emitted and every call-tape entry was passed, the event commitment it was given is the canonical tree root of the recorded events, and the cast commitment is the root of the sorted distinct callees of the call tape; otherwise it ends without halting. Conversely an honest run always halts normally.",
  "inputs histories", "all event lists, hints, emission sequences and commitments, honest or tampered in any one place",
  "The final checks bind the proof to the commitments; they only run inside the machine, and tampering has to be refused for every event list and position.",
  "sdk/src/mozakvm/eventtape.rs sdk/src/common/system.rs sdk/src/common/merkle.rs sdk/src/common/types/canonical_event.rs sdk/src/mozakvm/calltape.rs",
  ["EventEmit @ sdk/src/mozakvm/eventtape.rs", "ensure_clean_shutdown @ sdk/src/common/system.rs"],
  "TLA+ guest model (Guest.tla), model-checked; guest runs in the real machine trace-validated by TLC",
  "Honest and tampered event tapes, hints and commitments drive a real guest in the real virtual machine; the guest must halt exactly when Guest.tla may. Digests are uninterpreted. Bounded by the generated tapes and scripts.")

p("H01", "Memory a guest is given is aligned, zeroed if asked, and its own",
  "Whatever sequence of allocations, zeroed allocations, resizings and deallocations a guest makes, every block it is given has the alignment asked for, lies wholly inside the 32-bit address space, overlaps neither the program's own image nor any block still in use, is all zero where zeroed memory was asked for, and keeps what was in it when resized; what the guest wrote to a block stays until it writes there again. A request is refused, with a null pointer, only when there may be no room for it. (The stack is not covered: the allocator knows no bound for it.)",
  "inputs histories", "all sequences of allocations, resizings and deallocations of any size and alignment",
  "Every tape a guest reads and every object it builds lies in this memory; a block that overlaps another corrupts it silently, for some sequence of sizes only, and no test runs the allocator.",
  "sdk/src/core/alloc.rs sdk/src/mozakvm/linker_symbols.rs sdk/src/common/system.rs",
  ["alloc_aligned, BumpPointerAlloc @ sdk/src/core/alloc.rs"],
  "TLA+ model of the heap (Heap.tla), model-checked; requests of a guest in the real machine trace-validated by TLC",
  "A scripted guest makes random sequences of requests in the real virtual machine, marks what it is given and reads it back; each answer must be allowed by Heap.tla. Bounded by the generated sessions.")

p("C01", "Each program is handed exactly its part of the system tape",
  "From a recorded system tape and a program identity, the command line hands the virtual machine: the whole call tape; this program's own events, in canonical order, with the place of each in emission order; this program's public and private input, each with its length in front; the commitment of its events; the commitment of the cast of the whole call tape; and its identity. Without a system tape it hands over empty tapes, for which an idle guest halts. A program that reads what was recorded for it then runs to a normal halt.",
  "histories inputs", "all native executions: any number of programs, nested calls, events and inputs, and every program of the tape",
  "The tests never join the recording and the replaying side; mixing up programs, tapes or orders shows only when several programs with different contents share one system tape.",
  "cli/src/runner.rs sdk/src/native/eventtape.rs sdk/src/native/systemtape.rs sdk/src/common/types/system_tape.rs",
  ["raw_tapes_from_system_tape, deserialize_system_tape @ cli/src/runner.rs"],
  "TLA+ model of native execution (Sdk.tla), model-checked; handed tapes re-derived by TLC",
  "Random native executions; what the command line hands each program must be what Sdk.tla says was recorded. Bounded by the generated executions.")

AIRF = "circuits/src/stark/mozak_stark.rs circuits/src/cpu circuits/src/cross_table_lookup.rs circuits/src/public_sub_table.rs "
p("A01", "Every execution that halts has tables the constraint system accepts",
  "For every program whose text and data images are disjoint and every execution of it that halts, the tables the prover generates satisfy every row constraint, every cross-table lookup and every public sub-table, and describe exactly that execution: its instructions in order, operands, results, memory accesses, device reads and published commitments. (Not covered: jumps to an odd address, environment calls outside 0 and 2 to 9, hashing across the end of the address space and partial reads of a commitment, which are recorded findings.)",
  "programs inputs", "all halting programs, initial registers, memory images and tapes",
  "The repository's prover tests prove a handful of programs per instruction; whether the tables of a given execution exist depends on operand corner cases and on how instructions of different tables interleave.",
  AIRF + "circuits/src/generation circuits/src/memory circuits/src/register circuits/src/storage_device circuits/src/poseidon2_sponge circuits/src/ops",
  ["generate_traces @ circuits/src/generation.rs", "MozakStark cross_table_lookups @ circuits/src/stark/mozak_stark.rs", "generate_* @ circuits/src/*/generation.rs"],
  "TLA+ machine model; TLC judges what tables accepted by the real constraints claim, and runs the executions that were refused",
  "Tables generated by the real prover code for random halting executions are evaluated against the real constraints row by row; TLC requires the claimed rows to be a VM.tla behaviour, and that an execution without tables falls under a recorded finding. Bounded by the generated programs.")

p("A02", "No accepted tables claim a wrong result of an arithmetic instruction",
  "Whatever tables a prover supplies, if the constraint system accepts them, every arithmetic, logical, shift, comparison, multiplication and division step they claim writes exactly the RV32IM result of the operands the registers hold.",
  "inputs programs", "all operand values and all assignments of the tables",
  "Tests check that honest tables are accepted; a missing or weakened constraint only shows when somebody supplies dishonest ones.",
  AIRF + "circuits/src/ops circuits/src/rangecheck circuits/src/bitshift circuits/src/xor",
  ["constraints @ circuits/src/cpu/{add,bitwise,div,mul,signed_comparison,sub}.rs", "rangecheck lookups @ circuits/src/cpu/columns.rs, circuits/src/ops", "xor, bitshift @ circuits/src/xor, circuits/src/bitshift"],
  "TLA+ machine model judges (TLC) every claim an adversarial prover gets the real constraints to accept",
  "An adversary forks executions at a wrong step, perturbs cells, repairs rows by local search and rebuilds dependent tables; every accepted claim must be a VM.tla behaviour. Search, not proof: bounded by the attacks tried.")

p("A03", "No accepted tables claim an execution that does not follow the program text",
  "Whatever tables a prover supplies, if the constraint system accepts them, the claimed execution starts at the entry point, executes at each step the instruction the program has at the program counter with that instruction's registers, immediate and flags, continues where that instruction leads, and ends by halting.",
  "programs inputs", "all programs and all assignments of the tables",
  "Tests never supply tables of an execution that deviates from the program; a program counter or instruction field that is not bound is invisible to them.",
  AIRF + "circuits/src/cpu_skeleton circuits/src/program circuits/src/program_multiplicities circuits/src/ops",
  ["pc and clk @ circuits/src/cpu_skeleton/stark.rs", "program lookup @ circuits/src/cpu/columns.rs, circuits/src/program/columns.rs", "branches, jalr, ecall @ circuits/src/cpu"],
  "TLA+ machine model judges (TLC) every claim an adversarial prover gets the real constraints to accept",
  "As A02, on programs with branches, links, indirect jumps and loops; attacks include wrong targets, swapped operations and arguments hidden in packed columns. Bounded by the attacks tried.")

p("A04", "No accepted tables claim memory or register contents that were never written",
  "Whatever tables a prover supplies, if the constraint system accepts them, every claimed register read returns the value last written to that register (or its one initial value), register zero is zero, and every claimed memory access obeys the byte map: loads return the bytes last stored or initialised, with the width and sign extension of the instruction, and stores change only writable bytes.",
  "histories inputs", "all histories of register and memory accesses and all assignments of the tables",
  "Memory consistency is an argument over sorted tables and clock differences; honest tables never exercise a second initialisation, a reordered access or an unbound width.",
  AIRF + "circuits/src/memory circuits/src/memory_halfword circuits/src/memory_fullword circuits/src/memory_zeroinit circuits/src/memoryinit circuits/src/register",
  ["memory order @ circuits/src/memory/stark.rs", "register file @ circuits/src/register", "half and full words @ circuits/src/memory_halfword, circuits/src/memory_fullword"],
  "TLA+ machine model judges (TLC) every claim an adversarial prover gets the real constraints to accept",
  "As A02, on overlapping accesses of every width; attacks include reordered accesses, second initial values and stale reads. Bounded by the attacks tried.")

p("A05", "No accepted tables claim a device read, digest or commitment that did not happen",
  "Whatever tables a prover supplies, if the constraint system accepts them, every claimed device read stores the bytes of that device at the address the program gave and nothing else, every claimed hash writes the digest of exactly the bytes the program named to the address it named, and what the program reads as a commitment is what the proof publishes. (Recorded findings: the length of a read, the order of published bytes and the program's own identifier are not bound.)",
  "histories inputs", "all sequences of environment calls and all assignments of the tables",
  "The hash and device tables are tied to the rest only by lookups; honest tables satisfy them whether or not they bind anything.",
  AIRF + "circuits/src/poseidon2 circuits/src/poseidon2_sponge circuits/src/poseidon2_output_bytes circuits/src/storage_device circuits/src/tape_commitments",
  ["sponge @ circuits/src/poseidon2_sponge/stark.rs", "permutation @ circuits/src/poseidon2/stark.rs", "devices @ circuits/src/storage_device/stark.rs", "commitments @ circuits/src/tape_commitments"],
  "TLA+ machine model judges (TLC) every claim an adversarial prover gets the real constraints to accept",
  "As A02, on programs that hash and read every tape; attacks include forged permutations, digests written elsewhere or dropped, stray rows and altered device bytes. Bounded by the attacks tried.")

NODE = "node/src/block_proposer.rs "
p("A06", "A proof verifies exactly if its tables hold together and it is unaltered",
  "The native verifiers, of single-table and of batched proofs, and the circuits that verify them inside another proof agree: they accept what the provers make of an execution, and it names the program, the events and the cast of that execution; they reject it once any commitment, opening, public value, challenge-dependent part or its shape is changed or taken from another proof; and they reject whatever a prover makes of tables that break a constraint, a lookup or a public sub-table, of a missing quotient, or fitted to challenges seen early: every challenge depends on everything said before it.",
  "inputs", "all executions, all alterations and splices of proofs, all tables, all provers that speak in any order",
  "The tests prove and verify a few honest executions; a verifier that skips one check, or draws a challenge too early, passes all of them.",
  "circuits/src/stark/verifier.rs circuits/src/stark/batch_verifier.rs circuits/src/stark/recursive_verifier.rs circuits/src/stark/prover.rs circuits/src/stark/batch_prover.rs circuits/src/stark/proof.rs circuits/src/public_sub_table.rs circuits/src/cross_table_lookup.rs",
  ["verify_proof @ circuits/src/stark/verifier.rs", "batch_verify_proof @ circuits/src/stark/batch_verifier.rs", "recursive_mozak_stark_circuit, recursive_batch_stark_circuit @ circuits/src/stark/recursive_verifier.rs", "prove_with_traces @ circuits/src/stark/prover.rs", "batch_prove @ circuits/src/stark/batch_prover.rs", "get_challenges @ circuits/src/stark/proof.rs"],
  "TLA+ protocol of what is said and drawn (MachineProof.tla); TLC judges every verdict and dependence recorded",
  "The protocol is model-checked against a prover that speaks in any order and skips what no check forces; the real provers and verifiers are run on honest, altered, spliced and fitted proofs, and TLC judges every verdict and which challenges depend on which message. FRI and PLONK are replaced by stand-ins that open exactly; bounded by the alterations tried.")

p("I01", "A program's identity stands for its entry point, its code and its memory",
  "Two programs have the same identity exactly if they start at the same address, have the same instructions at the same addresses, and the same first bytes at the same addresses, writable or not; in which order a program was put together does not matter, nor do words that are no instructions.",
  "inputs", "all pairs of loadable programs",
  "The tests compare no two identities; a field, row or image that stops being part of it changes no test.",
  "cli/src/runner.rs cli/src/trace_utils.rs circuits/src/stark/prover.rs circuits/src/program/generation.rs circuits/src/program/columns.rs circuits/src/memoryinit/generation.rs circuits/src/cpu/columns.rs circuits/src/utils.rs",
  ["get_self_prog_id @ cli/src/runner.rs", "get_program_id @ circuits/src/stark/prover.rs", "generate_program_rom_trace @ circuits/src/program/generation.rs", "elf_memory_init @ circuits/src/memoryinit/generation.rs"],
  "TLA+ content of a program (Identity.tla); layout read back in TLC; recorded identities compared pairwise in TLC",
  "The layout of the tables is model-checked to forget nothing; the real identities of chains of small variations are compared pairwise. Bounded by the variations tried; the hash is modelled as collision-free.")

p("N01", "The node's address trees are canonical",
  "Over the whole 64-bit address space, and for places at every height above it, the node's comparison of two places, their nearest common ancestor, a place's ancestors and the path from the root to an address are those of the binary tree of addresses; the tree over a list is the left-full balanced tree, and the tree over addressed items is the address trie with unary levels left out and the items of one address balanced, in order.",
  "inputs", "all pairs of places, all lists and all lists of addressed items",
  "The shape of these trees is what the proofs of all parts have to agree on; the tests fix a few addresses of low height.",
  NODE,
  ["BranchAddress, AddressPath, reduce_tree, reduce_tree_by_address @ node/src/block_proposer.rs"],
  "TLA+ address-tree specification (NodeAddr.tla), model-checked; recorded answers judged by TLC",
  "The laws of places and the merging law of tries are checked exhaustively on small address spaces; answers of the real code for random and corner-case places are judged by TLC. Bounded by the generated places.")

p("N02", "The node state is the map its requests make, and its root proof says so",
  "In every history of reads, deletions, writes and closed blocks, the state holds for every address exactly the object the requests left there; a request that contradicts an earlier one of the same block is refused and every other is granted; and at any time the proof of the root speaks of that state: its old and new root are the full-depth trees of the objects before and after the block's requests, and its summary is the address trie of (address, old, new) over exactly the addresses touched. (Recorded finding: addresses above 2^64-2^32-1 are refused.)",
  "histories", "all histories of requests over any number of blocks, all addresses, objects and tree depths",
  "The tree keeps cached proofs and prunes itself; a cache that is not renewed shows only after particular combinations of deletions and untouched neighbours over several blocks.",
  "node/src/block_proposer/state.rs recproofs/src/circuits/state_update.rs",
  ["State::{apply_operation, finalize, get_state} @ node/src/block_proposer/state.rs"],
  "TLA+ state map and sparse-tree specification (NodeState.tla), model-checked; histories trace-validated by TLC",
  "The sparse tree with cached claims is model-checked against the map on four addresses; random histories of the real tree at depths 0 to 63 are validated step by step, digests being matched structurally. Bounded by the generated histories; the prover is an evaluator of the circuits.")

p("N03", "A transaction completes when its whole cast has submitted, with all events",
  "Submissions arrive in any order and interleaved; one is accepted exactly if it is for a place of the cast that has not submitted yet and its proof is for that program, call tape, cast and events; a transaction completes exactly when every place of its cast has submitted; what is refused leaves everything else undisturbed; and the batch of completed transactions proves the address trie of exactly their events, in the order of completion and, within a transaction, of the cast.",
  "histories schedules", "all casts, events and orders of arrival, any number of open transactions, and invalid submissions at any point",
  "Only some cast lengths, orders of arrival and address coincidences reach each case of the merging of event trees; the tests submit in order with one event.",
  "node/src/block_proposer/transactions.rs recproofs/src/circuits/verify_program.rs recproofs/src/circuits/merge.rs recproofs/src/circuits/verify_tx.rs",
  ["ingest_program, finalize @ node/src/block_proposer/transactions.rs", "merge_events @ node/src/block_proposer/transactions.rs"],
  "TLA+ accumulator specification (NodeTx.tla), model-checked; histories trace-validated by TLC",
  "All small histories are model-checked; random histories of the real accumulator (casts of 1 to 10, up to three open transactions, invalid submissions of seven kinds) are validated step by step, roots being matched structurally. Bounded by the generated histories.")

p("N04", "A block is accepted exactly if its events move the objects as owners allow",
  "In every chain of blocks, a block made of completed transactions, the objects their events are matched with, and a proof of the state's root is accepted exactly if: it has the next height and the root proof starts from the root of the last accepted block; the events matched are those of the transactions, and the objects moved are exactly those the events speak of; and at each address the events move the old object to the new one: data changes only by the one write of its owner, ownership changes only between nobody and a program and is given by the old and taken by the new owner, reads speak of the old data, ensures and writes of the new, credits stay, and the object is stamped with the block's height if written or given (with zero if deleted) and keeps its old stamp otherwise. The committed root is then that of the world with those objects moved and no other; a refused block changes nothing. (Recorded finding: several events at one address may be refused for the order their proofs are merged in.)",
  "histories", "all chains of blocks, transactions and events, and blocks put together wrongly in any of their parts",
  "The tests chain one block with itself; the guarantee is about every combination of events, owners and objects, and about blocks assembled from parts that do not belong together.",
  "node/src/block_proposer/matches.rs node/src/block_proposer/block.rs recproofs/src/circuits/accumulate_delta/core.rs recproofs/src/circuits/match_delta/core.rs recproofs/src/circuits/match_delta.rs recproofs/src/circuits/verify_block.rs recproofs/src/circuits/verify_block/core.rs",
  ["Matches::finalize @ node/src/block_proposer/matches.rs", "Blocks::increment @ node/src/block_proposer/block.rs", "build_leaf @ recproofs/src/circuits/match_delta/core.rs"],
  "TLA+ block chain specification (NodeBlock.tla), model-checked; chains trace-validated by TLC",
  "All blocks of up to three events on two objects are model-checked, two in a row, for the ownership guarantees; random chains of the real accumulators, state tree and block circuit are validated block by block, roots being matched structurally, with wrong events, objects, heights and parts from other blocks. Bounded by the generated chains; the prover evaluates the circuits.")

p("P01", "A proof of matched events speaks only of what the events allow",
  "Whatever a prover supplies, if the node's circuits accept it: a proof of accumulated events lists exactly the events its hash holds, all at its address, at most one of them a write, one giving and one taking ownership, with the owners, data, flags and summed credits those events say; and a proof of matched events ties those events to an old and a new object that they may turn into one another: only the owner changes data or gives the object away, ownership changes only between nobody and a program, reads speak of the old and ensures and writes of the new data, credits change by the events' sum, and the stamp is the block's height if anything changed, zero if deleted, else the old one; and nothing of it rests on a proof by another circuit. A prover who has such events and objects gets them proved. (Recorded findings: who emits a credit event is not checked, and credits wrap around the field.)",
  "inputs", "all witnesses, honest or not, all trees of events of any shape and size, all objects, all verified proofs including those of circuits the prover made",
  "A missing constraint shows only under a witness no honest prover makes; the tests try a handful of wrong values per circuit, and no circuit of a prover's own.",
  "recproofs/src/circuits/accumulate_delta.rs recproofs/src/circuits/accumulate_delta/core.rs recproofs/src/circuits/match_delta.rs recproofs/src/circuits/match_delta/core.rs recproofs/src/subcircuits/unbounded.rs recproofs/src/subcircuits/unpruned.rs recproofs/src/subcircuits/propagate.rs recproofs/src/lib.rs",
  ["build_leaf, build_branch @ recproofs/src/circuits/accumulate_delta/core.rs", "build_leaf @ recproofs/src/circuits/match_delta/core.rs", "LeafCircuit, BranchCircuit @ recproofs/src/circuits/match_delta.rs"],
  "TLA+ meaning of claims (Proofs.tla), inductive in TLC; TLC judges every claim a dishonest prover gets accepted",
  "The circuits' local rules are model-checked to be equivalent to the meaning, inductively (all pairs of claims about up to two and one events, all matches of up to two). The real circuits are evaluated under honest and altered witnesses and proofs, and TLC judges every accepted claim. Bounded by the alterations tried; the proof system itself is replaced by evaluation.")

p("P02", "A proof of a transaction speaks of whole casts and exactly their events",
  "Whatever a prover supplies, if the node's circuits accept it: a proof of events pairs the node's and the virtual machine's hash of the same events, all of one owner; a merge's result holds exactly the digests of both sides; a proof of programs lists, in the order of the cast, programs whose own proofs name that call tape and cast, with exactly the events those proofs commit to; a transaction's programs are its whole cast; and a proof of transactions holds exactly their events; and nothing of it rests on a proof by another circuit. (Recorded finding: the circuit a program is proved by is the prover's choice.)",
  "inputs", "all witnesses, honest or not, all casts, event trees and merges, all verified proofs including those of circuits the prover made",
  "A missing constraint shows only under a witness no honest prover makes; the tests try a handful of wrong values per circuit, and no circuit of a prover's own.",
  "recproofs/src/circuits/build_event_root.rs recproofs/src/circuits/merge.rs recproofs/src/circuits/merge/core.rs recproofs/src/circuits/merge/embed.rs recproofs/src/circuits/verify_program.rs recproofs/src/circuits/verify_program/core.rs recproofs/src/circuits/verify_tx.rs recproofs/src/circuits/verify_tx/core.rs recproofs/src/subcircuits/unbounded.rs recproofs/src/subcircuits/unpruned.rs recproofs/src/subcircuits/propagate.rs recproofs/src/lib.rs",
  ["LeafCircuit, BranchCircuit @ recproofs/src/circuits/verify_program.rs", "build_branch @ recproofs/src/circuits/merge/core.rs", "LeafCircuit, BranchCircuit @ recproofs/src/circuits/verify_tx.rs", "LeafCircuit, BranchCircuit @ recproofs/src/circuits/build_event_root.rs"],
  "TLA+ meaning of claims (Proofs.tla), inductive in TLC; TLC judges every claim a dishonest prover gets accepted",
  "The merging rule and the recursion over self-verifying circuits are model-checked; the real circuits are evaluated under honest and altered witnesses and proofs, and TLC judges every accepted claim. Bounded by the alterations tried; the proof system itself is replaced by evaluation.")

p("P03", "A proof of a block extends the chain by what its transactions did",
  "Whatever a prover supplies, if the node's circuits accept it: a proof of the state pairs the roots before and after, level by level, with the summary of exactly the objects that changed at their addresses; and a proof of a block says that the events of its transactions, matched at its height, are what changed between the state it starts from and the state it ends in, that it starts where the block before ended, one height on, from the same first state; and nothing of it rests on a proof by another circuit.",
  "inputs", "all witnesses, honest or not, all states, heights and blocks, all verified proofs including those of circuits the prover made",
  "A missing constraint shows only under a witness no honest prover makes; the tests try a handful of wrong values per circuit, and no circuit of a prover's own.",
  "recproofs/src/circuits/state_update.rs recproofs/src/circuits/verify_block.rs recproofs/src/circuits/verify_block/core.rs recproofs/src/subcircuits/summarized.rs recproofs/src/subcircuits/verify_address.rs recproofs/src/subcircuits/unpruned.rs recproofs/src/subcircuits/bounded.rs recproofs/src/lib.rs",
  ["LeafCircuit, BranchCircuit @ recproofs/src/circuits/state_update.rs", "Circuit @ recproofs/src/circuits/verify_block.rs", "build_branch @ recproofs/src/subcircuits/summarized.rs", "build_branch @ recproofs/src/subcircuits/verify_address.rs"],
  "TLA+ meaning of claims (Proofs.tla); TLC judges every claim a dishonest prover gets accepted",
  "The recursion over self-verifying circuits is model-checked; the real circuits are evaluated under honest and altered witnesses and proofs at tree depths 3, 8 and 63, and TLC judges every accepted claim. Bounded by the alterations tried; the proof system itself is replaced by evaluation.")

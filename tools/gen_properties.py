#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the statements)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
ONLY = "The only existing test checks the page-alignment helper on 14 constants; nothing executes "

p("C01", "Arithmetic, logic and shift instructions give the exact result and flags",
 "For every operand value, width and register choice (coinciding registers included), add, sub, and, or, xor, shl, asr, lsr, mul and div put the mathematically defined result modulo the register width into exactly their destination registers: mul the upper half in its first and the lower half in its second, div the quotient in its first and the remainder in its second, shift counts taken modulo the register width, and when both destinations name the same storage the second result wins. add and sub set carry (unsigned carry or borrow), overflow (signed), sign and zero from the result; the bitwise and shift instructions clear carry and overflow and set sign and zero; mul sets carry and overflow exactly when the upper half is nonzero and sign and zero from the lower half. div leaves all flags alone, and a zero divisor traps as division by zero without changing any register or flag other than the trap bookkeeping.",
 ["inputs"], "all operand values, both widths, all register combinations and incoming flag values",
 ONLY + "an instruction; the property ranges over 2^32 operand pairs per wide instruction times register aliasing and prior flags.",
 ["src/blf4/isa/handlers.rs", "src/blf4/mod.rs"],
 [("per-opcode handlers computing value and flags", "src/blf4/isa/handlers.rs")],
 ["register file and flags before and after one executed instruction"])

p("C02", "Byte and wide register names are consistent views of one register file",
 "After any write through any register name, every name reads the bits the documented layout gives it: the l and h names of r1-r5 touch only their own half, the b names of r6-r10 read the low half and zero the high half when written, and r0/r0b read as zero whatever is written. This holds for every instruction that writes a register (immediate loads, memory loads, pops, physical loads, arithmetic, system-call results). No instruction changes a register it neither names nor implicitly uses.",
 ["inputs", "histories"], "all sequences of register writes through all names, from all prior register contents",
 ONLY + "a register write; aliasing errors appear only for particular name pairs and prior contents.",
 ["src/blf4/mod.rs", "src/blf4/register_type.rs"],
 [("general purpose register storage and byte/wide accessors", "src/blf4/mod.rs")],
 ["all 16 byte names and 16 wide names after every instruction"])

p("C03", "Loads, stores and stack operations touch exactly the addressed bytes",
 "Every load, store, push and pop accesses exactly the bytes it addresses, each exactly once, wide values in little-endian order, with the effective address (base plus offset) and the stack pointer computed modulo 2^16; push decrements the stack pointer by the operand size before writing and pop increments it after reading. Apart from its own instruction bytes and page-table entries it reads nothing else, it writes nothing else, and it leaves the flags unchanged.",
 ["inputs"], "all base/offset/stack-pointer values including those that wrap around, all register choices, direct and virtual mode",
 ONLY + "a memory instruction; the interesting cases are the wrap-around addresses and unaligned or page-straddling wides.",
 ["src/blf4/mod.rs", "src/blf4/isa/handlers.rs"],
 [("byte and wide access helpers, push/pop helpers", "src/blf4/mod.rs")],
 ["physical access log of the memory behind the CPU"])

p("C04", "Control flow follows the documented conditions and instruction lengths",
 "After every non-trapping instruction the program counter is the address just past its encoding (modulo 2^16) unless it is a taken jump, a call, a return or a handler return. Each conditional jump is taken exactly when its documented flag condition holds for the current flags, call stores the address of the following instruction in the link register and continues at its target, and ret adds its operand to the stack pointer and continues at the link register. Control-flow instructions change no other register and no flag.",
 ["inputs", "programs"], "all 16 flag combinations for all conditional jumps, all targets, all code positions including the top of the address space",
 ONLY + "a jump; correctness is a statement over all flag states and code positions.",
 ["src/blf4/isa/handlers.rs", "src/blf4/mod.rs"],
 [("conditional jump handlers, call/ret, instruction fetch", "src/blf4/isa/handlers.rs")],
 ["program counter, link register and stack pointer after each instruction"])

p("C05", "Any code either executes or traps; the emulator itself never crashes",
 "From any machine state, in direct or virtual mode, user or supervisor, executing whatever bytes are at the program counter either completes an instruction or reports or delivers a trap; the emulator itself never aborts. An undefined opcode or a nonzero reserved operand nibble always traps as an invalid instruction (in user mode possibly as an illegal operation instead, when the instruction is also forbidden there) without changing memory or any general register.",
 ["inputs", "programs"], "all 4-byte instruction windows, all register/flag states, all page-table shapes, long random runs",
 ONLY + "any code at all; a crash needs a particular corner such as an address wrap, a large shift count or a faulting operand fetch.",
 ["src/blf4/mod.rs", "src/blf4/isa/handlers.rs", "src/machine/mod.rs"],
 [("256-entry opcode dispatch with invalid default", "src/blf4/isa/handlers.rs"), ("overflow-free address arithmetic", "src/blf4/mod.rs")],
 ["outcome of each step (completed / trap / crash) with arithmetic-overflow and bounds checks compiled in"])

p("C06", "Virtual addresses translate exactly by the current page tables",
 "In virtual mode every fetch, read and write of a virtual address reaches the physical address given by the two-level page table rooted at the page-table register at the moment of that access (4-bit first-level index, 5-bit second-level index, 7-bit offset, 17-bit page numbers), also when an instruction or a wide value straddles pages and after the tables, the root register or the mode changed. An access whose first-level or second-level entry is absent traps as a level-1 or level-2 page fault respectively. With virtual mode off, addresses are physical addresses in the first 64 KiB.",
 ["inputs", "histories"], "all table contents, root positions and virtual addresses; histories in which tables, root and mode change between accesses",
 ONLY + "address translation; stale or mis-indexed translation shows only for specific tables and update orders.",
 ["src/blf4/mod.rs"], [("two-level table walk", "src/blf4/mod.rs")],
 ["physical addresses seen by the memory for each virtual access"],
 [("page-table register", "physical address of the first-level table", "src/blf4/mod.rs")])

p("C07", "Page permissions are enforced on every access in both table levels",
 "A virtual-mode fetch, read or write happens only if both table levels are present and grant execute, read or write respectively and, in user mode, both also grant user access; supervisor mode needs no user flag. A denied access traps with the reason that applies (page fault for an absent entry, illegal operation for a missing user flag, illegal execute, read or write for a missing permission) and the denied byte is neither read nor written.",
 ["inputs", "configurations"], "all flag combinations of both levels x access kind x mode, including the second byte of straddling wides and instructions",
 ONLY + "a permission check; the space is 2^12 flag pairs x 3 access kinds x 2 modes x straddling.",
 ["src/blf4/mod.rs"], [("entry permission check during the table walk", "src/blf4/mod.rs")],
 ["trap reported and physical access log"])

p("C08", "Dirty flags record exactly the writes and nothing else in the tables changes",
 "After every successful virtual-mode write the dirty flag is set in both the first-level and the second-level entry used for it, whatever dirty flags were set before. Address translation changes no other bit of any page-table entry, and reads, fetches and denied accesses change no page-table entry at all.",
 ["inputs", "histories"], "all prior dirty/permission combinations of both levels and all write histories over several pages sharing a first-level entry",
 ONLY + "a virtual-mode write; corruption needs a second page written under an already dirty first-level entry.",
 ["src/blf4/mod.rs"], [("dirty-bit write-back during the table walk", "src/blf4/mod.rs")],
 ["page-table bytes before and after every access"])

p("C09", "User mode cannot gain privilege except through a trap",
 "In user mode every instruction that would read or write the page-table or trap-handler register, enter user mode, switch virtual mode or access physical memory directly traps as an illegal operation and leaves both registers, the virtual-mode state and physical memory unchanged. A handler-return instruction cannot be completed from user mode, and no other instruction ever turns user mode off: supervisor mode is reached only by a trap being delivered to the installed handler or reported to the host.",
 ["inputs", "histories"], "all instructions and register operands in user mode, from all register, flag and stack contents",
 ONLY + "user-mode code; privilege leaks show only for particular operand positions or a stale trap flag.",
 ["src/blf4/mod.rs", "src/blf4/isa/handlers.rs"],
 [("user-mode guards in privileged handlers and register accessors", "src/blf4/isa/handlers.rs")],
 ["privileged registers, mode flags and access log after each user-mode instruction"])

p("C10", "Trap delivery and handler return preserve the interrupted context",
 "When an instruction traps for any reason (failing opcode or operand fetches included) while a trap handler is installed, execution continues at the handler in supervisor mode with the trap flag set and the trap number in r1, and if the handler then returns with the stack as it found it, all registers, the flags, user mode and the program counter are exactly what they were when the trap occurred, with the trap flag clear. Without a handler the machine stops and reports that same trap. Handler return outside a trap traps as an illegal handler return.",
 ["inputs", "histories"], "all trap causes x register/flag/mode states, direct and virtual mode, nested handler activity that restores the stack",
 ONLY + "a trap; a lost register or flag is visible only after a full trap/return round trip from a particular state.",
 ["src/blf4/mod.rs", "src/blf4/isa/handlers.rs"],
 [("trap entry saving the register frame", "src/blf4/mod.rs"), ("handler return restoring it", "src/blf4/isa/handlers.rs")],
 ["CPU state at trap, at handler entry and after handler return"])

p("C11", "The physical memory map behaves as I/O page, ROM and independent RAM",
 "Physical addresses 0x00-0x7f forward each read and write exactly once to the device port of that number and store nothing; 0x80-0x7fff return the loaded ROM image (zero where the image is shorter or absent) and are never changed by writes; every other address of the 24-bit space is an independent byte that reads zero until written and afterwards returns the last value written there. No access to one address affects another.",
 ["inputs", "histories"], "all 2^24 addresses and all write/read histories, all ROM image sizes up to the ROM size",
 ONLY + "a memory access; aliasing between lazily created regions needs specific address pairs and write orders.",
 ["src/mem.rs"], [("lazily allocated 64 KiB cells, ROM and I/O dispatch", "src/mem.rs")],
 ["values read back and device port log"])

p("C12", "Loading an executable maps exactly its segments, heap and stack",
 "After an object is loaded, also into a machine that was used before, its address space holds every segment's bytes at the segment's address with the segment's permissions (text execute, also read only if flagged; read-only data read; data and heap read and write), zero in the rest of those pages, the declared or default stack size as zeroed read-write memory ending at the top of the address space and, when there is a heap segment, at least the declared or default heap size from its start as read-write memory; pages shared by segments get the union of the permissions. No other page is mapped, no two virtual pages share physical memory, page tables are not mapped, and everything mapped is user accessible. Execution starts in user and virtual mode at the entry point with the stack pointer at the top of the address space.",
 ["inputs", "configurations"], "all sets of segments with any start, size and overlap of pages, all stack and heap sizes that fit",
 ONLY + "the loader; errors appear for unaligned starts, page-sharing segments, large heaps and the top of the address space.",
 ["src/blf4/std_kernel/load_user_binary.rs", "src/blf4/std_kernel.rs"],
 [("segment mapper and page allocator", "src/blf4/std_kernel.rs"), ("loader", "src/blf4/std_kernel/load_user_binary.rs")],
 ["page tables and memory after loading, behaviour of user accesses"])

p("C13", "Emulated system calls do exactly their effect and resume the program",
 "For a program run as a user binary, system call 3 reads exactly one byte from the input device into r1l, 4 writes exactly the byte r2l to the output device, 15 registers the error handler address given in r2 and 0 only prints the memory map; each leaves all other registers, the arithmetic flags and program memory unchanged and resumes after the call in user mode, and an unknown number stops the machine with a system-call trap. A later trap other than halt and system call continues in user mode at the registered error handler with the trap number in r1, as often as such traps occur; with none registered the machine stops and reports that trap.",
 ["programs", "histories"], "all call numbers, register states and call sequences, all trap causes with and without a registered handler",
 ONLY + "a system call; a clobbered register or lost I/O byte depends on state and call order.",
 ["src/blf4/std_kernel.rs", "src/machine/mod.rs"],
 [("emulated kernel trap handler", "src/blf4/std_kernel.rs")],
 ["device log, CPU state and memory around each call"])

p("C14", "A loaded program is contained in the memory mapped for it",
 "Whatever instructions a loaded user program executes, physical memory changes only inside frames its tables map user-writable, plus dirty flags in its own page-table entries; it obtains data or code only from frames mapped readable or executable respectively; and devices are touched only by the read and write system calls. Its mappings, the page-table root and the trap-handler register never change while it runs.",
 ["programs", "histories"], "all user programs (including arbitrary bytes as code) and all loaded layouts",
 ONLY + "a user program; an escape needs a particular access pattern, permission combination or page boundary.",
 ["src/blf4/mod.rs", "src/blf4/std_kernel.rs", "src/blf4/std_kernel/load_user_binary.rs"],
 [("page-table walk with permission checks", "src/blf4/mod.rs"), ("loader's table construction", "src/blf4/std_kernel.rs")],
 ["every physical access of the running program, classified by frame"])

p("C15", "The emulator command reports what the machine did",
 "Running a program with the emulator command, as a raw ROM image or as an object, writes exactly the output bytes and hands the program exactly the input bytes that the architecture prescribes for it, in order. Without the termination-point option it exits successfully exactly when the machine stopped by halting and otherwise fails naming the trap; with that option it prints the trap that ended the run and the nearest named defined symbol at or below the final program counter with the offset to it.",
 ["programs", "inputs"], "all terminating programs, raw and linked, of any length, with any input",
 ONLY + "the emulator command.",
 ["src/bin/t.rs", "src/machine/mod.rs", "src/mem.rs"],
 [("run loop and exit reporting", "src/bin/t.rs"), ("standard I/O device", "src/mem.rs")],
 ["stdout, stdin consumption, stderr and exit status of the process"])

p("C16", "Every accepted instruction line is encoded as documented",
 "For every instruction line the assembler accepts, in any spelling (aliases, spacing, number base, sign, character literals, byte and wide suffixes), the emitted bytes are the mnemonic's opcode for the given operand kinds, then all register numbers in operand order packed high nibble first with an unused nibble zero, then the immediate in little-endian order. Number literals denote their value modulo the operand width. Lines whose operands do not fit the mnemonic, surplus operands included, are rejected and never encoded as something else.",
 ["inputs", "programs"], "all mnemonics x operand kinds x registers x literal spellings",
 ONLY + "the assembler; an encoding slip concerns single mnemonic/operand combinations.",
 ["src/source/mod.rs", "src/blf4/isa/mod.rs", "src/blf4/register_type.rs", "src/bin/tc.rs"],
 [("operand parser and encoder", "src/source/mod.rs"), ("opcode constants", "src/blf4/isa/mod.rs")],
 ["segment bytes in the object file written by the assembler"])

p("C17", "Assembled layout, symbols and relocations agree with the source",
 "In the object assembled from a valid source (includes, forward references and switching between segments included) each segment holds exactly the bytes of its lines in source order, and segments start page-aligned above the first page without overlapping. Each label is a symbol at the address of the item that follows it, global exactly if declared so, undefined references are marked undefined, the entry point is where it was declared, and every use of a label in an instruction or a wide data item holds that label's address and has exactly one relocation entry giving that place and that symbol. Byte, wide and string data appear exactly as written with all escapes decoded.",
 ["programs", "inputs"], "all valid sources over all segments, data directives, label uses, includes",
 ONLY + "the assembler; wrong offsets appear only with several segments, includes or label-valued data.",
 ["src/source/mod.rs", "src/source/symbols.rs", "src/bin/tc.rs"],
 [("two-pass symbol and segment layout", "src/source/mod.rs"), ("object construction", "src/bin/tc.rs")],
 ["the written object file"])

p("C18", "Invalid source is rejected with located diagnostics and no object",
 "If any line of a source is invalid (unknown instruction, directive or segment, wrong operands, malformed literal or escape, duplicate or undefined label, second entry point, a label that is defined although declared to be a reference, anything placed outside a segment, missing or circular include, content exceeding the address space, a label no object can hold because of a zero byte) the assembler exits with failure, writes no object for it, leaves an existing object untouched, and names the file and line of every such line that stands in the source and of no valid line (a defined reference may be named by file and label only). A source whose symbols or relocations are more than an object can hold is refused likewise, without naming a line. Other sources on the same command line are still assembled, and a valid source never causes an error.",
 ["inputs", "programs"], "all sources with any number and kind of invalid lines at any positions, and all command lines mixing valid and invalid sources",
 ONLY + "the assembler's error paths.",
 ["src/source/mod.rs", "src/source/err.rs", "src/bin/tc.rs"],
 [("error chaining while parsing continues", "src/source/mod.rs")],
 ["exit status, stderr and files of the assembler process"])

p("C19", "The assembler never crashes or hangs, whatever the source text",
 "For every input text, however malformed, and whatever the file is named, the assembler terminates: it either writes a well-formed object and succeeds or prints diagnostics and fails. It never aborts abnormally and never needs time out of proportion to the input.",
 ["inputs"], "all byte strings as source files",
 ONLY + "the parser; crashes hide behind particular escapes, literals, sizes and include structures.",
 ["src/source/mod.rs", "src/source/symbols.rs", "src/bin/tc.rs"],
 [("line parser", "src/source/mod.rs")],
 ["exit status and stderr of the assembler process, CPU time used"])

p("C20", "Disassembly text assembles back to the same bytes",
 "For every instruction encoding the assembler can produce, at any address, the disassembler shows the correct address and bytes and a text that names the same mnemonic, registers in the same order and immediate value, so that assembling this text again yields identical bytes. When a label lookup is supplied, an immediate that is the address of a label is shown as that label.",
 ["inputs", "programs"], "all encodings the assembler can produce: all mnemonics, registers and immediate values",
 ONLY + "the disassembler; each mnemonic is a separate case.",
 ["src/disassemble.rs", "src/source/mod.rs"],
 [("per-opcode formatter", "src/disassemble.rs")],
 ["disassembled text for generated encodings"])

p("C21", "Disassembling observes the machine without changing it",
 "Disassembling at any program counter value, whether it succeeds or fails with a fault, leaves every register, flag and memory byte of the machine unchanged and touches no device (code and page tables placed in the device page excepted). The next-instruction location it reports is where the processor continues after executing an assemblable instruction that does not jump, its call/return nesting and end-of-block information match what the instruction does, and it fails exactly when an instruction byte it has to show cannot be fetched by the processor in its current mode.",
 ["inputs", "histories"], "all machine states and instruction bytes, including page-straddling and faulting fetches and the top of the address space",
 ONLY + "the disassembler.",
 ["src/disassemble.rs"], [("read-only memory wrapper and program-counter restore", "src/disassemble.rs")],
 ["CPU state and access log around a disassembly, compared with executing the same instruction"])

p("C22", "Object files read back exactly what was written",
 "Writing any object (entry, flags, stack size, heap size, segments, symbols, relocations; any subset present) to a file behind a preamble of any length keeps the preamble and reads back as an equal object with the same preamble length. An object that the format cannot represent, because a section exceeds its 16-bit length or a symbol name contains what the table uses as separators, is refused with an error and never left behind as a file that reads as a different object (what was in the file before may stay).",
 ["inputs"], "all objects with any subset of parts, sizes from empty to the format limit, any preamble length and content that does not contain the magic",
 ONLY + "object I/O; a mixed-up or truncated section is visible only for objects that carry it.",
 ["src/aalv/mod.rs", "src/aalv/obj.rs", "src/aalv/obj/sec_impl.rs"],
 [("section writer with back-patched length", "src/aalv/mod.rs"), ("section codecs", "src/aalv/obj/sec_impl.rs")],
 ["written file bytes (decoded independently) and the object read back"])

p("C23", "Damaged object files are refused cleanly, never misread or crashed on",
 "Reading any file as an object or archive either yields an object or a clean error; it never aborts. Every proper prefix of a valid object file is refused, and a file whose reserved sections are unknown, duplicated, too short or carry an invalid segment type, or an object with two segments of one type, is refused with an error.",
 ["inputs", "crash_points"], "all truncation points of all object files; all byte-level corruptions",
 ONLY + "the object reader.",
 ["src/aalv/mod.rs", "src/aalv/obj.rs", "src/aalv/obj/sec_impl.rs", "src/aalv/savn.rs"],
 [("length-checked section windows", "src/aalv/mod.rs")],
 ["result of reading each damaged file"])

p("C24", "A tool that exits successfully has written its complete output",
 "If assembling, linking, stripping or archiving exits successfully, the output file is complete and equals the output of an undisturbed run, whatever write error (for example a full disk or a file size limit at any byte) or read error occurs; if the output could not be written completely, or an input not be read completely, the tool exits with failure. Likewise the emulator, the debugger and the object dumper exit successfully only if everything they had to print, the output of the program included, was written, and that is what they print in an undisturbed run.",
 ["fault_sequences", "crash_points"], "all positions in the output at which writing fails, for all four output-producing tools and the three that print",
 ONLY + "a tool under faults; the loss happens only when the failing write is the last buffered one.",
 ["src/aalv/mod.rs", "src/aalv/obj.rs", "src/bin/tc.rs", "src/bin/tl.rs", "src/bin/tstrip.rs", "src/bin/tar.rs", "src/bin/t.rs"],
 [("buffered writer flushed when finished", "src/aalv/mod.rs"), ("standard output flushed after the run", "src/bin/t.rs")],
 ["exit status and output bytes under injected write errors"])

p("C25", "Linking places every segment and patches every reference correctly",
 "In a linked object each segment type consists of the input objects' segments of that type, concatenated in input order and otherwise unchanged, starting at the requested alignment above the first page (the zero segment: at address 0) without overlapping other segments. Every symbol has the address of the byte it had in its input, every relocated place holds the final address of the symbol it refers to (also when that symbol is defined in a later input), and relocation and symbol tables of the output describe exactly these places and symbols.",
 ["programs", "inputs"], "all sets and orders of input objects, segment sizes, starts and alignments",
 ONLY + "the linker.",
 ["src/bin/tl.rs"], [("segment layout, symbol merge and relocation passes", "src/bin/tl.rs")],
 ["the linked object file compared with an independent link of the same inputs"])

p("C26", "Symbol resolution errors stop the link; local names stay local",
 "Linking fails without producing output when a global symbol is defined by two inputs, when an executable is requested and a referenced symbol is defined nowhere, when an executable would have no entry point, when the requested entry symbol is not a defined global, or when the result does not fit in the address space or in an object; otherwise it succeeds. Local symbols of different inputs never clash with nor satisfy references from other inputs, and without -e undefined references are kept for later linking. The entry point is the first one among the inputs unless one is requested by symbol or hexadecimal address.",
 ["programs", "configurations"], "all combinations of definitions, references and scopes over several inputs, all entry options",
 ONLY + "the linker.",
 ["src/bin/tl.rs"], [("global symbol table and undefined-reference list", "src/bin/tl.rs")],
 ["exit status, diagnostics and output of the linker"])

p("C27", "Linking in steps gives the same image as linking at once",
 "For any inputs, linking a leading group of them first and then linking the result with the rest yields the same segment contents and addresses, the same entry point, the same address for every named symbol and the same relocation places as linking all of them at once.",
 ["programs", "histories"], "all inputs and all ways of grouping a prefix, any number of intermediate steps",
 ONLY + "the linker; a second link of its own output exercises state no single link does.",
 ["src/bin/tl.rs", "src/aalv/obj.rs"], [("relinkable output with rebased symbols and relocations", "src/bin/tl.rs")],
 ["linked objects of both routes"])

p("C28", "Archives contribute exactly the members the link needs",
 "Linking against archives gives the same object as linking the inputs together with exactly these members: those that define a symbol referenced but not defined by the inputs or members already included, or that refer to a symbol defined by the inputs, repeated until nothing changes. Members connected to the inputs in neither way are left out, each member is included at most once, and an archive yields its members unchanged and in order, including members that carry a preamble.",
 ["programs", "histories"], "all dependency graphs between inputs and members, over several archives and member orders",
 ONLY + "archives; missed members need reference chains in an unfavourable order.",
 ["src/bin/tl.rs", "src/bin/tar.rs", "src/aalv/savn.rs"],
 [("fixed-point member selection", "src/bin/tl.rs"), ("archive iterator", "src/aalv/savn.rs")],
 ["linked object with archives compared with the explicit link of the predicted members"])

p("C29", "Stripping removes names only and never changes what is linked or run",
 "Stripping an object erases the names of local symbols and nothing else, so that it links and runs exactly as before; stripping everything additionally removes symbols and relocations but keeps entry, sizes, flags, segments and the preamble, and is refused without an entry point unless forced. Stripping twice equals stripping once, and linking with internal symbols erased equals stripping after linking.",
 ["inputs", "programs"], "all objects and executables, all option combinations, linking before and after",
 ONLY + "the strip tool.",
 ["src/bin/tstrip.rs", "src/bin/tl.rs", "src/aalv/obj.rs"],
 [("in-place rewrite keeping the preamble", "src/bin/tstrip.rs")],
 ["objects before and after stripping, linked and run"])

p("C30", "How a program is split over files does not change its behaviour",
 "A program assembled and linked from any distribution of its routines and data over source files, includes, archives and link order behaves identically when run, by `t` or as a command of its own (tl -e makes it executable, headed by a line naming `t` as its interpreter): same output for the same input, same final trap. That behaviour is the one the instruction set and the source prescribe.",
 ["programs", "configurations"], "all programs, all distributions over files and archives, all link orders with the entry kept",
 ONLY + "the tool chain end to end; cross-tool disagreements are invisible to any single-tool test.",
 ["src/source/mod.rs", "src/bin/tc.rs", "src/bin/tl.rs", "src/bin/t.rs", "src/blf4/std_kernel/load_user_binary.rs"],
 [("relocation records written by the assembler and applied by the linker", "src/bin/tc.rs")],
 ["stdout and exit status of the final executable"])

p("C31", "The debugger shows the real machine state and does not disturb the run",
 "A program stepped in the debugger performs the same instructions, output and final trap as when run undisturbed; every displayed register, flag, memory byte and disassembled line is the machine's actual state at that point. Stepping into stops after one instruction, next runs a called subroutine to its return, stepping out stops after the current subroutine returned, and no command or end of input makes the debugger crash or spin.",
 ["histories", "programs"], "all programs and command sequences",
 ONLY + "the debugger.",
 ["src/bin/tdbg.rs", "src/disassemble.rs"], [("command loop with nesting counter", "src/bin/tdbg.rs")],
 ["debugger transcript compared with a reference execution"])

p("C32", "Object dumps list the object's real contents and report failures",
 "The symbol listing shows every symbol of every object or archive member exactly once, in table order, with its scope, segment, address or undefined mark. The disassembly starts at the entry point and every global symbol (or the requested symbols), follows code and referenced labels, and every line shown carries the address and bytes the object has there, with relocations shown at the instructions that contain them. The exit status is failure exactly when some input could not be read.",
 ["inputs", "programs"], "all objects, executables and archives, all option combinations",
 ONLY + "the dump tool.",
 ["src/bin/tobjdump.rs", "src/disassemble.rs"], [("symbol listing and reachable-label disassembly", "src/bin/tobjdump.rs")],
 ["stdout and exit status of the dump tool compared with independently decoded objects"])

p("C33", "The memory map listing shows exactly the mapped pages",
 "When a program asks for its memory map (system call 0), the listing has exactly one line for each page that is present at both levels, in ascending order of virtual address, with the page's address and its frame's address (last digit left out), and shows for U, X, W and R what the entries of both levels permit: a capital letter when the page's own entry permits it, marked ! when the first level does not, a small letter when only the first level does, nothing when neither does. Listing changes nothing.",
 ["programs", "histories"], "all address spaces of loaded programs and all page tables, also changed between listings",
 ONLY + "the listing; it depends on every entry of both levels.",
 ["src/blf4/mod.rs", "src/blf4/std_kernel.rs"], [("print_mmap", "src/blf4/mod.rs"), ("system call 0", "src/blf4/std_kernel.rs")],
 ["standard output of the emulator compared with an independent walk of the page tables"])

p("C34", "No file makes a command crash, and ill-formed links are refused",
 "Whatever files it is given (well-formed objects whose parts do not fit each other, damaged objects and archives, anything else, directories, missing files), each of the linker, archiver, stripper, object dumper, debugger and emulator ends in an orderly way: with success after doing what it was asked to, or with a failure status and a message. None panics, is ended by a signal or runs without end, except for programs being run or debugged that do not end themselves. A link succeeds only if every input was readable and every relocation in it lies in the contents of a segment and names a symbol of that input, and its output is again a readable object of which this holds; stripping leaves files that are no objects as they were and others readable, and an archive holds its inputs byte for byte.",
 ["inputs", "configurations"], "all contents of all input files, all options of the commands",
 ONLY + "a command; crashes need combinations of contents that no tool of the chain writes by itself.",
 ["src/bin/tl.rs", "src/bin/tobjdump.rs", "src/bin/tstrip.rs", "src/bin/tar.rs", "src/bin/t.rs", "src/bin/tdbg.rs", "src/blf4/std_kernel.rs", "src/aalv/obj.rs"],
 [("relocation checks of the linker", "src/bin/tl.rs"), ("loading of segments", "src/blf4/std_kernel.rs")],
 ["exit status, error output and files left by each command"])

p("C35", "Outputs depend on inputs alone",
 "Assembling, archiving, linking, stripping and dumping the same inputs with the same options gives byte-identical output files, the same listing and the same exit status every time: whatever directory it is run in, whether files are named by relative or absolute paths, whatever the environment variables, whatever was in the output file before (one of the inputs of a link or archive included), and however often it is repeated. The object made of a source is the same whether the source is assembled alone, or in one command together with other valid sources in any order. (The wording of diagnostics and of the linker's verbose messages is not part of this.)",
 ["inputs", "configurations", "repetitions"], "all inputs and options of the tools, all environments they are run in",
 ONLY + "a result that varies between two executions passes every test that looks at one execution only; hash tables iterate in another order in each process.",
 ["src/bin/tc.rs", "src/bin/tl.rs", "src/bin/tar.rs", "src/bin/tstrip.rs", "src/bin/tobjdump.rs", "src/source/symbols.rs", "src/aalv/obj.rs"],
 [("symbol and relocation tables as written", "src/bin/tc.rs"), ("collection of segments and symbols by the linker", "src/bin/tl.rs")],
 ["output files, listings and exit status of repeated executions"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
    print(len(P), "properties")

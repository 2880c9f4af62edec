use crate::core::Run;

pub struct Check {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(&Run),
}

pub fn find(id: &str) -> Option<&'static Check> {
    CHECKS.iter().find(|c| c.id == id)
}

macro_rules! check {
    ($id:literal, $level:literal, $f:path, $rule:literal, $($a:literal),*) => {
        Check { id: $id, level: $level, rule: $rule, assumptions: &[$($a),*], run: $f }
    };
}

#[cfg(feature = "cpu")]
static CHECKS: &[Check] = &[
    check!("C01", "exploration", crate::chk_cpu::c01,
        "One instruction executed by the real processor and by the reference model from the same state. Exhaustive phases as listed, the rest random with operands biased to corners. Non-trivial: counted once per distinct (instruction bytes, operands, incoming flags).",
        "the reference model states the documented arithmetic", "the layout of the flags word is not part of the property"),
    check!("C02", "exploration", crate::chk_cpu::c02,
        "Sequences of register-writing instructions; after each one all 16 byte names and 16 wide names are read back from the real processor and compared with the model. Non-trivial: distinct (instruction, destination, prior contents).",
        "the reference model states the documented register layout"),
    check!("C03", "exploration", crate::chk_cpu::c03,
        "Loads, stores, pushes and pops from boundary-biased addresses, with and without virtual memory, behind a monitoring memory that logs every physical access; the log is compared with the bytes the model addresses. Non-trivial: distinct (instruction, address, mode).",
        "accesses that hit the page table entries used by the same instruction are not compared (order of byte accesses is unspecified)"),
    check!("C04", "exploration", crate::chk_cpu::c04,
        "All conditions under all flag combinations, jumps, calls and returns at boundary addresses; program counter and link register compared with the model. Non-trivial: distinct (instruction, address, flags).",
        "jle is taken when s != o and z, as documented"),
    check!("C05", "exploration", crate::chk_cpu::c05,
        "Random and boundary-placed instruction bytes in random machine states, and long runs of random code; the processor must complete or trap as the model says, without aborting and without leaving the 24-bit space. Built with overflow and bounds checks. Non-trivial: distinct (instruction bytes, mode, outcome).",
        "traps that several reasons justify may report any of them"),
    check!("C06", "exploration", crate::chk_cpu::c06,
        "Random two-level page tables with aliasing and straddling accesses; tables, root and mode also changed between instructions; every physical access compared with an independent table walk. Non-trivial: distinct (address, tables, instruction).",
        "translation is by the tables as they are when the instruction starts"),
    check!("C07", "exploration", crate::chk_cpu::c07,
        "Every combination of the two entries' flags x kind of access x mode; denied accesses must trap with a reason that applies and change nothing. Non-trivial: distinct (flags, access, mode, outcome).",
        "when several reasons apply any of them may be reported"),
    check!("C08", "exploration", crate::chk_cpu::c08,
        "Writes of all kinds (stores, pushes, trap frames) through random tables; all bytes of all entries involved are compared before and after. Non-trivial: distinct (flags before, instruction, address).",
        "an access that traps half way may have marked the part it reached"),
    check!("C09", "exploration", crate::chk_cpu::c09,
        "User-mode code, random and adversarial; after every instruction the mode, page root, handler and mapping are watched, and every privileged opcode and register is tried in all operand positions. Non-trivial: distinct (instruction, state).",
        "tables mapped writable for the user by the supervisor are outside the property"),
    check!("C10", "exploration", crate::chk_cpu::c10,
        "Twin machines: the same trapping instruction without a handler (model-checked) and with one; the handler runs a random body and returns; the restored context must be the interrupted one. Non-trivial: distinct (trap, program counter, stack, mode) that was delivered and returned.",
        "cases where the random frames make the stack, the handler or the tables overlap are skipped and counted"),
    check!("C11", "exploration", crate::chk_mem::c11,
        "Histories of reads and writes on the emulator's memory with a recording device, against a byte map; addresses biased to one-bit distances and region ends. Non-trivial: distinct (address, value) writes, sweeps and ROM sizes.",
        "the recording device stands for any device"),
    check!("C12", "exploration", crate::chk_load::c12,
        "Random sets of segments (any alignment, pages shared, up to the top), flags, stack and heap sizes are loaded; the page tables are then walked by hand and every page, permission, frame and byte compared with the expected address space. Non-trivial: distinct layouts.",
        "bytes of segments do not overlap each other", "an empty segment other than the heap is not generated"),
    check!("C13", "exploration", crate::chk_load::c13,
        "Loaded machines stepped through every system call and trap cause with random registers, and through runs of following calls and traps, next to a model of processor and kernel; every memory and device access is logged. Non-trivial: distinct (location, r1, r2, input, trap).",
        "registering error handler address 0 may mean none or address 0"),
    check!("C14", "exploration", crate::chk_load::c14,
        "Loaded programs of random, adversarial and arbitrary code run on a machine whose memory logs every physical access; each access is classified by the frames the loader mapped. Non-trivial: one per distinct run (by its access counts).",
        "which bytes are code is decided by the reference model's fetches"),
    check!("C20", "exploration", crate::chk_dis::c20,
        "Every mnemonic form with all register combinations and immediates is encoded independently, disassembled by the real disassembler at random addresses with and without labels, the line decoded and compared, and the shown texts assembled again by the real assembler. Non-trivial: distinct encodings shown.",
        "code is not in the device page", "byte immediates are not addresses of labels"),
    check!("C21", "exploration", crate::chk_dis::c21,
        "Disassembly at random and boundary program counters in direct and virtual mode, user and supervisor, with partly unfetchable instructions; all registers, flags, the access log and changed memory watched, the result compared with a model of fetching and with the processor executing the same instruction. Non-trivial: distinct (instruction or failure, address, mode).",
        "code and page tables in the device page are excluded"),
    check!("C33", "exploration", crate::chk_map::c33,
        "System call 0 in loaded programs and under random page tables (tables shared, unaligned roots, entries changed between listings, flags of both levels in all combinations), in a child process whose standard output is compared, page by page, with an independent walk of the tables. Non-trivial: distinct sets of tables.",
        "tables are clear of the root and of the device page", "what is shown outside virtual mode is not prescribed"),
];

#[cfg(all(feature = "obj", not(feature = "cpu")))]
static CHECKS: &[Check] = &[
    check!("C22", "exploration", crate::chk_obj::c22,
        "Generated objects (all subsets of parts, sizes up to the 16-bit limit, preambles of any length and content, over existing files) are written by the real library; the file is decoded by an independent parser and read back by the library. Objects the format cannot hold must be refused and must not leave a readable file. Non-trivial: distinct objects.",
        "the independent codec states the documented format", "a preamble does not contain the magic"),
    check!("C23", "exploration", crate::chk_obj::c23,
        "Every truncation of generated objects and archives, each kind of damaged section, random byte damage and section soup is read by the real library; an independent strict parser says which files must be refused and what the others contain. Non-trivial: distinct files.",
        "sections longer than necessary, unknown flag letters and names that are not UTF-8 are not prescribed"),
];

#[cfg(not(any(feature = "cpu", feature = "obj")))]
static CHECKS: &[Check] = &[
    check!("C15", "exploration", crate::chk_run::c15,
        "Generated terminating programs (also with damaged bytes) as objects in random layouts and as raw ROM images with devices, own trap handlers and page tables; a model of the machine gives output, input used, final trap and program counter, which are compared with what the emulator command writes, reads and reports. Programs whose outcome depends on start registers are not used. Non-trivial: distinct images.",
        "programs do not read beyond the end of the input"),
    check!("C16", "exploration", crate::chk_asm::c16,
        "Instruction lines in random spellings assembled by the real assembler; the text segment of the object it writes is compared with an independent encoder. Lines that fit no form are mixed with valid ones and each must be named in the diagnostics; each is also tried alone. Non-trivial: distinct lines.",
        "the mnemonic is separated from its operands by a space", "names and numbers are spelled as the parser's grammar documents them"),
    check!("C17", "exploration", crate::chk_asm::c17,
        "Generated sources (includes, segment switches, forward references, all data directives) assembled by the real assembler; the object is decoded independently and compared with a model of the layout, symbols, relocations and entry point. Non-trivial: distinct sources with several segments or label uses.",
        "where segments are placed is only constrained as stated (page aligned, above the first page, not overlapping)", "labels are placed where some content is in the same segment"),
    check!("C18", "exploration", crate::chk_asm::c18,
        "Sources with known invalid lines and valid sources on one command line; exit status, objects left behind and file:line in the diagnostics compared with what was generated. Non-trivial: distinct sets of sources.",
        "the wording of diagnostics is free; file name and line number joined by a colon are looked for"),
    check!("C19", "exploration", crate::chk_asm::c19,
        "Random bytes, token soup, mutated valid sources, very large inputs and odd include structures; the assembler (built with overflow and bounds checks, processor time limited to 20 s) must succeed with a well-formed object or fail with a diagnostic. Non-trivial: distinct texts.",
        "files that include each other repeatedly count as that much input"),
    check!("C24", "fault_enumeration", crate::chk_fault::c24,
        "Each writing tool is run undisturbed and then again with a file size limit at every byte of its output (large outputs: both ends, buffer boundaries and a sample), with every single file operation failing once, for good, interrupted or done in part (preloaded fault injector), and with outputs that cannot be written; a successful exit needs the undisturbed output. The emulator, debugger and dumper likewise, for what they print. All of them once more with single reads of their inputs failing, interrupted or short. Non-trivial: distinct command and output.",
        "the undisturbed output is what other properties check"),
    check!("C25", "exploration", crate::chk_link::c25,
        "Generated objects in every order and count linked by the real linker; the output is decoded by an independent parser and compared with an independent link: alignment, first page, overlap, every byte carried over, every symbol, relocation and entry point translated. Links that cannot fit must fail. Non-trivial: distinct sets of inputs and options.",
        "the order of segments of different types in the address space is free"),
    check!("C26", "exploration", crate::chk_link::c26,
        "Sets of objects with random and single deliberate defects (missing and duplicate definitions, missing or undefined entry, same local names in several inputs) linked as object and as executable with every entry option; success or failure, the absence of output and the content of successful output compared with the model. Non-trivial: distinct sets of inputs and options.",
        "the wording of diagnostics is free", "a defined name that nothing refers to needs no relocation"),
    check!("C27", "exploration", crate::chk_link::c27,
        "Random inputs linked at once and in steps (leading groups first, any number of intermediate steps, options on the last one); the decoded images of both routes compared with each other and with the independent link. Non-trivial: distinct sets of inputs and groupings.",
        "the grouped inputs lead the command line"),
    check!("C28", "exploration", crate::chk_link::c28,
        "Random libraries with cycles, chains and duplicate suppliers are archived by the real archiver and linked; the set of members in the output (identified by unique local symbols) is compared with the closure of what is needed, and the result with the link of those objects. Non-trivial: distinct libraries and inputs.",
        "the order of members in the image is free", "duplicate suppliers are generated only where the choice does not matter or is documented"),
    check!("C29", "exploration", crate::chk_link::c29,
        "Generated objects and executables stripped in place with and without -a; the file is compared with the original by an independent decoder, stripped and unstripped inputs are linked and the images compared, and stripped executables run next to the originals. Non-trivial: distinct objects and options.",
        "file permissions are kept"),
    check!("C30", "exploration", crate::chk_run::c30,
        "Generated programs are distributed over translation units, included files, archives, partial links and link orders, with colliding local names and stripping in between; each is built by the real tools and run by the real emulator, and must do what the models of source, machine and kernel do. Non-trivial: distinct distributions.",
        "programs do not depend on addresses (tried in three placements and orders in the model)", "segments are on pages of their own"),
    check!("C31", "exploration", crate::chk_dbg::c31,
        "Random debugger sessions (stepping, register, flag and memory queries, jumps, entry options, junk, early ends of input) on generated programs; the combined input is planned on a model of machine and kernel, the transcript is split at the prompts and every displayed register, flag, byte, label, instruction, output line, input request and final trap is compared with the model started from the registers shown. Non-trivial: distinct programs and sessions.",
        "next at a return instruction is not prescribed", "where the page tables of the kernel are is not prescribed"),
    check!("C32", "exploration", crate::chk_dump::c32,
        "Generated objects, executables and archives (programs, random sources, random segments, undefined and nameless symbols, several names for one place) dumped with every combination of options, mixed with unreadable files; the listing is compared line by line with the independently decoded object: symbols, bytes, instructions, labels, relocations, the set of instructions that can be reached, the exit status. Non-trivial: distinct objects and options.",
        "only one relocation applies to a place", "segments end within the address space", "whether undefined symbols are followed is not prescribed"),
    check!("C34", "exploration", crate::chk_any::c34,
        "Files that parse but do not fit together (relocations at and past every end, of symbols and segments that do not exist, segments that overlap or leave the address space, code all around it, odd sizes, names and entry points), damaged objects and archives, other files, directories and absent ones are given to every command; how each process ends, what it says, and what it leaves on disk is watched. Non-trivial: distinct files and linked outputs.",
        "programs that are run or debugged may run without end", "the text of messages is free"),
    check!("C35", "exploration", crate::chk_same::c35,
        "Generated sources, objects and archives are assembled, linked, archived, stripped and listed three or four times: in directories of different names and depths, by relative and absolute paths, with different environments, over old output files of random content; outputs, listings and exit status are compared byte by byte, and the object of each source with the one made from it alone. Every process has its own hash seeds and addresses. Non-trivial: distinct outputs.",
        "messages are not compared"),
];

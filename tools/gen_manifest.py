#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of built checks."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LOCK = "lockstep runtime monitor: real processor against an executable reference model, access-logging memory, overflow/bounds sanitizers"
CLAIM = {
 "C01": (LOCK, "Exhaustive for byte operations, register choices and shift counts; sampled for wide operands. Trusts the reference model."),
 "C02": (LOCK, "All register names read back after every write; histories are sampled. Trusts the reference model."),
 "C03": (LOCK, "Every physical access of every executed instruction is checked; addresses are sampled with bias to boundaries."),
 "C04": (LOCK, "All conditions x all flags; addresses sampled."),
 "C05": (LOCK, "All two-byte instruction prefixes from sampled states, and long random runs; says nothing about unexecuted states."),
 "C06": (LOCK, "Sampled tables; every access of each execution is compared with an independent walk."),
 "C07": (LOCK, "All combinations of the two levels' flags, access kinds and modes; addresses sampled."),
 "C08": (LOCK, "All bytes of the entries involved are compared after each write; tables sampled."),
 "C09": ("runtime privilege monitor over user-mode executions of the real processor", "Every opcode and register position in user mode, random and adversarial code; sampled states."),
 "C10": ("differential runtime monitor: twin executions with and without a trap handler", "Every trap cause, random contexts and handler bodies; sampled."),
 "C11": ("runtime monitor: real memory against a byte map, logging device ports", "Sampled histories over all regions, image sizes and aliasing distances."),
 "C12": ("runtime monitor over loaded machines: page tables and memory walked and compared with the object", "Sampled layouts with bias to page boundaries, shared pages and the top of the address space."),
 "C13": ("lockstep runtime monitor of programs under the emulated kernel against a kernel model", "All call numbers in sampled states; call and trap histories sampled."),
 "C14": ("runtime access monitor: every physical access of loaded programs classified by the frames mapped", "Sampled programs including arbitrary bytes; says nothing about unexecuted states."),
 "C15": ("runtime termination monitor: the real t and tdbg processes run programs with planned end points, their exit status and console output against a model of the machine and kernel", "Sampled programs, arguments and console inputs."),
 "C16": ("runtime oracle over the assembler process: its object files against an independent encoder", "Exhaustive for registers and immediates of every form; spellings and rejected lines sampled."),
 "C17": ("runtime oracle over the assembler process: its object files against a model of layout, symbols and relocations", "Sampled sources."),
 "C18": ("runtime oracle over the assembler process: exit status, files and located diagnostics for sources with known invalid lines", "Sampled sources and positions; wording of diagnostics is not checked."),
 "C19": ("hostile-input stress of the assembler under trap sanitizers and a processor-time monitor", "Sampled texts; proportionality judged by a fixed 20 s limit on inputs of about 1-3 MB."),
 "C20": ("runtime round-trip oracle: real disassembler and real assembler against an independent encoder", "Every mnemonic form and register combination; immediates, addresses and label placements sampled."),
 "C21": ("runtime state monitor around the disassembler: registers, flags, memory and access log before and after", "Sampled instructions, tables and partly unfetchable code."),
 "C22": ("runtime oracle over the object library: files decoded by an independent codec and read back", "All subsets of optional parts; sizes, names and contents sampled with bias to limits."),
 "C23": ("hostile-input runtime monitor of the object and archive readers against an independent strict parser", "Every truncation of sampled files, every kind of section damage; byte damage sampled."),
 "C24": ("fault injection at every output byte and file operation, reads and standard output included, of all tools, outputs, and what the emulator, debugger and dumper print, compared with the undisturbed run", "Every file size limit and every file operation of sampled small outputs; large outputs at both ends, buffer boundaries and a sample."),
 "C25": ("runtime oracle over the linker process: its output against an independent link", "Sampled object sets with bias to alignment boundaries, empty and very large segments."),
 "C26": ("runtime oracle over the linker process: success, failure and output against a symbol resolution model", "Sampled object sets; every kind of defect planted singly and in combination."),
 "C27": ("differential runtime oracle: step-wise against single links of the real linker, and both against an independent link", "Sampled inputs and groupings."),
 "C28": ("runtime oracle over archiver and linker processes: members included against the closure of what is needed", "Sampled dependency graphs."),
 "C29": ("runtime oracle over the strip tool: files before and after, linked and run", "Sampled objects, options and orders of stripping and linking."),
    "C30": ("end-to-end runtime oracle: programs distributed over sources, includes, objects, archives and links, built and run by the real tools, against a source-level model", "Sampled programs and distributions."),
    "C31": ("lockstep runtime monitor of debugger sessions: the transcript against a model of the machine", "Sampled programs and sessions; next at a return instruction is not judged."),
    "C32": ("runtime oracle over the dump tool: its listing against independently decoded objects and an independent walk of the reachable code", "Sampled objects, archives and option combinations."),
    "C33": ("runtime oracle over the memory map listing: printed lines against an independent walk of the page tables", "Sampled address spaces and page tables, all flag combinations of both levels occur."),
    "C34": ("hostile-input stress of all commands as processes built with overflow and bounds checks, with a termination monitor and an oracle over exit status and files left", "Sampled files with bias to ends of segments and of the address space; programs that are run or debugged may run on."),
    "C35": ("differential runtime monitor: each command executed repeatedly in different directories, environments and states of its output files, all effects compared byte for byte", "Sampled inputs; variation between processes is seen only when it occurs in one of the repetitions."),
}
LEVEL = {"C24": "fault_enumeration"}
NA = {}
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./run.sh --build", "checks": [], "not_applicable": []}
for i in ids:
    if i in CLAIM:
        t, n = CLAIM[i]
        m["checks"].append({"property": i, "quick_cmd": f"./run.sh {i}", "thorough_cmd": f"VERIF_TIER=thorough ./run.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": t, "level": LEVEL.get(i, "exploration"), "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
m["notes"] = "No hooks: everything is observed through the public interface of the library and the tools. run.sh ID --replay FILE reruns one recorded case."
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

#!/usr/bin/env python3
"""mutate.py [-n COUNT] [-s SEED] [-w WORKERS] [-f SUBSTRING] [-o LOG]: random one-place mutants of /repo's source, each
judged by the checks that look at that file (copies in mount namespaces, /repo and /verif stay as they are).
Prints one line per mutant: caught ID / SURVIVED / unbuildable. For finding gaps; no check depends on it."""
import os, re, sys, subprocess, random, threading, queue, time
a = sys.argv[1:]; N = 100; S = 1; W = 3; F = ""; LOG = "/tmp/mutate.log"
while a:
    k, v = a[0], a[1]; a = a[2:]
    if k == "-n": N = int(v)
    if k == "-s": S = int(v)
    if k == "-w": W = int(v)
    if k == "-f": F = v
    if k == "-o": LOG = v
CPU = "C01 C03 C04 C07 C05 C10 C09 C06 C08 C02 C12 C13 C14 C11 C21 C15"
FILES = {
 "src/blf4/mod.rs": CPU + " C31 C33", "src/blf4/isa/handlers.rs": CPU, "src/blf4/isa/mod.rs": CPU, "src/blf4/register_type.rs": "C02 C16 C20 C31", "src/u4.rs": "C01 C16 C20",
 "src/blf4/std_kernel.rs": "C13 C12 C14 C15 C31 C33", "src/blf4/std_kernel/load_user_binary.rs": "C12 C13 C14 C15", "src/machine/mod.rs": "C15 C12 C13 C14 C31", "src/machine/ekernel.rs": "C13 C15",
 "src/mem.rs": "C11 C15 C13 C31", "src/disassemble.rs": "C20 C21 C32 C31",
 "src/aalv/mod.rs": "C22 C23 C24 C28 C29", "src/aalv/obj.rs": "C22 C23 C24 C25 C29", "src/aalv/obj/sec_impl.rs": "C22 C23 C24", "src/aalv/savn.rs": "C28 C23 C24 C32",
 "src/source/mod.rs": "C17 C16 C18 C19 C30 C24", "src/source/symbols.rs": "C17 C18 C30 C19 C35", "src/source/err.rs": "C18 C19", "src/lib.rs": "C12 C17 C25",
 "src/bin/t.rs": "C15 C30", "src/bin/tar.rs": "C28 C24", "src/bin/tc.rs": "C17 C18 C19 C24 C30 C35", "src/bin/tdbg.rs": "C31 C34", "src/bin/tl.rs": "C25 C26 C27 C28 C29 C24 C30 C34 C35",
 "src/bin/tobjdump.rs": "C32 C34 C35", "src/bin/tstrip.rs": "C29 C24 C34",
}
SUBS = [(r"==", "!="), (r"!=", "=="), (r"(?<![<=-])<(?![<=])(?= )", "<="), (r"(?<= )>(?![>=])(?= )", ">="), (r"<=", "<"), (r">=", ">"), (r"&&", "||"), (r"\|\|", "&&"),
 (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"\+=", "-="), (r"-=", "+="), (r"wrapping_add", "wrapping_sub"), (r"wrapping_sub", "wrapping_add"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
 (r"is_some\(\)", "is_none()"), (r"is_none\(\)", "is_some()"), (r"is_empty\(\)", "len() == 1"), (r"(?<=[ (])!(?=[a-z(])", ""), (r"if (?!let)", "if !"), (r"<<", ">>"), (r">>", "<<"),
 (r"(?<= )\|(?= )", "&"), (r"(?<= )&(?= )", "|"), (r"\bcontinue\b", "break"), (r"\bbreak\b", "continue"), (r"\.rev\(\)", ""), (r"\.max\(", ".min("), (r"\.min\(", ".max("),
 (r"\.skip\(", ".take("), (r"to_le_bytes", "to_be_bytes"), (r"from_le_bytes", "from_be_bytes"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\bSome\((\w+)\)(?= =>)", "Some(\\1) if false"),
 (r"\.unwrap_or\((\w+)\)", ".unwrap_or_default()"), (r"0\.\.=", "0.."), (r"1\.\.=", "1.."), (r"\.trim_start\(\)", ""), (r"\.trim\(\)", ""), (r"saturating_sub", "wrapping_sub")]
NUM = re.compile(r"(?<![\w.\"])(0x[0-9a-f_]+|0b[01_]+|\d+)(?![\w\"])")
def mutants(f):
    t = open("/repo/" + f).read().split("\n"); out = []
    test = next((i for i, l in enumerate(t) if "#[cfg(test)]" in l), len(t))
    for i, l in enumerate(t[:test]):
        s = l.split("//")[0]
        if not s.strip() or s.strip().startswith(("use ", "#", "//", "pub use", "mod ", "fn ", "pub fn", "impl", "struct", "enum")): continue
        for p, r in SUBS:
            for m in re.finditer(p, s):
                out.append((i, s[:m.start()] + m.expand(r) + l[m.end():], f"{m.group(0)} -> {r}"))
        for m in NUM.finditer(s):
            v = int(m.group(0).replace("_", ""), 0)
            out.append((i, s[:m.start()] + str(v + 1) + l[m.end():], f"{m.group(0)} -> {v+1}"))
            if v: out.append((i, s[:m.start()] + str(v - 1) + l[m.end():], f"{m.group(0)} -> {v-1}"))
        x = s.strip()
        if x.endswith(";") and x[0] not in "})" and not x.startswith(("let ", "return", "const", "static", "type", "pub ")): out.append((i, "// " + l, "deleted"))
    return [(f, i, n, d) for i, n, d in out]
r = random.Random(S); allm = []
for f in FILES:
    if F in f: allm.append(mutants(f))
tot = sum(map(len, allm)); pool = [m for g in allm for m in g]; r.shuffle(pool); pool = pool[:N]
log = open(LOG, "a"); lock = threading.Lock()
def say(x):
    with lock: print(x, flush=True); log.write(x + "\n"); log.flush()
say(f"# {tot} mutants possible, {len(pool)} tried, seed {S} {F}")
q = queue.Queue()
for m in pool: q.put(m)
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True, errors="replace")
def work(k):
    d = f"/tmp/mut{os.getpid()}/{k}"; os.makedirs(d)
    sh(f"cp -a /verif {d}/verif; git clone -q /repo {d}/repo; mkdir -p {d}/verif/evidence")
    def ns(c): return sh(f"unshare -m bash -c 'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && {c}'")
    while True:
        try: f, i, n, desc = q.get_nowait()
        except queue.Empty: break
        sh(f"git -C {d}/repo checkout -q -- .")
        p = f"{d}/repo/{f}"; t = open(p).read().split("\n"); old = t[i]; t[i] = n; open(p, "w").write("\n".join(t))
        sh(f"find {d}/repo/src -name '*.rs' -exec touch {{}} +")
        res = "SURVIVED"; t0 = time.time()
        for c in FILES[f].split():
            x = ns(f"VERIF_SEED=1 timeout 600 ./run.sh {c}")
            if x.returncode == 2 and "build failed" in x.stderr: res = "unbuildable"; break
            if x.returncode == 1 and f"VIOLATION property={c}" in x.stdout: res = "caught " + c; break
            if x.returncode: res = f"ODD {c} rc={x.returncode} {x.stderr[-200:]!r}"; break
        say(f"{res:12} {f}:{i+1} [{desc}] {old.strip()[:110]} => {n.strip()[:110]} ({time.time()-t0:.0f}s)")
    sh(f"rm -rf {d}")
ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
[t.start() for t in ts]; [t.join() for t in ts]

//! C35: what the tools write depends on nothing but what they are given.

use std::{
    collections::BTreeMap,
    fs,
    path::{Path, PathBuf},
};

use crate::{
    asm::{gen_sources, GenOpts, Speller},
    chk_link::{chain_library, decorate, gen_inputs, gen_library, shape, Opts, rand_align},
    core::{Case, Run},
    objfmt::{encode_archive, Obj},
    rng::{hash_bytes, Rng},
    tools::{clip, write, Out},
};

/// One command: the tool, its arguments, which of them name files of the directory, what it writes
struct Cmd {
    tool: &'static str,
    args: Vec<String>,
    outs: Vec<String>,
}

fn show(c: &Cmd) -> String {
    format!("{} {}", c.tool, c.args.join(" "))
}

/// The state of everything that an execution can depend on besides its inputs
struct World {
    dir: PathBuf,
    absolute: bool,
    junk: bool,
    env: Vec<(String, String)>,
}

fn worlds(c: &mut Case, files: &BTreeMap<String, Vec<u8>>) -> Vec<World> {
    let base = c.dir();
    let n = c.rng.range(3, 4);
    let shim = c.run.tools.join("../../faultfs.so").display().to_string();
    (0..n)
        .map(|i| {
            let r = &mut c.rng;
            let name = match i {
                0 => "w".to_string(),
                1 => "another_directory/with a long name".to_string(),
                _ => format!("d{}", r.below(100000)),
            };
            let dir = base.join(name);
            fs::create_dir_all(&dir).expect("scratch");
            for (p, b) in files {
                write(&dir, p, b);
            }
            let mut env = Vec::new();
            if i > 0 {
                for _ in 0..r.below(4) {
                    let k = *r.pick(&["HOME", "USER", "TERM", "TZ", "SOURCE_DATE_EPOCH", "TMPDIR", "X", "CI", "DEBUG", "COLUMNS", "NO_COLOR"]);
                    env.push((k.to_string(), r.pick(&["", "0", "/tmp", "xyz"]).to_string()));
                }
                if i == 2 || r.chance(1, 6) {
                    // every variable there may be
                    env.push(("ENV_ALL".into(), r.pick(&["", "0", "1", "/tmp", "xyz"]).to_string()));
                    env.push(("LD_PRELOAD".into(), shim.clone()));
                }
                if r.bool() {
                    env.push(("LANG".into(), "C".into()));
                }
            }
            World { dir, absolute: i == 2, junk: i == 1 || r.bool(), env }
        })
        .collect()
}

fn run_in(c: &mut Case, w: &World, files: &BTreeMap<String, Vec<u8>>, cmd: &Cmd) -> Out {
    if w.junk && cmd.tool != "tstrip" {
        for o in &cmd.outs {
            let n = *c.rng.pick(&[0, 1, 100, 5000]);
            let b: Vec<u8> = (0..n).map(|_| c.rng.u8()).collect();
            write(&w.dir, o, &b);
        }
    }
    let args: Vec<String> = cmd
        .args
        .iter()
        .map(|a| {
            if w.absolute && (files.contains_key(a) || cmd.outs.contains(a)) {
                w.dir.join(a).display().to_string()
            } else {
                a.clone()
            }
        })
        .collect();
    let mut t = c.run.tool(cmd.tool, &w.dir).args(&args);
    for (k, v) in &w.env {
        t = t.env(k, v);
    }
    c.eval(1);
    t.run()
}

fn outputs(w: &World, cmd: &Cmd) -> BTreeMap<String, Option<Vec<u8>>> {
    cmd.outs.iter().map(|o| (o.clone(), fs::read(w.dir.join(o)).ok())).collect()
}

/// Runs the commands in every world; what each writes and how it ends must be the same
fn compare(c: &mut Case, files: &BTreeMap<String, Vec<u8>>, cmds: &[Cmd]) {
    let ws = worlds(c, files);
    for cmd in cmds {
        let mut first: Option<(Out, BTreeMap<String, Option<Vec<u8>>>)> = None;
        for (i, w) in ws.iter().enumerate() {
            let o = run_in(c, w, files, cmd);
            if let Some(m) = o.abnormal() {
                return c.violation(format!("{}: {m}", show(cmd)));
            }
            let got = outputs(w, cmd);
            let Some((o0, want)) = &first else {
                first = Some((o, got));
                continue;
            };
            if o.end != o0.end {
                return c.violation(format!("{} ends with {:?} in one directory and with {:?} in another\n{}\n{}", show(cmd), o0.end, o.end, o0.show(), o.show()));
            }
            if cmd.tool == "tobjdump" && o.stdout != o0.stdout && !w.absolute {
                return c.violation(format!("{} lists the same files in two ways:\n{}\n---\n{}", show(cmd), clip(&o0.out(), 1500), clip(&o.out(), 1500)));
            }
            if !o.ok() {
                continue;
            }
            for (f, b) in want {
                if got[f] != *b {
                    let at = b.iter().flatten().zip(got[f].iter().flatten()).position(|(a, b)| a != b);
                    return c.violation(format!(
                        "{}: {f} is not the same in two executions (number {i}{}{}): {:?} and {:?} bytes, first difference at {at:?}\n{:02x?}\n{:02x?}",
                        show(cmd),
                        if w.absolute { ", by absolute paths" } else { "" },
                        if w.junk { ", over an old file" } else { "" },
                        b.as_ref().map(|b| b.len()),
                        got[f].as_ref().map(|b| b.len()),
                        clip(&format!("{:02x?}", b.as_deref().unwrap_or_default()), 1500),
                        clip(&format!("{:02x?}", got[f].as_deref().unwrap_or_default()), 1500),
                    ));
                }
                c.count("outputs compared byte by byte", 1);
            }
        }
        if let Some((o, out)) = &first {
            c.count(&format!("{} {}", cmd.tool, if o.ok() { "succeeded" } else { "failed" }), 1);
            for b in out.values().flatten() {
                c.nontrivial(hash_bytes(b));
            }
        }
    }
}

fn to(p: &str) -> String {
    Path::new(p).with_extension("to").display().to_string()
}

fn dump_of(r: &mut Rng, f: &[String]) -> Cmd {
    let mut args: Vec<String> = vec![r.pick(&["-t", "-d", "-td"]).to_string()];
    if args[0].contains('d') && r.bool() {
        args.push("-R".into());
    }
    args.extend(f.iter().cloned());
    Cmd { tool: "tobjdump", args, outs: vec![] }
}

fn sources(c: &mut Case) {
    let n = c.rng.range(1, 4);
    let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut roots = Vec::new();
    for k in 0..n {
        let g = GenOpts { files: 4, items: if c.rng.chance(1, 5) { 100 } else { 30 }, big: false, undefined: c.rng.bool(), entry: c.rng.bool() };
        let src = gen_sources(&mut c.rng, &g, &format!("m{k}_"));
        let mut sp = Speller::new(c.rng.clone());
        for f in &src {
            files.insert(f.path.clone(), f.text(&mut sp).into_bytes());
        }
        roots.push(src[0].path.clone());
    }
    if c.rng.chance(1, 4) {
        // one that is refused, in between
        files.insert("bad.telda".into(), b".seg text\nx: frob\n call nowhere\n".to_vec());
        let at = c.rng.below(roots.len() + 1);
        roots.insert(at, "bad.telda".into());
    }
    let outs: Vec<String> = roots.iter().filter(|r| *r != "bad.telda").map(|r| to(r)).collect();
    let dump = dump_of(&mut c.rng, &outs);
    let all = Cmd { tool: "tc", args: roots.clone(), outs: outs.clone() };
    compare(c, &files, &[all, dump]);
    if c.failed() {
        return;
    }
    // what else is assembled by the same command does not matter
    let base = c.dir();
    let together = base.join("w");
    let alone = base.join("alone");
    for (p, b) in &files {
        write(&alone, p, b);
    }
    for (r, out) in roots.iter().filter(|r| *r != "bad.telda").zip(&outs) {
        let o = c.run.tool("tc", &alone).arg(r).run();
        c.eval(1);
        let (a, b) = (fs::read(alone.join(out)).ok(), fs::read(together.join(out)).ok());
        if !o.ok() || a.is_none() || a != b {
            return c.violation(format!(
                "{r} assembled alone ({:?}) is not the same as with {roots:?}: {:?} and {:?} bytes",
                o.end,
                a.map(|x| x.len()),
                b.map(|x| x.len())
            ));
        }
        c.count("objects compared with those of the source alone", 1);
    }
}

fn objects(c: &mut Case) {
    let (mut inputs, archives): (Vec<Obj>, Vec<Vec<Obj>>) = match c.rng.below(4) {
        0 => gen_library(&mut c.rng),
        1 => chain_library(&mut c.rng),
        _ => {
            let s = shape(&mut c.rng);
            (gen_inputs(&mut c.rng, &s), vec![])
        }
    };
    for o in &mut inputs {
        decorate(&mut c.rng, o);
    }
    let mut files = BTreeMap::new();
    let mut names = Vec::new();
    for (i, o) in inputs.iter().enumerate() {
        let n = format!("i{i}.to");
        files.insert(n.clone(), o.encode());
        names.push(n);
    }
    let mut args: Vec<String> = Vec::new();
    for (i, a) in archives.iter().enumerate() {
        let n = format!("a{i}.savn");
        files.insert(n.clone(), encode_archive(a));
        args.extend(["-l".into(), n]);
    }
    let r = &mut c.rng;
    let o = Opts { exe: inputs.iter().any(|o| o.entry.is_some()) && r.bool(), entry: None, strip: r.chance(1, 3), align: rand_align(r) };
    args.extend(o.args(r));
    args.extend(["-o".into(), "out.to".into()]);
    args.extend(names.iter().cloned());
    let link = Cmd { tool: "tl", args, outs: vec!["out.to".into()] };
    let mut a: Vec<String> = names.clone();
    a.extend(["-o".into(), "all.savn".into()]);
    let archive = Cmd { tool: "tar", args: a, outs: vec!["all.savn".into()] };
    let mut strip = Cmd { tool: "tstrip", args: names.clone(), outs: names.clone() };
    if r.bool() {
        strip.args.splice(0..0, ["-a".to_string(), "-f".to_string()]);
    }
    let mut listed = names.clone();
    listed.push("all.savn".into());
    listed.extend(files.keys().filter(|k| k.ends_with(".savn")).cloned());
    let dump = dump_of(r, &listed);
    if c.rng.chance(1, 3) {
        over_input(c, &files, &link, "out.to");
        over_input(c, &files, &archive, "all.savn");
        if c.failed() {
            return;
        }
    }
    compare(c, &files, &[link, archive, dump, strip]);
}

/// What was in the output file before is one of the inputs
fn over_input(c: &mut Case, files: &BTreeMap<String, Vec<u8>>, cmd: &Cmd, out: &str) {
    let inputs: Vec<&String> = cmd.args.iter().filter(|a| files.contains_key(*a)).collect();
    let over = c.rng.pick(&inputs).to_string();
    let mut ends = Vec::new();
    for o in [out, &over] {
        let dir = c.dir().join(if o == out { "beside" } else { "over" });
        for (p, b) in files {
            write(&dir, p, b);
        }
        let args = cmd.args.iter().map(|a| if a == out { o } else { a });
        c.eval(1);
        let x = c.run.tool(cmd.tool, &dir).args(args).fsize(8 << 20).run();
        let b = fs::read(dir.join(o)).ok();
        fs::remove_dir_all(&dir).expect("scratch");
        ends.push((x, b));
    }
    let (a, b) = (&ends[0], &ends[1]);
    if let Some(m) = b.0.abnormal() {
        return c.violation(format!("{} with {over} as the output: {m}", show(cmd)));
    }
    if a.0.end != b.0.end || a.0.ok() && a.1 != b.1 {
        return c.violation(format!(
            "{} gives {:?} and {:?} bytes, with the input {over} as its output {:?} and {:?} bytes",
            show(cmd),
            a.0.end,
            a.1.as_ref().map(|b| b.len()),
            b.0.end,
            b.1.as_ref().map(|b| b.len())
        ));
    }
    c.count("outputs over an input", 1);
}

pub fn c35(run: &Run) {
    run.cases("sources", run.n(700, 12_000), sources);
    run.cases("objects", run.n(900, 20_000), objects);
}

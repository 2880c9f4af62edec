//! C24: tools that write files, run while writing fails at every possible place.

use std::{fs, os::unix::fs::FileTypeExt, path::{Path, PathBuf}};

use crate::{
    asm::{self, gen_sources, GenOpts, Model, Speller},
    chk_link::{self, decorate, gen_inputs, rand_align, reasons, shape, write_inputs, Opts},
    core::{Case, Run},
    objfmt::{encode_archive, Obj},
    rng::hash_bytes,
    tools::{clip, write, End, Out},
};

struct Job {
    tool: &'static str,
    args: Vec<String>,
    /// the files it writes, and what they contain before
    outs: Vec<(String, Option<Vec<u8>>)>,
    dir: PathBuf,
}

fn content(p: &Path) -> Option<Vec<u8>> {
    let m = fs::metadata(p).ok()?;
    if m.file_type().is_char_device() {
        return None;
    }
    fs::read(p).ok()
}

impl Job {
    fn reset(&self) {
        for (n, b) in &self.outs {
            let p = self.dir.join(n);
            match b {
                Some(b) => fs::write(p, b).expect("scratch"),
                None => {
                    let _ = fs::remove_file(p);
                }
            }
        }
    }
    fn show(&self) -> String {
        format!("{} {}", self.tool, self.args.join(" "))
    }
    fn outputs(&self) -> Vec<Option<Vec<u8>>> {
        self.outs.iter().map(|(n, _)| content(&self.dir.join(n))).collect()
    }
}

fn diff(want: &[Option<Vec<u8>>], got: &[Option<Vec<u8>>]) -> Option<String> {
    for (i, (w, g)) in want.iter().zip(got).enumerate() {
        if w == g {
            continue;
        }
        return Some(match (w, g) {
            (Some(w), Some(g)) => {
                let k = (0..).find(|&k| w.get(k) != g.get(k)).unwrap();
                format!("output {i} has {} of {} bytes, different from byte {k}", g.len(), w.len())
            }
            (_, None) => format!("output {i} is missing"),
            (None, _) => format!("output {i} should not exist"),
        });
    }
    None
}

struct Seen {
    failed: u64,
    completed: u64,
}

/// The decision: an exit with success needs the complete output
fn judge(c: &mut Case, j: &Job, want: &[Option<Vec<u8>>], out: &Out, what: &str, seen: &mut Seen) -> bool {
    c.eval(1);
    if out.end == End::Hang || out.capped {
        c.violation(format!("{} does not end when {what}\n{}", j.show(), out.show()));
        return false;
    }
    if out.ok() {
        if let Some(d) = diff(want, &j.outputs()) {
            c.violation(format!("{} succeeds, though {what}: {d}\n{}", j.show(), out.show()));
            return false;
        }
        seen.completed += 1;
    } else {
        seen.failed += 1;
    }
    true
}

fn sweep(c: &mut Case, j: &Job, budget: usize) {
    // undisturbed
    j.reset();
    let out = c.run.tool(j.tool, &j.dir).args(&j.args).run();
    c.eval(1);
    if !out.ok() {
        // whether it should is the matter of other properties
        c.count("undisturbed run fails", 1);
        return;
    }
    let want = j.outputs();
    if want.iter().any(|w| w.is_none()) {
        return c.violation(format!("{} succeeds without writing its output\n{}", j.show(), out.show()));
    }
    let max = want.iter().map(|w| w.as_ref().map_or(0, |w| w.len())).max().unwrap_or(0);
    let mut seen = Seen { failed: 0, completed: 0 };
    // over other contents
    if j.tool != "tstrip" {
        let junk: Vec<u8> = (0..c.rng.below(3 * max + 20)).map(|_| c.rng.u8()).collect();
        let over = Job { tool: j.tool, args: j.args.clone(), dir: j.dir.clone(), outs: j.outs.iter().map(|o| (o.0.clone(), Some(junk.clone()))).collect() };
        over.reset();
        let out = c.run.tool(j.tool, &j.dir).args(&j.args).run();
        if !judge(c, &over, &want, &out, &format!("the outputs had {} other bytes before", junk.len()), &mut seen) {
            return;
        }
        c.count("runs over existing files", 1);
    }
    // a size limit at every byte
    let mut limits: Vec<u64> = Vec::new();
    if max + 2 <= budget {
        limits.extend(0..=max as u64 + 1);
    } else {
        limits.extend(0..budget as u64 / 3);
        limits.extend((max - budget / 3) as u64..=max as u64 + 1);
        // where buffers fill
        for k in (4096..max).step_by(4096).take(4) {
            limits.extend(k as u64 - 1..=k as u64 + 1);
        }
        for _ in 0..budget / 3 {
            limits.push(c.rng.below(max) as u64);
        }
        limits.sort();
        limits.dedup();
    }
    let all = limits.len() as u64;
    for n in limits {
        j.reset();
        let out = c.run.tool(j.tool, &j.dir).args(&j.args).fsize(n).run();
        if !judge(c, j, &want, &out, &format!("no file can have more than {n} bytes (the output has {max})"), &mut seen) {
            return;
        }
    }
    c.count("file size limits", all);
    c.count("failed runs reported", seen.failed);
    c.count("complete runs", seen.completed);
    faults(c, j, &want);
    c.nontrivial(hash_bytes(j.show().as_bytes()) ^ want.iter().flatten().fold(0, |h, w| h ^ hash_bytes(w)));
    c.sample(j.tool, || format!("{}: {max} bytes, limits 0..={}", j.show(), max + 1));
}

/// Every operation on a file fails once, or from then on, or is done in part
fn faults(c: &mut Case, j: &Job, want: &[Option<Vec<u8>>]) {
    let shim = c.run.tools.join("../../faultfs.so");
    let log = j.dir.join("ops");
    let run = |at: i64, errno: i32, sticky: bool| {
        c.run
            .tool(j.tool, &j.dir)
            .args(&j.args)
            .env("LD_PRELOAD", shim.display().to_string())
            .env("FAULT_AT", at.to_string())
            .env("FAULT_ERRNO", errno.to_string())
            .env("FAULT_STICKY", if sticky { "1" } else { "0" })
            .env("FAULT_LOG", log.display().to_string())
            .run()
    };
    j.reset();
    let _ = fs::remove_file(&log);
    let out = run(-1, 0, false);
    let ops: i64 = fs::read_to_string(&log).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(-1);
    let mut seen = Seen { failed: 0, completed: 0 };
    if ops < 0 {
        panic!("the fault injector was not loaded: {}", out.show());
    }
    let mut plan: Vec<(i64, i32, bool)> = Vec::new();
    let mut places: Vec<i64> = (0..ops).collect();
    if places.len() > 40 {
        c.rng.shuffle(&mut places);
        places.truncate(40);
    }
    for at in places {
        for (errno, sticky) in [(28, false), (28, true), (5, false), (4, false), (27, true), (0, false)] {
            plan.push((at, errno, sticky));
        }
    }
    let n = plan.len() as u64;
    let mut runs = Vec::new();
    for (at, errno, sticky) in plan {
        j.reset();
        let out = run(at, errno, sticky);
        let what = match errno {
            0 => format!("file operation {at} of {ops} is done in part"),
            _ => format!("file operation {at} of {ops} {} with errno {errno}", if sticky { "and all after it fail" } else { "fails" }),
        };
        runs.push((what, out, j.outputs()));
        let (what, out, _) = runs.last().unwrap();
        let (what, out) = (what.clone(), out.clone());
        if out.ok() {
            if let Some(d) = diff(want, &runs.last().unwrap().2) {
                c.eval(1);
                return c.violation(format!("{} succeeds, though {what}: {d}\n{}", j.show(), out.show()));
            }
            seen.completed += 1;
        } else if out.end == End::Hang || out.capped {
            return c.violation(format!("{} does not end when {what}\n{}", j.show(), out.show()));
        } else {
            seen.failed += 1;
        }
        runs.clear();
    }
    c.eval(n);
    c.count("file operations seen", ops as u64);
    c.count("injected faults", n);
    c.count("injected faults survived with complete output", seen.completed);
    c.count("injected faults reported", seen.failed);
}

fn small_sources(c: &mut Case, big: bool) -> (Vec<asm::Src>, usize) {
    loop {
        let g = GenOpts { files: 3, items: if big { 80 } else { 10 }, big, undefined: c.rng.bool(), entry: c.rng.bool() };
        let f = gen_sources(&mut c.rng, &g, "s");
        let n = Model::assemble(&f, 0).footprint();
        if n < if big { 0xf000 } else { 0x1000 } {
            return (f, n);
        }
    }
}

fn tc_job(c: &mut Case, big: bool) -> Job {
    let dir = c.dir();
    let n = if big { 1 } else { 1 + c.rng.below(3) };
    let mut args = Vec::new();
    let mut outs = Vec::new();
    for i in 0..n {
        let (files, _) = small_sources(c, big);
        let sub = format!("d{i}");
        fs::create_dir_all(dir.join(&sub)).expect("scratch");
        let mut sp = Speller::new(c.rng.clone());
        asm::write_sources(&dir.join(&sub), &files, &mut sp);
        // includes are found from the working directory as well
        asm::write_sources(&dir, &files[1..], &mut Speller::plain());
        let root = format!("{sub}/{}", files[0].path);
        let out = Path::new(&root).with_extension("to").display().to_string();
        args.push(root);
        outs.push((out, None));
    }
    Job { tool: "tc", args, outs, dir }
}

fn linkable(c: &mut Case, big: bool) -> (Vec<Obj>, Opts) {
    loop {
        let mut s = shape(&mut c.rng);
        s.files = 1 + c.rng.below(3);
        s.max_seg = if big { 9000 } else { 60 };
        s.entries = 80;
        let v = gen_inputs(&mut c.rng, &s);
        let o = Opts { exe: c.rng.bool(), align: rand_align(&mut c.rng).map(|a| a.min(0x400)), strip: c.rng.bool(), ..Opts::default() };
        let n = chk_link::Layout::new(&v).total();
        if reasons(&v, &o).is_empty() && n < 0xc000 && (big || n < 700) {
            return (v, o);
        }
    }
}

fn tl_job(c: &mut Case, big: bool) -> Job {
    let dir = c.dir();
    let (v, o) = linkable(c, big);
    let mut args = write_inputs(&dir, &v, "i");
    args.extend(o.args(&mut c.rng));
    if c.rng.bool() {
        args.push("-o".into());
        args.push("out".into());
        Job { tool: "tl", args, outs: vec![("out".into(), None)], dir }
    } else {
        Job { tool: "tl", args, outs: vec![("a.to".into(), None)], dir }
    }
}

fn tar_job(c: &mut Case, big: bool) -> Job {
    let dir = c.dir();
    let (v, _) = linkable(c, big);
    let mut args = vec!["-o".to_string(), "l.savn".into()];
    args.extend(write_inputs(&dir, &v, "i"));
    Job { tool: "tar", args, outs: vec![("l.savn".into(), None)], dir }
}

fn tstrip_job(c: &mut Case, big: bool) -> Job {
    let dir = c.dir();
    let (mut v, _) = linkable(c, big);
    let mut args: Vec<String> = Vec::new();
    if c.rng.bool() {
        args.push("-a".into());
        args.push("-f".into());
    }
    for o in v.iter_mut() {
        decorate(&mut c.rng, o);
        if !big {
            o.preamble.truncate(30);
        }
    }
    let names = write_inputs(&dir, &v, "f");
    let outs = names.iter().zip(&v).map(|(n, o)| (n.clone(), Some(o.encode()))).collect();
    args.extend(names);
    Job { tool: "tstrip", args, outs, dir }
}

/// Outputs that cannot be written at all
fn places(c: &mut Case) {
    let kind = c.rng.below(3);
    let mut j = match kind {
        0 => tc_job(c, false),
        1 => tl_job(c, false),
        _ => tar_job(c, false),
    };
    // setting the mode of a device is nothing to try out
    j.args.retain(|a| a != "-e" && a != "--executable");
    j.reset();
    let out = c.run.tool(j.tool, &j.dir).args(&j.args).run();
    c.eval(1);
    if !out.ok() {
        c.count("undisturbed run fails", 1);
        return;
    }
    let want = j.outputs();
    let mut seen = Seen { failed: 0, completed: 0 };
    let victim = c.rng.below(j.outs.len());
    for how in ["a full device", "a directory", "in a directory that does not exist", "a link to a file in a directory that does not exist"] {
        j.reset();
        let p = j.dir.join(&j.outs[victim].0);
        let mut args = j.args.clone();
        match how {
            "a full device" => std::os::unix::fs::symlink("/dev/full", &p).expect("scratch"),
            "a directory" => fs::create_dir(&p).expect("scratch"),
            "a link to a file in a directory that does not exist" => std::os::unix::fs::symlink("nowhere/x", &p).expect("scratch"),
            _ => {
                let Some(a) = args.iter_mut().find(|a| **a == j.outs[victim].0) else { continue };
                *a = format!("nowhere/{a}");
            }
        }
        let out = c.run.tool(j.tool, &j.dir).args(&args).run();
        if how == "in a directory that does not exist" {
            c.eval(1);
            if out.ok() && content(&j.dir.join("nowhere").join(&j.outs[victim].0)) != want[victim] {
                return c.violation(format!("{} {} succeeds without output", j.tool, args.join(" ")));
            }
            continue;
        }
        let t = Job { tool: j.tool, args, outs: j.outs.clone(), dir: j.dir.clone() };
        if !judge(c, &t, &want, &out, &format!("output {victim} is {how}"), &mut seen) {
            return;
        }
        match how {
            "a directory" => {
                let _ = fs::remove_dir(&p);
            }
            _ => {
                let _ = fs::remove_file(&p);
            }
        }
    }
    c.count("outputs that cannot be written", 4);
    c.count("failed runs reported", seen.failed);
    c.nontrivial_str(&clip(&format!("{} {victim} {:x}", j.show(), want.iter().flatten().fold(0, |h, w| h ^ hash_bytes(w))), 400));
}

/// Commands that print, while what they print cannot be written at some place
fn printed(c: &mut Case) {
    let dir = c.dir();
    let mut args: Vec<String> = Vec::new();
    let mut input = Vec::new();
    let tool = *c.rng.pick(&["t", "t", "t", "tobjdump", "tdbg"]);
    if tool == "tobjdump" {
        let (v, _) = linkable(c, false);
        args.push((*c.rng.pick(&["-t", "-d", "-dt", "-dR"])).into());
        args.extend(write_inputs(&dir, &v, "i"));
    } else {
        let mut r = c.rng.clone();
        let (b, i, used) = crate::chk_run::halting(&mut r);
        write(&dir, "p.to", b);
        args.push("p.to".into());
        if tool == "t" {
            input = i;
            if c.rng.chance(1, 4) {
                args.push("-t".into());
            }
        } else {
            if used {
                return;
            }
            input = (0..c.rng.range(1, 25)).flat_map(|_| format!("{}\n", c.rng.pick(&["si", "n", "so", "rs", "flags", "rpc", "r 0x80", "?"])).into_bytes()).collect();
        }
    }
    let so = write(&dir, "so", b"");
    let shim = c.run.tools.join("../../faultfs.so");
    let log = dir.join("ops");
    let cmd = format!("{tool} {}", args.join(" "));
    let tool = |c: &Case| c.run.tool(tool, &dir).args(&args).stdin(input.clone());
    let out = tool(c).stdout_to(so.clone()).run();
    c.eval(1);
    if !out.ok() {
        c.count("undisturbed run fails", 1);
        return;
    }
    let want = fs::read(&so).expect("scratch");
    if want.is_empty() {
        c.count("prints nothing", 1);
        return;
    }
    let (mut failed, mut complete) = (0, 0);
    let mut judge = |c: &mut Case, out: Out, full: bool, what: String| -> bool {
        c.eval(1);
        let got = if full { Vec::new() } else { fs::read(&so).expect("scratch") };
        if out.end == End::Hang || out.capped {
            c.violation(format!("{cmd} does not end when {what}\n{}", out.show()));
            return false;
        }
        if !out.ok() {
            failed += 1;
        } else if got == want {
            complete += 1;
        } else {
            c.violation(format!("{cmd} succeeds, though {what} and it prints {} bytes instead of {}", got.len(), want.len()));
            return false;
        }
        true
    };
    let clear = || fs::write(&so, b"").expect("scratch");
    if !{
        let out = tool(c).stdout_to("/dev/full".into()).run();
        judge(c, out, true, "it prints to a full device".into())
    } {
        return;
    }
    let n = want.len() as u64;
    let mut limits: Vec<u64> = if n < 60 { (0..=n).collect() } else { (0..10).chain(n - 40..=n).collect() };
    for _ in 0..10 {
        limits.push(c.rng.below(want.len()) as u64);
    }
    for l in limits {
        clear();
        let out = tool(c).stdout_to(so.clone()).fsize(l).run();
        if !judge(c, out, false, format!("only {l} bytes can be printed")) {
            return;
        }
    }
    let faulty = |c: &Case, at: i64, errno: i32, sticky: bool| {
        tool(c)
            .stdout_to(so.clone())
            .env("LD_PRELOAD", shim.display().to_string())
            .env("FAULT_AT", at.to_string())
            .env("FAULT_ERRNO", errno.to_string())
            .env("FAULT_STICKY", if sticky { "1" } else { "0" })
            .env("FAULT_LOG", log.display().to_string())
            .run()
    };
    clear();
    let _ = fs::remove_file(&log);
    faulty(c, -1, 0, false);
    let ops: i64 = fs::read_to_string(&log).ok().and_then(|s| s.trim().parse().ok()).expect("the fault injector was not loaded");
    let mut places: Vec<i64> = (0..ops).collect();
    c.rng.shuffle(&mut places);
    places.truncate(12);
    places.push(ops - 1);
    for at in places {
        for (errno, sticky) in [(28, false), (28, true), (5, false), (4, false), (0, false)] {
            clear();
            let out = faulty(c, at, errno, sticky);
            if !judge(c, out, false, format!("writing {at} of {ops} goes wrong with {errno}")) {
                return;
            }
        }
    }
    c.count("runs reported as failed for what was not printed", failed);
    c.count("runs that printed everything", complete);
    c.nontrivial(hash_bytes(&want));
    c.sample("printed", || format!("{cmd}: {n} bytes in {ops} operations"));
}

/// Inputs that cannot be read to the end, or not at once
fn inputs(c: &mut Case) {
    let big = c.rng.chance(1, 4);
    let kind = *c.rng.pick(&["tc", "tl", "lib", "tar", "tstrip", "tobjdump", "t", "tdbg"]);
    let mut stdin: Vec<u8> = Vec::new();
    let mut prints = true;
    let j = match kind {
        "tc" => tc_job(c, big),
        "tl" => tl_job(c, big),
        "tar" => tar_job(c, big),
        "tstrip" => tstrip_job(c, big),
        "lib" => {
            let dir = c.dir();
            let (v, libs) = chk_link::chain_library(&mut c.rng);
            let mut args = write_inputs(&dir, &v, "i");
            for (k, l) in libs.iter().enumerate() {
                write(&dir, &format!("l{k}.savn"), encode_archive(l));
                args.push(format!("-ll{k}.savn"));
            }
            Job { tool: "tl", args, outs: vec![("a.to".into(), None)], dir }
        }
        "tobjdump" => {
            let dir = c.dir();
            let (v, _) = linkable(c, big);
            let mut args = vec![c.rng.pick(&["-t", "-d", "-dt", "-dR"]).to_string()];
            if c.rng.bool() {
                write(&dir, "l.savn", encode_archive(&v));
                args.push("l.savn".into());
            } else {
                args.extend(write_inputs(&dir, &v, "i"));
            }
            Job { tool: "tobjdump", args, outs: vec![], dir }
        }
        _ => {
            let dir = c.dir();
            let (b, i, _) = crate::chk_run::halting(&mut c.rng);
            write(&dir, "p.to", b);
            if kind == "t" {
                stdin = i;
            } else {
                prints = false;
                stdin = b"q\n".to_vec();
            }
            Job { tool: if kind == "t" { "t" } else { "tdbg" }, args: vec!["p.to".into()], outs: vec![], dir }
        }
    };
    let shim = c.run.tools.join("../../faultfs.so");
    let log = j.dir.join("ops");
    let run = |c: &Case, at: i64, errno: i32, sticky: bool| {
        j.reset();
        c.run
            .tool(j.tool, &j.dir)
            .args(&j.args)
            .stdin(stdin.clone())
            .env("LD_PRELOAD", shim.display().to_string())
            .env("FAULT_READS", "1")
            .env("FAULT_AT", at.to_string())
            .env("FAULT_ERRNO", errno.to_string())
            .env("FAULT_STICKY", if sticky { "1" } else { "0" })
            .env("FAULT_LOG", log.display().to_string())
            .run()
    };
    let _ = fs::remove_file(&log);
    let first = run(c, -1, 0, false);
    c.eval(1);
    if !first.ok() {
        c.count("undisturbed run fails", 1);
        return;
    }
    let want = j.outputs();
    let ops: i64 = fs::read_to_string(&log).ok().and_then(|s| s.trim().parse().ok()).expect("the fault injector was not loaded");
    if ops == 0 {
        return c.violation(format!("{} succeeds without reading its inputs\n{}", j.show(), first.show()));
    }
    let mut places: Vec<i64> = (0..ops).collect();
    c.rng.shuffle(&mut places);
    places.truncate(10);
    let (mut failed, mut complete) = (0, 0);
    for at in places {
        for (errno, sticky) in [(5, false), (5, true), (4, false), (0, false), (-1, false), (-1, true)] {
            let out = run(c, at, errno, sticky);
            c.eval(1);
            let what = match errno {
                0 => format!("read {at} of {ops} yields only a part"),
                -1 => format!("read {at} of {ops} {} one byte", if sticky { "and each after it yields" } else { "yields" }),
                _ => format!("read {at} of {ops} {} with errno {errno}", if sticky { "and all after it fail" } else { "fails" }),
            };
            if out.end == End::Hang || out.capped {
                return c.violation(format!("{} does not end when {what}\n{}", j.show(), out.show()));
            }
            if out.ok() {
                complete += 1;
                if let Some(d) = diff(&want, &j.outputs()) {
                    return c.violation(format!("{} succeeds, though {what}: {d}\n{}", j.show(), out.show()));
                }
                if prints && out.stdout != first.stdout {
                    return c.violation(format!("{} succeeds, though {what}, and prints something else\n{}\nundisturbed\n{}", j.show(), out.show(), first.show()));
                }
            } else if errno <= 0 {
                // nothing is wrong with that
                return c.violation(format!("{} fails when {what}\n{}", j.show(), out.show()));
            } else {
                failed += 1;
            }
        }
    }
    c.count("reads seen", ops as u64);
    c.count("runs reported as failed for what was not read", failed);
    c.count("runs that had read everything", complete);
    c.nontrivial(hash_bytes(j.show().as_bytes()) ^ hash_bytes(&first.stdout) ^ want.iter().flatten().fold(0, |h, w| h ^ hash_bytes(w)));
    c.sample("inputs", || format!("{}: {ops} reads", j.show()));
}

pub fn c24(run: &Run) {
    run.cases("places", run.n(250, 3000), places);
    run.cases("printed", run.n(60, 1500), printed);
    run.cases("inputs", run.n(120, 3000), inputs);
    type Make = fn(&mut Case, bool) -> Job;
    let jobs: [(&str, Make); 4] = [("tc", tc_job), ("tl", tl_job), ("tar", tar_job), ("tstrip", tstrip_job)];
    for (name, make) in jobs {
        run.cases(name, run.n(24, 500), |c| {
            let j = make(c, false);
            sweep(c, &j, 1500);
        });
        run.cases(&format!("{name}, large"), run.n(10, 150), |c| {
            let j = make(c, true);
            sweep(c, &j, 240);
        });
    }
}

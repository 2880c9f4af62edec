//! vmon: runs the real code of telda under generated workloads while monitors compare what it
//! does with independent models. `vmon ID` is the supervisor; it runs `vmon ID --child`.
#![allow(dead_code)]
mod checks;
mod chk_lines;
mod core;
mod rng;
mod tools;

#[cfg(feature = "cpu")]
mod chk_cpu;
#[cfg(feature = "cpu")]
mod chk_dis;
#[cfg(feature = "cpu")]
mod chk_load;
#[cfg(feature = "cpu")]
mod chk_map;
#[cfg(feature = "cpu")]
mod chk_mem;
#[cfg(feature = "cpu")]
mod sutcpu;

#[cfg(feature = "obj")]
mod chk_obj;

#[cfg(not(any(feature = "cpu", feature = "obj")))]
mod chk_any;
#[cfg(not(any(feature = "cpu", feature = "obj")))]
mod chk_asm;
#[cfg(not(any(feature = "cpu", feature = "obj")))]
mod chk_dbg;
#[cfg(not(any(feature = "cpu", feature = "obj")))]
mod chk_dump;
#[cfg(not(any(feature = "cpu", feature = "obj")))]
mod chk_fault;
#[cfg(not(any(feature = "cpu", feature = "obj")))]
mod chk_link;
#[cfg(not(any(feature = "cpu", feature = "obj")))]
mod chk_run;
#[cfg(not(any(feature = "cpu", feature = "obj")))]
mod chk_same;

mod asm;
mod cpu;
mod disline;
mod objfmt;
mod prog;
mod spec;
mod vm;

use std::{
    collections::BTreeMap,
    fs,
    os::unix::process::ExitStatusExt,
    path::{Path, PathBuf},
    process::{exit, Command, ExitStatus, Stdio},
    sync::Arc,
    time::{Duration, Instant},
};

use crate::core::{esc, json_str, unesc, Run};

struct Opts {
    id: String,
    tools: PathBuf,
    verif: PathBuf,
    child: bool,
    result: PathBuf,
    scratch: PathBuf,
    replay: Option<(String, u64)>,
    seed: u64,
    thorough: bool,
}

fn main() {
    let mut o = Opts {
        id: String::new(),
        tools: PathBuf::new(),
        verif: "/verif".into(),
        child: false,
        result: PathBuf::new(),
        scratch: PathBuf::new(),
        replay: None,
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false),
    };
    let mut it = std::env::args().skip(1);
    while let Some(a) = it.next() {
        let mut v = || it.next().unwrap_or_else(|| die("missing argument"));
        match a.as_str() {
            "--tools" => o.tools = v().into(),
            "--verif" => o.verif = v().into(),
            "--child" => o.child = true,
            #[cfg(feature = "cpu")]
            "--map-child" => {
                core::install_panic_hook();
                return chk_map::child(v().parse().unwrap_or_else(|_| die("seed")));
            }
            "--result" => o.result = v().into(),
            "--scratch" => o.scratch = v().into(),
            "--replay" => {
                let s = v();
                // PHASE:CASE, or a replay file written by an earlier run
                let s = match fs::read_to_string(&s) {
                    Ok(f) => {
                        for l in f.lines() {
                            if let Some(x) = l.strip_prefix("seed ") {
                                o.seed = x.parse().unwrap_or(1);
                            }
                            if let Some(x) = l.strip_prefix("tier ") {
                                o.thorough = x == "thorough";
                            }
                        }
                        let g = |k: &str| {
                            f.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string()
                        };
                        format!("{}:{}", g("phase "), g("case "))
                    }
                    Err(_) => s,
                };
                let (p, c) = s.rsplit_once(':').unwrap_or_else(|| die("--replay PHASE:CASE"));
                o.replay = Some((p.into(), c.parse().unwrap_or_else(|_| die("case number"))));
            }
            id => o.id = id.into(),
        }
    }
    if o.child {
        child(o)
    } else {
        parent(o)
    }
}

fn die(m: &str) -> ! {
    eprintln!("vmon: {m}");
    exit(3)
}

fn child(o: Opts) {
    let Some(c) = checks::find(&o.id) else { die("no such check in this build") };
    core::install_panic_hook();
    tools::limit_memory(20 << 30);
    let run = Arc::new(Run::new(
        &o.id,
        o.thorough,
        o.seed,
        o.tools,
        o.scratch,
        o.replay,
        &o.verif.join("known-findings.txt"),
        o.result,
    ));
    run.start_watchdog();
    (c.run)(&run);
    run.finish();
    exit(0);
}

#[derive(Default)]
struct Parsed {
    evals: u64,
    distinct: u64,
    truncated: bool,
    counters: BTreeMap<String, u64>,
    phases: BTreeMap<String, u64>,
    exhaustive: Vec<String>,
    samples: Vec<String>,
    known: Vec<(String, String)>,
    violations: Vec<(String, u64, String)>,
    end: bool,
    harness_error: Option<String>,
}

fn parse(path: &Path) -> Parsed {
    let mut p = Parsed::default();
    let Ok(s) = fs::read_to_string(path) else { return p };
    for l in s.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "evals" => p.evals = r.parse().unwrap_or(0),
            "distinct" => p.distinct = r.parse().unwrap_or(0),
            "truncated" => p.truncated = r == "1",
            "counter" | "phase" => {
                if let Some((n, name)) = r.split_once(' ') {
                    let m = if k == "counter" { &mut p.counters } else { &mut p.phases };
                    m.insert(name.into(), n.parse().unwrap_or(0));
                }
            }
            "exhaustive" => p.exhaustive.push(unesc(r)),
            "sample" => p.samples.push(unesc(&r.replacen('\t', ": ", 1))),
            "known" => {
                if let Some((a, b)) = r.split_once('\t') {
                    p.known.push((a.into(), unesc(b)))
                }
            }
            "violation" => {
                let v: Vec<_> = r.splitn(3, '\t').collect();
                if v.len() == 3 {
                    p.violations.push((v[0].into(), v[1].parse().unwrap_or(0), unesc(v[2])))
                }
            }
            "end" => p.end = true,
            "harness-error" => p.harness_error = Some(r.into()),
            _ => (),
        }
    }
    p
}

fn parent(o: Opts) {
    let t0 = Instant::now();
    let Some(c) = checks::find(&o.id) else { die("no such check in this build") };
    let scratch = std::env::temp_dir().join(format!("vmon-{}-{}", o.id, std::process::id()));
    fs::create_dir_all(&scratch).unwrap_or_else(|e| die(&format!("scratch directory: {e}")));
    let result = scratch.join("result");
    let code = supervise(&o, c, &scratch, &result, t0);
    let _ = fs::remove_dir_all(&scratch);
    exit(code)
}

fn spawn(o: &Opts, scratch: &Path, result: &Path, only: Option<(&str, u64)>, limit: Duration) -> Option<ExitStatus> {
    let _ = fs::remove_file(result);
    let mut cmd = Command::new(std::env::current_exe().expect("own path"));
    cmd.arg(&o.id)
        .arg("--child")
        .arg("--tools")
        .arg(&o.tools)
        .arg("--verif")
        .arg(&o.verif)
        .arg("--scratch")
        .arg(scratch)
        .arg("--result")
        .arg(result)
        .env("VERIF_SEED", o.seed.to_string())
        .env("VERIF_TIER", if o.thorough { "thorough" } else { "quick" })
        .env("TMPDIR", scratch)
        .stdin(Stdio::null())
        .stdout(Stdio::null());
    if let Some((p, c)) = only {
        cmd.arg("--replay").arg(format!("{p}:{c}"));
    }
    let mut ch = cmd.spawn().unwrap_or_else(|e| die(&format!("cannot start the child: {e}")));
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) => {
                if t.elapsed() > limit {
                    let _ = ch.kill();
                    let _ = ch.wait();
                    return None;
                }
                std::thread::sleep(Duration::from_millis(20));
            }
            Err(e) => die(&format!("wait: {e}")),
        }
    }
}

fn supervise(o: &Opts, c: &checks::Check, scratch: &Path, result: &Path, t0: Instant) -> i32 {
    let limit = Duration::from_secs(860);
    let only = o.replay.as_ref().map(|(p, n)| (p.as_str(), *n));
    let status = spawn(o, scratch, result, only, limit);
    let mut p = parse(result);
    match status {
        None => {
            eprintln!("{}: inconclusive: out of wall-clock time", o.id);
            return 4;
        }
        Some(s) => {
            if let Some(e) = &p.harness_error {
                eprintln!("{}: error of the harness: {e}", o.id);
                return 3;
            }
            if let Some(sig) = s.signal() {
                if matches!(sig, 4 | 6 | 7 | 8 | 11) {
                    // the code under test may have taken the process down: find the case that does
                    let prog = fs::read_to_string(scratch.join("progress")).unwrap_or_default();
                    let cand: Vec<(String, u64)> = prog
                        .lines()
                        .filter_map(|l| {
                            let f: Vec<&str> = l.trim_matches('\0').split_whitespace().collect();
                            (f.len() == 2).then(|| (f[0].to_string(), f[1].parse().unwrap_or(0)))
                        })
                        .collect();
                    let mut found = None;
                    for (ph, n) in &cand {
                        if let Some(s) = spawn(o, scratch, result, Some((ph, *n)), Duration::from_secs(120)) {
                            if s.signal() == Some(sig) {
                                found = Some((ph.clone(), *n));
                                break;
                            }
                        }
                    }
                    let Some((ph, n)) = found else {
                        eprintln!("{}: child ended by signal {sig}, not reproduced", o.id);
                        return 3;
                    };
                    p.evals += 1;
                    p.violations.push((ph, n, format!("the code under test ends the process with signal {sig}")));
                } else {
                    eprintln!("{}: child ended by signal {sig}", o.id);
                    return 3;
                }
            } else if !p.end || s.code() != Some(0) {
                eprintln!("{}: child failed with {:?}", o.id, s.code());
                return 3;
            }
        }
    }

    for (sig, m) in &p.known {
        println!("KNOWN-FINDING: property={} sig={sig} {}", o.id, esc(m));
    }
    let mut paths = Vec::new();
    for (i, (ph, n, m)) in p.violations.iter().enumerate() {
        let dir = o.verif.join("replays");
        let _ = fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{i}.txt", o.id));
        let tier = if o.thorough { "thorough" } else { "quick" };
        let text = format!(
            "property {id}\nseed {seed}\ntier {tier}\nphase {ph}\ncase {n}\nrerun: {v}/run.sh {id} --replay {path}\n\n{m}\n",
            id = o.id,
            seed = o.seed,
            v = o.verif.display(),
            path = path.display(),
        );
        let _ = fs::write(&path, text);
        let m: String = m.chars().take(3000).collect();
        println!("{}: phase {ph} case {n}: {m}", o.id);
        paths.push(path);
    }
    evidence(o, c, &p, t0);
    if let Some(path) = paths.first() {
        println!("VIOLATION property={} replay={}", o.id, path.display());
        return 1;
    }
    if p.evals == 0 || p.distinct == 0 {
        eprintln!("{}: nothing was observed", o.id);
        return 5;
    }
    println!(
        "{}: held on {} executions ({} distinct non-trivial){}{}",
        o.id,
        p.evals,
        p.distinct,
        if p.truncated { ", cut off by time" } else { "" },
        if p.exhaustive.is_empty() { String::new() } else { format!("; exhaustive over: {}", p.exhaustive.join("; ")) },
    );
    0
}

fn evidence(o: &Opts, c: &checks::Check, p: &Parsed, t0: Instant) {
    if o.replay.is_some() {
        return;
    }
    let dir = o.verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    let list = |v: &[String]| v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
    let map = |m: &BTreeMap<String, u64>| {
        m.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect::<Vec<_>>().join(",")
    };
    let mut s = String::from("{");
    s += &format!("\"property\":{},", json_str(&o.id));
    s += &format!("\"tier\":\"{}\",", if o.thorough { "thorough" } else { "quick" });
    s += &format!("\"seed\":{},", o.seed);
    s += &format!("\"level\":\"{}\",", c.level);
    s += "\"coverage\":{";
    s += &format!("\"evaluations\":{},", p.evals);
    s += &format!("\"distinct_nontrivial\":{},", p.distinct);
    s += &format!("\"rule\":{},", json_str(c.rule));
    let short: Vec<String> = p.samples.iter().take(12).map(|s| s.chars().take(1200).collect()).collect();
    s += &format!("\"samples\":[{}],", list(&short));
    s += &format!("\"observed\":{{{}}},", map(&p.counters));
    s += &format!("\"cases_per_phase\":{{{}}},", map(&p.phases));
    s += &format!("\"exhaustive_subspaces\":[{}],", list(&p.exhaustive));
    s += &format!("\"cut_off_by_time\":{}", p.truncated);
    s += "},";
    s += &format!("\"assumptions\":[{}],", c.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(","));
    s += &format!("\"known_findings\":[{}],", list(&p.known.iter().map(|k| format!("{}: {}", k.0, k.1)).collect::<Vec<_>>()));
    s += &format!("\"violations\":{},", p.violations.len());
    s += &format!("\"wall_s\":{:.3}", t0.elapsed().as_secs_f64());
    s += "}\n";
    if let Err(e) = fs::write(dir.join(format!("{}.json", o.id)), s) {
        eprintln!("cannot write evidence: {e}");
    }
}

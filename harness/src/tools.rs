//! Running the tools as processes, with limits, and recording what they did.

use std::{
    ffi::{OsStr, OsString},
    fs,
    io::{Read, Write},
    os::unix::process::{CommandExt, ExitStatusExt},
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::Mutex,
    time::{Duration, Instant},
};

use crate::core::Run;

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
    fn kill(pid: i32, sig: i32) -> i32;
}
const RLIMIT_CPU: i32 = 0;
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_CORE: i32 = 4;
const RLIMIT_AS: i32 = 9;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;

fn limit(res: i32, n: u64) {
    let l = RLimit { cur: n, max: n };
    unsafe {
        setrlimit(res, &l);
    }
}

pub fn limit_memory(n: u64) {
    limit(RLIMIT_AS, n)
}

pub const CPU_LIMIT_S: u64 = 20;
const WALL_LIMIT_S: u64 = 200;
const OUT_CAP: usize = 24 << 20;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Hang,
}

#[derive(Clone, Debug)]
pub struct Out {
    pub end: End,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub capped: bool,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.end == End::Exit(0)
    }
    /// Ended by itself with a failure status, in an orderly way
    pub fn fails(&self) -> bool {
        matches!(self.end, End::Exit(c) if c != 0 && c != 101)
    }
    /// What is wrong with how it ended, whatever it was asked to do
    pub fn abnormal(&self) -> Option<String> {
        match self.end {
            End::Exit(101) => Some(format!("panicked: {}", clip(&self.err(), 600))),
            End::Signal(s) => Some(format!("ended by signal {s}: {}", clip(&self.err(), 600))),
            End::Hang => Some(format!("does not end ({CPU_LIMIT_S} s of processor time)")),
            _ if self.capped => Some(format!("prints without end (more than {} MiB)", OUT_CAP >> 20)),
            _ => None,
        }
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn show(&self) -> String {
        format!("{:?}\n--- stdout\n{}\n--- stderr\n{}", self.end, clip(&self.out(), 1500), clip(&self.err(), 1500))
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.into()
    } else {
        s.chars().take(n).collect::<String>() + " ..."
    }
}

static LIVE: Mutex<Vec<(i32, Instant)>> = Mutex::new(Vec::new());

/// Ends processes that wait for something without using processor time
fn start_reaper() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = Instant::now();
            for (pid, end) in LIVE.lock().unwrap().iter() {
                if *end < now {
                    unsafe {
                        kill(*pid, 9);
                    }
                }
            }
        });
    });
}

pub struct Tool {
    path: PathBuf,
    args: Vec<OsString>,
    cwd: PathBuf,
    stdin: Vec<u8>,
    stdout: Option<PathBuf>,
    fsize: Option<u64>,
    cpu: u64,
    env: Vec<(String, String)>,
}

impl Run {
    pub fn tool(&self, name: &str, cwd: &Path) -> Tool {
        Tool {
            path: self.tools.join(name),
            args: Vec::new(),
            cwd: cwd.into(),
            stdin: Vec::new(),
            stdout: None,
            fsize: None,
            cpu: CPU_LIMIT_S,
            env: Vec::new(),
        }
    }
}

/// Whether files of the scratch directory can be started as commands here
pub fn scripts_start(dir: &Path) -> bool {
    static ONCE: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *ONCE.get_or_init(|| {
        use std::os::unix::fs::PermissionsExt;
        let p = write(dir, "probe", "#!/bin/env true\n");
        fs::set_permissions(&p, fs::Permissions::from_mode(0o755)).expect("scratch");
        (0..20).any(|k| {
            std::thread::sleep(Duration::from_millis(10 * k));
            matches!(Command::new(&p).env("PATH", "/usr/bin:/bin").status(), Ok(s) if s.success())
        })
    })
}

impl Tool {
    /// A file of the working directory started as a command, with the tools found by their names
    pub fn command(mut self, file: &str) -> Self {
        let tools = self.path.parent().map(|p| p.display().to_string()).unwrap_or_default();
        self.path = self.cwd.join(file);
        self.env("PATH", format!("{tools}:/usr/bin:/bin"))
    }
    pub fn arg(mut self, a: impl AsRef<str>) -> Self {
        self.args.push(a.as_ref().into());
        self
    }
    pub fn args<S: AsRef<str>>(mut self, a: impl IntoIterator<Item = S>) -> Self {
        self.args.extend(a.into_iter().map(|s| s.as_ref().into()));
        self
    }
    /// An argument that need not be text
    pub fn os_arg(mut self, a: &OsStr) -> Self {
        self.args.push(a.into());
        self
    }
    pub fn stdin(mut self, b: impl Into<Vec<u8>>) -> Self {
        self.stdin = b.into();
        self
    }
    /// What it prints goes to a file, which must be there
    pub fn stdout_to(mut self, p: PathBuf) -> Self {
        self.stdout = Some(p);
        self
    }
    /// No file may become longer than this; writing beyond fails with EFBIG
    pub fn fsize(mut self, n: u64) -> Self {
        self.fsize = Some(n);
        self
    }
    pub fn env(mut self, k: &str, v: impl Into<String>) -> Self {
        self.env.push((k.into(), v.into()));
        self
    }
    pub fn cpu(mut self, s: u64) -> Self {
        self.cpu = s;
        self
    }
    pub fn show(&self) -> String {
        format!("{} {}", self.path.file_name().map(|f| f.to_string_lossy().into_owned()).unwrap_or_default(), self.args.join(OsStr::new(" ")).to_string_lossy())
    }
    pub fn run(self) -> Out {
        start_reaper();
        let mut cmd = Command::new(&self.path);
        cmd.args(&self.args)
            .current_dir(&self.cwd)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("LANG", "C.UTF-8")
            .envs(self.env.iter().map(|(k, v)| (k, v)))
            .stdin(if self.stdin.is_empty() { Stdio::null() } else { Stdio::piped() })
            .stdout(match &self.stdout {
                Some(p) => Stdio::from(fs::File::options().write(true).open(p).expect("scratch")),
                None => Stdio::piped(),
            })
            .stderr(Stdio::piped());
        let fsize = self.fsize;
        let cpu = self.cpu;
        unsafe {
            cmd.pre_exec(move || {
                limit(RLIMIT_CPU, cpu);
                limit(RLIMIT_CORE, 0);
                limit(RLIMIT_AS, 3 << 30);
                limit(RLIMIT_FSIZE, fsize.unwrap_or(256 << 20));
                signal(SIGXFSZ, SIG_IGN);
                Ok(())
            });
        }
        let mut ch = match cmd.spawn() {
            Ok(ch) => ch,
            Err(e) if self.path.starts_with(&self.cwd) => {
                let stderr = format!("cannot be started: {e}").into_bytes();
                return Out { end: End::Exit(126), stdout: Vec::new(), stderr, capped: false };
            }
            Err(e) => panic!("cannot start {}: {e}", self.path.display()),
        };
        let pid = ch.id() as i32;
        LIVE.lock().unwrap().push((pid, Instant::now() + Duration::from_secs(WALL_LIMIT_S)));
        let stdin = ch.stdin.take();
        let mut so = ch.stdout.take();
        let mut se = ch.stderr.take().unwrap();
        let input = self.stdin;
        let (mut stdout, mut stderr) = (Vec::new(), Vec::new());
        let mut capped = false;
        std::thread::scope(|s| {
            if let Some(mut i) = stdin {
                if input.len() <= 32 << 10 {
                    let _ = i.write_all(&input);
                } else {
                    let input = &input;
                    s.spawn(move || {
                        let _ = i.write_all(input);
                    });
                }
            }
            let h = s.spawn(|| read_capped(&mut se, &mut stderr, pid));
            capped = so.as_mut().is_some_and(|so| read_capped(so, &mut stdout, pid));
            capped |= h.join().unwrap_or(false);
        });
        // The pid is not reused before it was waited for, and not signalled after it left the list
        LIVE.lock().unwrap().retain(|l| l.0 != pid);
        let st = ch.wait().expect("wait");
        let end = match (st.code(), st.signal()) {
            (Some(c), _) => End::Exit(c),
            (_, Some(9 | 24)) if !capped => End::Hang,
            (_, Some(s)) => End::Signal(s),
            _ => End::Signal(0),
        };
        let end = if capped { End::Exit(0) } else { end };
        Out { end, stdout, stderr, capped }
    }
}

fn read_capped(r: &mut impl Read, v: &mut Vec<u8>, pid: i32) -> bool {
    let mut buf = [0u8; 16384];
    loop {
        match r.read(&mut buf) {
            Ok(0) => return false,
            Ok(n) => {
                v.extend_from_slice(&buf[..n]);
                if v.len() > OUT_CAP {
                    unsafe {
                        kill(pid, 9);
                    }
                    return true;
                }
            }
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
            Err(_) => return false,
        }
    }
}

pub fn write(dir: &Path, name: &str, b: impl AsRef<[u8]>) -> PathBuf {
    let p = dir.join(name);
    if let Some(d) = p.parent() {
        fs::create_dir_all(d).expect("scratch dir");
    }
    fs::write(&p, b).unwrap_or_else(|e| panic!("scratch file {}: {e}", p.display()));
    p
}

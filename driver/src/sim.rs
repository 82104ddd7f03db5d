//! Runs one simulated qlc process and collects everything it did.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn default_max_steps() -> u64 {
    3_000_000
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Rule {
    pub cls: String,
    /// Relative to the box; "" is the box itself, "*" is anything.
    pub path: String,
    /// Which matching operation; 0 is every one.
    pub occ: u32,
    /// errno, short, crash or crashtorn.
    pub act: String,
    pub arg: i64,
}

/// Everything that decides one execution besides the files and the command line.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
#[serde(default)]
pub struct Env {
    pub seed: u64,
    pub hash_seed: u64,
    pub dir_seed: u64,
    pub noise_seed: u64,
    pub dir_mode: u32,
    /// 0: the schedule is the default one plus `devs`; 1 random walk; 2 priorities; 3 stalls.
    pub mode: u32,
    pub p_switch: u32,
    pub pct_depth: u32,
    pub pct_len: u64,
    pub stall_len: u64,
    pub p_stall: u32,
    pub adv_steps: u64,
    pub max_steps: u64,
    pub quantum: u32,
    pub short_read: u32,
    pub short_write: u32,
    pub eintr: u32,
    pub dt_unknown: u32,
    pub spurious: u32,
    pub oversleep: u32,
    pub ncpu: u32,
    pub alloc_fail: u64,
    pub spawn_fail: u32,
    pub spawn_fail_all: bool,
    pub clock_jump_ns: i64,
    pub crash_step: u64,
    pub rules: Vec<Rule>,
    pub devs: Vec<(u64, i32)>,
    /// The standard output is a terminal.
    #[serde(default)]
    pub tty: bool,
    #[serde(default)]
    pub vars: Vec<(String, String)>,
}

impl Env {
    /// The quiet schedule: no preemption, no noise, sorted directories.
    pub fn calm() -> Env {
        Env { mode: 0, quantum: 400, ncpu: 4, max_steps: default_max_steps(), ..Default::default() }
    }
    /// An adversarial schedule; noise (benign I/O quirks) is added separately.
    pub fn wild(r: &mut Rng) -> Env {
        let mut e = Env::calm();
        e.seed = r.next();
        e.hash_seed = r.next();
        e.dir_seed = r.next();
        e.noise_seed = r.next();
        e.dir_mode = r.below(3) as u32;
        e.mode = 1 + r.below(3) as u32;
        e.adv_steps = [2_000u64, 20_000, 60_000][r.below(3)];
        e.quantum = [20, 60, 400][r.below(3)];
        e.ncpu = r.range(1, 10) as u32;
        match e.mode {
            1 => e.p_switch = [600, 3_000, 12_000, 32_000, 60_000][r.below(5)],
            2 => {
                e.pct_depth = r.range(1, 20) as u32;
                e.pct_len = [200u64, 1_000, 4_000, 15_000][r.below(4)];
            }
            _ => {
                e.p_switch = [600, 6_000, 30_000][r.below(3)];
                e.p_stall = [100, 600, 3_000][r.below(3)];
                e.stall_len = [50u64, 400, 3_000][r.below(3)];
            }
        }
        e.spurious = [0, 0, 200, 2_000][r.below(4)];
        e.oversleep = [0, 0, 5_000, 30_000][r.below(4)];
        if r.pct(25) {
            e.clock_jump_ns = [-3_600_000_000_000i64, 3_600_000_000_000, -1_000_000, 5_000_000_000][r.below(4)];
        }
        e
    }
    pub fn noise(&mut self, r: &mut Rng) {
        self.noise_seed = r.next();
        self.short_read = [0, 10_000, 40_000][r.below(3)];
        self.short_write = [0, 10_000, 40_000][r.below(3)];
        self.eintr = [0, 3_000, 15_000][r.below(3)];
        self.dt_unknown = [0, 20_000, 65_535][r.below(3)];
    }
    pub fn rule(&mut self, cls: &str, path: &str, occ: u32, act: &str, arg: i64) {
        self.rules.push(Rule { cls: cls.into(), path: path.into(), occ, act: act.into(), arg });
    }
    fn ctl(&self, bx: &str, report: &str, pin: i32, log_devs: bool, pid: u64, gated: bool) -> String {
        let mut s = String::new();
        let mut kv = |k: &str, v: String| {
            s.push_str(k);
            s.push(' ');
            s.push_str(&v);
            s.push('\n');
        };
        kv("box", bx.into());
        kv("report", report.into());
        kv("seed", self.seed.to_string());
        kv("hash_seed", self.hash_seed.to_string());
        kv("dir_seed", self.dir_seed.to_string());
        kv("noise_seed", self.noise_seed.to_string());
        kv("dir_mode", self.dir_mode.to_string());
        kv("mode", self.mode.to_string());
        kv("p_switch", self.p_switch.to_string());
        kv("pct_depth", self.pct_depth.to_string());
        kv("pct_len", self.pct_len.to_string());
        kv("stall_len", self.stall_len.to_string());
        kv("p_stall", self.p_stall.to_string());
        kv("adv_steps", self.adv_steps.to_string());
        kv("max_steps", self.max_steps.max(1000).to_string());
        kv("quantum", self.quantum.max(1).to_string());
        kv("short_read", self.short_read.to_string());
        kv("short_write", self.short_write.to_string());
        kv("eintr", self.eintr.to_string());
        kv("dt_unknown", self.dt_unknown.to_string());
        kv("spurious", self.spurious.to_string());
        kv("oversleep", self.oversleep.to_string());
        kv("tty", (self.tty as u32).to_string());
        kv("ncpu", self.ncpu.max(1).to_string());
        kv("alloc_fail", self.alloc_fail.to_string());
        kv("spawn_fail", self.spawn_fail.to_string());
        kv("spawn_fail_all", (self.spawn_fail_all as u32).to_string());
        kv("clock_jump_ns", self.clock_jump_ns.to_string());
        kv("crash_step", self.crash_step.to_string());
        kv("cpu_s", "10".into());
        kv("pid", pid.to_string());
        if gated {
            kv("gate_out", GATE_OUT.to_string());
            kv("gate_in", GATE_IN.to_string());
        }
        kv("pin", pin.to_string());
        if log_devs {
            kv("log_devs", "1".into());
        }
        for r in &self.rules {
            let p = if r.path.is_empty() { ".".to_string() } else { r.path.replace('\\', "\\\\").replace(' ', "\\s").replace('\n', "\\n") };
            kv("rule", format!("{} {} {} {} {}", r.cls, p, r.occ, r.act, r.arg));
        }
        for (st, t) in &self.devs {
            kv("dev", format!("{st} {t}"));
        }
        s
    }
}

/// Where a process of several reports and waits before it touches a file.
const GATE_OUT: i32 = 1020;
const GATE_IN: i32 = 1021;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub step: u64,
    pub tid: i32,
    pub cls: String,
    pub path: String,
    pub ret: i64,
    pub aux: String,
    /// How many accesses to files the process had begun.
    pub gate: u64,
}

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Hang,
    Deadlock,
    Crash,
    Abort,
}

#[derive(Clone, Debug, Default)]
pub struct Run {
    pub end: Option<End>,
    pub steps: u64,
    pub switches: u64,
    pub simns: u64,
    pub hash: u64,
    pub cshash: u64,
    pub threads: u64,
    pub allocs: u64,
    pub gates: u64,
    pub counters: BTreeMap<String, u64>,
    pub fired: Vec<u64>,
    pub escapes: Vec<(String, String)>,
    pub ops: Vec<Op>,
    pub devs: Vec<(u64, i32)>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
}

impl Run {
    pub fn code(&self) -> Option<i32> {
        match self.end {
            Some(End::Exit(c)) => Some(c),
            _ => None,
        }
    }
    /// Equality of everything observable, for determinism checks.
    pub fn same(&self, o: &Run) -> bool {
        self.end == o.end
            && self.steps == o.steps
            && self.hash == o.hash
            && self.cshash == o.cshash
            && self.stdout == o.stdout
            && self.ops == o.ops
            && self.escapes == o.escapes
            && self.allocs == o.allocs
    }
    /// What sets two executions apart.
    pub fn differs(&self, o: &Run) -> String {
        let mut d = Vec::new();
        if self.end != o.end {
            d.push(format!("end {:?} and {:?}", self.end, o.end));
        }
        d.push(format!("{} and {} steps", self.steps, o.steps));
        if self.stdout != o.stdout {
            d.push("output".into());
        }
        if self.allocs != o.allocs {
            d.push(format!("{} and {} allocations", self.allocs, o.allocs));
        }
        if let Some(i) = (0..self.ops.len().max(o.ops.len())).find(|&i| self.ops.get(i) != o.ops.get(i)) {
            d.push(format!("operation {i} {:?} and {:?}", self.ops.get(i), o.ops.get(i)));
        }
        for (k, v) in &self.counters {
            if o.counters.get(k) != Some(v) {
                d.push(format!("{k} {v} and {:?}", o.counters.get(k)));
            }
        }
        d.join(", ")
    }
    pub fn stdout_text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn stderr_text(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
}

pub struct Lab {
    pub dir: PathBuf,
    pub bx: PathBuf,
    pub qlc: PathBuf,
    pub lib: PathBuf,
    pub pin: i32,
    pub log_devs: bool,
    pub runs: u64,
    /// Runs of the current history so far; no two have the same process number.
    pub seq: u64,
    pub double: Option<String>,
    pub counters: BTreeMap<String, u64>,
    pub fetcher: Option<Fetcher>,
}

/// A node process that answers one line of JSON with another.
pub struct Helper {
    child: std::process::Child,
    input: std::process::ChildStdin,
    output: std::io::BufReader<std::process::ChildStdout>,
}
impl Helper {
    pub fn new(script: &Path) -> Helper {
        let mut child = Command::new("node")
            .arg(script)
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()
            .expect("node");
        Helper { input: child.stdin.take().unwrap(), output: std::io::BufReader::new(child.stdout.take().unwrap()), child }
    }
    pub fn ask(&mut self, q: &serde_json::Value) -> serde_json::Value {
        use std::io::{BufRead, Write};
        writeln!(self.input, "{q}").and_then(|_| self.input.flush()).expect("a helper in node");
        let mut l = String::new();
        self.output.read_line(&mut l).expect("a helper in node");
        let v: serde_json::Value = serde_json::from_str(&l).expect("a helper in node");
        if let Some(t) = v["trouble"].as_str() {
            panic!("a helper in node: {t}");
        }
        v
    }
}
impl Drop for Helper {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// The simulated schema downloader (jssim), one request at a time.
pub struct Fetcher {
    helper: Helper,
    last: Option<(u64, String, Result<String, String>)>,
}
impl Fetcher {
    fn new(script: &Path) -> Fetcher {
        Fetcher { helper: Helper::new(script), last: None }
    }
    fn fetch(&mut self, seed: u64, full: &str) -> Result<String, String> {
        if let Some((s, f, r)) = &self.last {
            if *s == seed && f == full {
                return r.clone();
            }
        }
        let full_json: serde_json::Value = serde_json::from_str(full).expect("introspection result");
        let v = self.helper.ask(&serde_json::json!({"seed": seed, "full": full_json}));
        let r = match (v["code"].as_i64(), v["text"].as_str()) {
            (Some(0), Some(t)) => Ok(t.to_string()),
            (c, _) => Err(format!("the downloader ended with {} {c:?}: {}", v["how"], v["why"])),
        };
        self.last = Some((seed, full.to_string(), r.clone()));
        r
    }
}

/// Paths are text here; a byte that is no text is a character of this private range.
const RAW: u32 = 0xf700;
pub fn raw_char(b: u8) -> char {
    char::from_u32(RAW + b as u32).unwrap()
}
pub fn is_raw(c: char) -> bool {
    (RAW + 0x80..RAW + 0x100).contains(&(c as u32))
}
pub fn encode(s: &str) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    for c in s.chars() {
        if is_raw(c) {
            v.push((c as u32 - RAW) as u8);
        } else {
            v.extend(c.encode_utf8(&mut [0; 4]).bytes());
        }
    }
    v
}
pub fn decode(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len());
    for c in b.utf8_chunks() {
        s.push_str(c.valid());
        c.invalid().iter().for_each(|x| s.push(raw_char(*x)));
    }
    s
}
/// How a program prints such a path.
pub fn lossy(s: &str) -> String {
    s.chars().map(|c| if is_raw(c) { '\u{fffd}' } else { c }).collect()
}
pub fn os(s: &str) -> PathBuf {
    use std::os::unix::ffi::OsStringExt;
    std::ffi::OsString::from_vec(encode(s)).into()
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('s') => o.push(' '),
                Some('n') => o.push('\n'),
                Some(x) => o.push(x),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    if o == "." {
        String::new()
    } else {
        o
    }
}

/// A process that is under way.
pub struct Proc {
    child: std::process::Child,
    gate: Option<(std::io::PipeReader, std::io::PipeWriter)>,
    gated: bool,
    /// For a lock that another process has.
    pub waiting: bool,
    files: [PathBuf; 4],
}
impl Proc {
    fn listen(&mut self) {
        use std::io::Read;
        let Some((r, _)) = &mut self.gate else { return };
        let mut b = [0u8; 1];
        match r.read_exact(&mut b) {
            Ok(()) => self.waiting = b[0] == b'w',
            Err(_) => self.gate = None,
        }
    }
    pub fn ended(&self) -> bool {
        self.gate.is_none()
    }
    /// Lets it access files `n` times; returns when it is about to do so once more, waits or has ended.
    pub fn grant(&mut self, n: u32) {
        use std::io::Write;
        let Some((_, w)) = &mut self.gate else { return };
        // One that is being killed does not read this.
        let _ = w.write_all(&n.to_ne_bytes());
        self.listen();
    }
    /// Ends one that can never go on.
    pub fn give_up(&mut self) {
        self.grant(u32::MAX);
    }
}

impl Lab {
    pub fn new(base: &Path, i: usize, qlc: &Path, lib: &Path) -> std::io::Result<Lab> {
        let dir = base.join(format!("w{i}"));
        std::fs::create_dir_all(&dir)?;
        Ok(Lab {
            bx: dir.join("box"),
            dir,
            qlc: qlc.into(),
            lib: lib.into(),
            pin: i as i32,
            log_devs: false,
            runs: 0,
            seq: 0,
            double: None,
            counters: BTreeMap::new(),
            fetcher: None,
        })
    }
    /// What the schema downloader makes of a server with this introspection result.
    pub fn fetch(&mut self, seed: u64, full: &str) -> Result<String, String> {
        self.fetcher.get_or_insert_with(|| Fetcher::new(&crate::root().join("jssim/server.js"))).fetch(seed, full)
    }
    pub fn clear(&self) {
        // Unreadable directories are never created here, so plain removal works.
        let _ = std::fs::remove_dir_all(&self.bx);
        std::fs::create_dir_all(&self.bx).expect("scratch directory");
    }
    pub fn run(&mut self, args: &[String], env: &Env) -> Run {
        let p = self.start(args, env, false);
        self.finish(p)
    }
    /// Starts a process; a gated one stops before its first access to a file.
    pub fn start(&mut self, args: &[String], env: &Env, gated: bool) -> Proc {
        let i = self.seq;
        self.seq += 1;
        let at = |n: &str| if gated { self.dir.join(format!("{n}{i}")) } else { self.dir.join(n) };
        let (ctl, report, so, se) = (at("ctl"), at("report"), at("stdout"), at("stderr"));
        std::fs::write(&ctl, encode(&env.ctl(self.bx.to_str().unwrap(), report.to_str().unwrap(), self.pin, self.log_devs, 1000 + 1200 * i, gated))).unwrap();
        let _ = std::fs::remove_file(&report);
        let args: Vec<String> = args.iter().map(|a| a.replace("$BOX", "/sim")).collect();
        let mut c = Command::new(&self.qlc);
        c.args(&args)
            .env_clear()
            .envs(env.vars.iter().cloned())
            .env("QLCSIM_CTL", &ctl)
            .env("LD_PRELOAD", &self.lib)
            // Many threads' arenas would use up the address space the process may have.
            .env("MALLOC_ARENA_MAX", "1")
            .current_dir(&self.bx)
            .stdin(Stdio::null())
            .stdout(std::fs::File::create(&so).unwrap())
            .stderr(std::fs::File::create(&se).unwrap());
        let mut gate = None;
        let mut theirs = Vec::new();
        if gated {
            use std::os::fd::AsRawFd;
            use std::os::unix::process::CommandExt;
            let (r1, w1) = std::io::pipe().expect("a pipe");
            let (r2, w2) = std::io::pipe().expect("a pipe");
            let (o, n) = (w1.as_raw_fd(), r2.as_raw_fd());
            // Only calls that may be made between fork and exec.
            unsafe {
                c.pre_exec(move || {
                    if libc::dup2(o, GATE_OUT) < 0 || libc::dup2(n, GATE_IN) < 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
            theirs.push((w1, r2));
            gate = Some((r1, w2));
        }
        let child = c.spawn().expect("cannot start the program under test");
        drop(c);
        drop(theirs);
        let mut p = Proc { child, gate, gated, waiting: false, files: [ctl, report, so, se] };
        p.listen();
        p
    }
    pub fn finish(&mut self, mut p: Proc) -> Run {
        let status = p.child.wait().expect("the program under test");
        let [ctl, report, so, se] = &p.files;
        use std::os::unix::process::ExitStatusExt;
        let mut r = Run { stdout: std::fs::read(&so).unwrap_or_default(), stderr: std::fs::read(&se).unwrap_or_default(), ..Default::default() };
        let text = std::fs::read(&report).map(|b| decode(&b)).unwrap_or_default();
        let mut end = String::new();
        for l in text.lines() {
            let mut w = l.split(' ');
            let k = w.next().unwrap_or("");
            let mut num = || w.next().and_then(|x| x.parse::<i64>().ok()).unwrap_or(0);
            match k {
                "end" => end = w.next().unwrap_or("").to_string(),
                "steps" => r.steps = num() as u64,
                "switches" => r.switches = num() as u64,
                "simns" => r.simns = num() as u64,
                "hash" => r.hash = num() as u64,
                "cshash" => r.cshash = num() as u64,
                "threads" => r.threads = num() as u64,
                "allocs" => r.allocs = num() as u64,
                "gates" => r.gates = num() as u64,
                "rule" => {
                    num();
                    r.fired.push(num() as u64);
                }
                "escape" => {
                    let c = w.next().unwrap_or("").to_string();
                    r.escapes.push((c, unescape(w.next().unwrap_or(""))));
                }
                "op" => {
                    let step = num() as u64;
                    let tid = num() as i32;
                    let cls = w.next().unwrap_or("").to_string();
                    let path = unescape(w.next().unwrap_or(""));
                    let ret = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    let aux = w.next().unwrap_or("").to_string();
                    r.ops.push(Op { step, tid, cls, path, ret, aux, gate: w.next().and_then(|x| x.parse().ok()).unwrap_or(0) });
                }
                "dev" => {
                    let s = num() as u64;
                    r.devs.push((s, num() as i32));
                }
                _ if k.starts_with("n.") => {
                    r.counters.insert(k[2..].to_string(), num() as u64);
                }
                _ => {}
            }
        }
        r.end = Some(match (end.as_str(), status.code(), status.signal()) {
            ("hang", ..) => End::Hang,
            ("deadlock", ..) => End::Deadlock,
            ("crash", ..) => End::Crash,
            ("abort", ..) => End::Abort,
            (_, Some(c), _) => End::Exit(c),
            (_, _, Some(24)) => End::Hang, // used up its processor time without any system interaction
            (_, _, Some(14)) => End::Hang,
            (_, _, s) => End::Signal(s.unwrap_or(0)),
        });
        if r.code() == Some(96) {
            panic!("simulator trouble: {end}");
        }
        self.runs += 1;
        if p.gated {
            for f in [ctl, report, so, se] {
                let _ = std::fs::remove_file(f);
            }
        }
        r
    }
    /// All regular files in the box.
    pub fn files(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(base: &Path, rel: &str, m: &mut BTreeMap<String, Vec<u8>>) {
            let d = if rel.is_empty() { base.to_path_buf() } else { base.join(os(rel)) };
            let Ok(rd) = std::fs::read_dir(&d) else { return };
            for e in rd.flatten() {
                let n = decode(std::os::unix::ffi::OsStrExt::as_bytes(e.file_name().as_os_str()));
                let p = if rel.is_empty() { n } else { format!("{rel}/{n}") };
                match e.file_type() {
                    Ok(t) if t.is_dir() => walk(base, &p, m),
                    Ok(t) if t.is_file() => {
                        m.insert(p.clone(), std::fs::read(base.join(os(&p))).unwrap_or_default());
                    }
                    _ => {}
                }
            }
        }
        let mut m = BTreeMap::new();
        walk(&self.bx, "", &mut m);
        m
    }
}

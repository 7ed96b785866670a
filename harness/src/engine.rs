//! Generate, compile, run, judge, shrink, report.
use crate::src::{mix, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

/// verdict of the oracle on one call
pub struct Verdict {
    pub label: &'static str,
    pub nontrivial: bool,
    pub err: Option<String>,
}

impl Verdict {
    pub fn cmp(label: &'static str, nontrivial: bool, expected: &str, actual: &str) -> Verdict {
        let err = if expected == actual { None } else { Some(format!("expected {:?}", expected)) };
        Verdict { label, nontrivial, err }
    }
}

/// strips the details of a ParsingFailed outcome
pub fn brief(actual: &str) -> &str {
    if actual.starts_with("P:") {
        "P"
    } else {
        actual
    }
}

pub trait Oracle {
    fn input(&self, s: &mut Src) -> String;
    fn judge(&self, input: &str, actual: &str) -> Verdict;
    /// inputs every run includes
    fn fixed_inputs(&self) -> Vec<String> {
        vec![]
    }
    /// call mode and number of threads
    fn mode(&self) -> (u8, usize) {
        (0, 1)
    }
    /// whether inputs may be shortened when minimising
    fn shrink_inputs(&self) -> bool {
        true
    }
}

pub struct Case {
    /// Rust items
    pub items: String,
    /// body of `fn run(input: &str) -> String`
    pub body: String,
    pub oracle: Box<dyn Oracle>,
    pub desc: String,
    /// structural class, for the coverage report
    pub class: String,
}

pub type GenFn = fn(&mut Src) -> Case;

pub struct Plan {
    pub id: &'static str,
    pub gen: GenFn,
    pub programs: usize,
    pub cases: usize,
    pub inputs: usize,
    pub rule: &'static str,
    /// number of the first program variant
    pub variant: usize,
}

// ---------------------------------------------------------------------------------------------
// toolchain

pub struct Env {
    pub build: PathBuf,
    pub replays: PathBuf,
    pub rustc: PathBuf,
    pub externs: Vec<String>,
    pub deps: PathBuf,
    pub seed: u64,
    pub thorough: bool,
}

pub fn fail(msg: &str) -> ! {
    eprintln!("ERROR: {}", msg);
    println!("ERROR: {}", msg.lines().next().unwrap_or(""));
    std::process::exit(3)
}

pub fn verif_root() -> PathBuf {
    PathBuf::from(std::env::var("SV_ROOT").unwrap_or_else(|_| "/verif".into()))
}

impl Env {
    /// builds the sscanf crate from /repo's working tree
    pub fn setup() -> Env {
        let root = verif_root();
        let build = root.join(".build");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let out = Command::new("cargo")
            .args(["build", "--offline", "--message-format=json", "--manifest-path"])
            .arg(root.join("vrt/Cargo.toml"))
            .arg("--target-dir")
            .arg(build.join("vrt"))
            .stdin(Stdio::null())
            .stderr(Stdio::piped())
            .output()
            .unwrap_or_else(|e| fail(&format!("cargo: {}", e)));
        if !out.status.success() {
            fail(&format!(
                "sscanf does not build:\n{}\n{}",
                String::from_utf8_lossy(&out.stderr),
                String::from_utf8_lossy(&out.stdout).lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()).filter_map(|v| v["message"]["rendered"].as_str().map(|s| s.to_string())).collect::<String>()
            ));
        }
        let mut externs = vec![];
        let mut deps = None;
        for line in String::from_utf8_lossy(&out.stdout).lines() {
            let v: Value = match serde_json::from_str(line) {
                Ok(v) => v,
                Err(_) => continue,
            };
            if v["reason"] != "compiler-artifact" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("");
            if name == "sscanf" || name == "vrt" {
                for f in v["filenames"].as_array().unwrap() {
                    let f = f.as_str().unwrap();
                    if f.ends_with(".rlib") {
                        externs.push(format!("{}={}", name, f));
                        if name == "sscanf" {
                            deps = Some(Path::new(f).parent().unwrap().to_path_buf());
                        }
                    }
                }
            }
        }
        if externs.len() != 2 {
            fail("build artifacts of sscanf not found");
        }
        let sysroot = Command::new("rustc").args(["--print", "sysroot"]).output().expect("rustc");
        let rustc = PathBuf::from(String::from_utf8_lossy(&sysroot.stdout).trim()).join("bin/rustc");
        let replays = root.join("replays");
        std::fs::create_dir_all(&replays).unwrap();
        Env { build, replays, rustc, externs, deps: deps.unwrap(), seed, thorough }
    }

    pub fn work(&self, name: &str) -> PathBuf {
        let d = self.build.join("work").join(name);
        std::fs::create_dir_all(&d).unwrap();
        d
    }

    pub fn rustc_cmd(&self, src: &Path, edition: &str, args: &[&str]) -> Command {
        let mut c = Command::new(&self.rustc);
        c.arg(src).args(["--edition", edition, "--error-format=json"]);
        c.arg("-L").arg(format!("dependency={}", self.deps.display()));
        for e in &self.externs {
            c.arg("--extern").arg(e);
        }
        c.args(args).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped());
        c
    }
}

pub struct Diag {
    pub msg: String,
    pub rendered: String,
    pub level: String,
    /// 1-based lines in the generated file that the error refers to (call sites of macros)
    pub lines: Vec<usize>,
    /// (line, column start, column end) of the primary spans in the file itself
    pub prim: Vec<(usize, usize, usize)>,
}

fn root_span<'a>(mut sp: &'a Value, file: &str) -> Option<&'a Value> {
    loop {
        if sp["file_name"].as_str() == Some(file) {
            // innermost span in the generated file
            return Some(sp);
        }
        if sp["expansion"].is_object() {
            sp = &sp["expansion"]["span"];
        } else {
            return None;
        }
    }
}

pub fn parse_diags(stderr: &str, file: &str) -> Vec<Diag> {
    let mut out = vec![];
    for line in stderr.lines() {
        let v: Value = match serde_json::from_str(line) {
            Ok(v) => v,
            Err(_) => continue,
        };
        let level = v["level"].as_str().unwrap_or("").to_string();
        if !level.starts_with("error") {
            continue;
        }
        let msg = v["message"].as_str().unwrap_or("").to_string();
        if msg.starts_with("aborting due to") || msg.starts_with("could not compile") {
            continue;
        }
        let mut lines = vec![];
        let mut prim = vec![];
        let mut spans: Vec<&Value> = v["spans"].as_array().map(|a| a.iter().collect()).unwrap_or_default();
        spans.sort_by_key(|s| !s["is_primary"].as_bool().unwrap_or(false));
        for sp in spans {
            if let Some(r) = root_span(sp, file) {
                lines.push(r["line_start"].as_u64().unwrap() as usize);
                if sp["is_primary"].as_bool() == Some(true) {
                    prim.push((r["line_start"].as_u64().unwrap() as usize, r["column_start"].as_u64().unwrap() as usize, r["column_end"].as_u64().unwrap() as usize));
                }
            }
        }
        if lines.is_empty() {
            // notes may carry the position (e.g. evaluation of constants)
            for c in v["children"].as_array().unwrap_or(&vec![]) {
                for sp in c["spans"].as_array().unwrap_or(&vec![]) {
                    if let Some(r) = root_span(sp, file) {
                        lines.push(r["line_start"].as_u64().unwrap() as usize);
                    }
                }
            }
        }
        out.push(Diag { msg, rendered: v["rendered"].as_str().unwrap_or("").to_string(), level, lines, prim });
    }
    out
}

/// runs a command with a time limit; None = time limit hit
/// a process that never ends, as opposed to one that is slow because the machine is busy, is known
/// by the processor time it has used: `cpu` seconds of it (or 15 minutes by the clock)
pub fn run_limited(mut c: Command, cpu: u64) -> Option<(std::process::ExitStatus, String)> {
    let mut ch = c.spawn().unwrap_or_else(|e| fail(&format!("cannot start {:?}: {}", c, e)));
    let mut err = ch.stderr.take().unwrap();
    let t = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let start = Instant::now();
    let mut look = Instant::now();
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            return Some((st, t.join().unwrap()));
        }
        let mut over = start.elapsed() > Duration::from_secs(900);
        if look.elapsed() > Duration::from_secs(1) {
            look = Instant::now();
            over |= cpu_ticks(ch.id()).is_some_and(|t| t > cpu * 100);
        }
        if over {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(4));
    }
}

/// set once a program was found that the compiler does not finish: the search ends there
pub static ENDLESS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub const ENDLESS_MSG: &str = "the compiler does not finish";
const SKIPPED: &str = "not compiled: the search was ended by an earlier program";

// ---------------------------------------------------------------------------------------------
// programs

#[derive(Clone)]
pub struct Compiled {
    pub exe: PathBuf,
    /// per case: index in the program's table, or the compile error
    pub slots: Vec<Result<usize, String>>,
}

/// variants from here on also cover edition 2015 and forbid unsafe code
pub const ANY_CONTEXT: usize = 1_000_000;

pub fn variant_of(i: usize) -> (&'static str, bool) {
    if i >= ANY_CONTEXT {
        return (["2021", "2015", "2018", "2024"][i % 4], i / 4 % 2 == 0);
    }
    let e = ["2021", "2018", "2024"][i % 3];
    (e, i % 2 == 0)
}

/// names that types may be spelled with in every case module (own items of a case win over them)
pub const PRE: &str = "extern crate alloc;\npub mod pre { pub use ::std::borrow; pub use ::std::borrow::Cow; pub use ::std::primitive; }\n";

fn case_module(k: usize, items: &str, body: &str) -> String {
    format!("#[allow(warnings)]\npub mod c{k} {{\nuse super::pre::*;\n{items}\npub fn run(input: &str) -> ::std::string::String {{\n{body}\n}}\n}}\n")
}

pub fn compile(env: &Env, dir: &Path, tag: &str, variant: usize, cases: &[(String, String)]) -> Compiled {
    let (edition, dbg) = variant_of(variant);
    let mut slots: Vec<Result<usize, String>> = (0..cases.len()).map(Ok).collect();
    let file = dir.join(format!("{}.rs", tag));
    let exe = dir.join(format!("{}.exe", tag));
    let mut killed = false;
    for _pass in 0..8 {
        if cases.len() > 1 && ENDLESS.load(Ordering::SeqCst) {
            let slots = slots.into_iter().map(|s| s.and(Err(SKIPPED.to_string()))).collect();
            return Compiled { exe, slots };
        }
        let mut text = String::from("#![allow(warnings)]\n");
        if variant >= ANY_CONTEXT {
            text.push_str("#![forbid(unsafe_code)]\n");
        }
        if edition == "2015" {
            text.push_str("extern crate core;\nextern crate sscanf;\nextern crate vrt;\n");
        }
        text.push_str(PRE);
        let mut ranges = vec![];
        let mut table = String::new();
        let mut n = 0;
        for (k, (items, body)) in cases.iter().enumerate() {
            if slots[k].is_err() {
                continue;
            }
            let start = text.matches('\n').count() + 1;
            text.push_str(&case_module(k, items, body));
            let end = text.matches('\n').count();
            ranges.push((start, end, k));
            table.push_str(&format!("c{}::run, ", k));
            slots[k] = Ok(n);
            n += 1;
        }
        text.push_str(&format!("fn main() {{ ::vrt::main_loop(&[{}]) }}\n", table));
        std::fs::write(&file, &text).unwrap();
        let da = format!("debug-assertions={}", if dbg { "on" } else { "off" });
        let cmd = env.rustc_cmd(&file, edition, &["--crate-type=bin", "-C", "debuginfo=0", "-C", "opt-level=0", "-C", &da, "-C", "codegen-units=4", "-o", exe.to_str().unwrap()]);
        let Some((st, err)) = run_limited(cmd, if cases.len() == 1 { 60 } else { 150 }) else {
            if cases.len() == 1 {
                ENDLESS.store(true, Ordering::SeqCst);
                slots[0] = Err(ENDLESS_MSG.to_string());
                return Compiled { exe, slots };
            }
            // which one is it
            for (k, c) in cases.iter().enumerate() {
                if slots[k].is_ok() && !ENDLESS.load(Ordering::SeqCst) {
                    if let Err(e) = compile(env, dir, &format!("{}_one", tag), variant, std::slice::from_ref(c)).slots.remove(0) {
                        slots[k] = Err(e);
                    }
                }
            }
            if !ENDLESS.load(Ordering::SeqCst) {
                fail("rustc did not finish in time");
            }
            continue;
        };
        if st.success() {
            return Compiled { exe, slots };
        }
        let diags = parse_diags(&err, file.to_str().unwrap());
        let mut progress = false;
        for d in &diags {
            for l in d.lines.iter().take(1) {
                if let Some((_, _, k)) = ranges.iter().find(|(a, b, _)| a <= l && l <= b) {
                    progress = true;
                    if slots[*k].is_ok() {
                        slots[*k] = Err(d.rendered.clone());
                    }
                }
            }
        }
        if !progress {
            if cases.len() == 1 && !diags.is_empty() {
                slots[0] = Err(diags.iter().map(|d| d.rendered.clone()).collect());
                continue;
            }
            if cases.len() == 1 && st.code().is_none() {
                // dies of the program alone (twice, if something else can have ended it)
                if !killed && st.to_string().contains("SIGKILL") {
                    killed = true;
                    continue;
                }
                slots[0] = Err(format!("the compiler dies: {}\n{}", st, clip(&err, 1000)));
                return Compiled { exe, slots };
            }
            if cases.len() > 1 && slots.iter().filter(|s| s.is_ok()).count() > 0 {
                // not attributable: compile every case alone
                for (k, c) in cases.iter().enumerate() {
                    if slots[k].is_ok() {
                        let one = compile(env, dir, &format!("{}_one", tag), variant, std::slice::from_ref(c));
                        if let Err(e) = &one.slots[0] {
                            slots[k] = Err(e.clone());
                            progress = true;
                        }
                    }
                }
                if progress {
                    continue;
                }
            }
            fail(&format!("rustc failed without a usable diagnostic:\n{}", err.chars().take(4000).collect::<String>()));
        }
    }
    fail("too many compile passes");
}

pub struct Call {
    pub slot: usize,
    pub mode: u8,
    pub n: usize,
    pub input: String,
}

/// CPU time a process of ours has used, in clock ticks
fn cpu_ticks(pid: u32) -> Option<u64> {
    let t = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let f: Vec<&str> = t.rsplit(')').next()?.split_whitespace().collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

/// outputs of the calls; a crash of the program yields "ABORT" for the call in flight, a call that
/// does not return (no CPU time used for 30 s, or 240 s without an answer) "HANG" and no further outputs
pub fn execute(exe: &Path, calls: &[Call]) -> Vec<String> {
    let mut out = vec![];
    let mut from = 0;
    while from < calls.len() {
        let mut ch = Command::new(exe)
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| fail(&format!("cannot run {:?}: {}", exe, e)));
        let mut stdin = ch.stdin.take().unwrap();
        let mut stdout = std::io::BufReader::new(ch.stdout.take().unwrap());
        let mut req: Vec<u8> = vec![];
        for c in &calls[from..] {
            req.push(c.mode);
            req.extend_from_slice(&(c.slot as u32).to_le_bytes());
            req.extend_from_slice(&(c.n as u32).to_le_bytes());
            req.extend_from_slice(&(c.input.len() as u32).to_le_bytes());
            req.extend_from_slice(c.input.as_bytes());
        }
        let writer = std::thread::spawn(move || {
            let _ = stdin.write_all(&req);
        });
        let done = std::sync::Arc::new(AtomicUsize::new(0));
        let hung = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
        let pid = ch.id();
        let watch = {
            let done = done.clone();
            let hung = hung.clone();
            std::thread::spawn(move || {
                let mut last = (0, Instant::now());
                let mut idle = (None, Instant::now());
                loop {
                    std::thread::sleep(Duration::from_millis(20));
                    let d = done.load(Ordering::SeqCst);
                    if d == usize::MAX {
                        return;
                    }
                    if d != last.0 {
                        last = (d, Instant::now());
                        idle = (None, last.1);
                        continue;
                    }
                    if last.1.elapsed() > Duration::from_secs(5) {
                        let t = cpu_ticks(pid);
                        if t != idle.0 || t.is_none() {
                            idle = (t, Instant::now());
                        }
                    }
                    if last.1.elapsed() > Duration::from_secs(240) || (idle.0.is_some() && idle.1.elapsed() > Duration::from_secs(30)) {
                        hung.store(true, Ordering::SeqCst);
                        let _ = Command::new("kill").arg("-9").arg(pid.to_string()).status();
                        return;
                    }
                }
            })
        };
        let mut died = false;
        for i in from..calls.len() {
            let mut head = [0u8; 4];
            let mut ok = stdout.read_exact(&mut head).is_ok();
            let mut buf = vec![];
            if ok {
                buf = vec![0u8; u32::from_le_bytes(head) as usize];
                ok = stdout.read_exact(&mut buf).is_ok();
            }
            done.fetch_add(1, Ordering::SeqCst);
            if !ok {
                let hang = hung.load(Ordering::SeqCst);
                out.push(if hang { "HANG" } else { "ABORT" }.to_string());
                from = if hang { calls.len() } else { i + 1 };
                died = true;
                break;
            }
            out.push(String::from_utf8_lossy(&buf).into_owned());
        }
        if !died {
            from = calls.len();
        }
        done.store(usize::MAX, Ordering::SeqCst);
        let _ = watch.join();
        let _ = ch.kill();
        let _ = ch.wait();
        let _ = writer.join();
    }
    out
}

// ---------------------------------------------------------------------------------------------
// search

#[derive(Clone)]
pub struct Failure {
    pub choices: Vec<u64>,
    pub variant: usize,
    /// None: the case does not compile
    pub input: Option<String>,
    pub ct: bool,
    pub actual: String,
    pub why: String,
    pub items: String,
    pub body: String,
    pub desc: String,
}

#[derive(Default)]
pub struct Stats {
    pub evals: usize,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, usize>,
    pub classes: BTreeMap<String, usize>,
    pub samples: Vec<Value>,
    pub cases: usize,
    pub excluded: usize,
}

pub fn hash(parts: &[&str]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.bytes().chain([0u8]) {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        format!("{}...", s.chars().take(n).collect::<String>())
    }
}

fn inputs_for(case: &Case, n: usize, seed: u64) -> Vec<String> {
    let mut v = case.oracle.fixed_inputs();
    for i in 0..n {
        let mut s = Src::random(mix(seed, i as u64));
        v.push(case.oracle.input(&mut s));
    }
    v
}

/// one compiled chunk of cases: returns failures (all of them) and statistics
fn chunk(env: &Env, plan: &Plan, dir: &Path, p: usize, cases: usize, inputs: usize) -> (Vec<Failure>, Stats) {
    let mut cs = vec![];
    for k in 0..cases {
        let seed = mix(mix(mix(env.seed, hash(&[plan.id])), p as u64), k as u64);
        let mut s = Src::random(seed);
        let c = (plan.gen)(&mut s);
        cs.push((c, s.rec, seed));
    }
    judge_cases(env, plan.id, dir, &format!("p{}", p), plan.variant + p, &cs, inputs, true)
}

fn judge_cases(env: &Env, id: &str, dir: &Path, tag: &str, variant: usize, cs: &[(Case, Vec<u64>, u64)], inputs: usize, cleanup: bool) -> (Vec<Failure>, Stats) {
    let src: Vec<(String, String)> = cs.iter().map(|(c, _, _)| (c.items.clone(), c.body.clone())).collect();
    let comp = compile(env, dir, tag, variant, &src);
    let mut st = Stats::default();
    let mut fails = vec![];
    let mut calls = vec![];
    let mut owner = vec![];
    for (k, (c, choices, seed)) in cs.iter().enumerate() {
        st.cases += 1;
        for tag in c.class.split(", ") {
            *st.classes.entry(tag.to_string()).or_default() += 1;
        }
        match &comp.slots[k] {
            Err(e) if e == SKIPPED => {}
            Err(e) => fails.push(Failure {
                choices: choices.clone(),
                variant,
                input: None,
                ct: false,
                actual: e.clone(),
                why: "a valid program does not compile".into(),
                items: c.items.clone(),
                body: c.body.clone(),
                desc: c.desc.clone(),
            }),
            Ok(slot) => {
                let (mode, n) = c.oracle.mode();
                for input in inputs_for(c, inputs, mix(*seed, 77)) {
                    calls.push(Call { slot: *slot, mode, n, input });
                    owner.push(k);
                }
            }
        }
    }
    let outs = execute(&comp.exe, &calls);
    let mut failed = HashSet::new();
    for ((call, out), k) in calls.iter().zip(&outs).zip(owner) {
        let (c, choices, _) = &cs[k];
        let v = c.oracle.judge(&call.input, out);
        st.evals += 1;
        *st.labels.entry(v.label.to_string()).or_default() += 1;
        if v.nontrivial {
            st.nontrivial.insert(hash(&[&c.items, &c.body, &call.input]));
            let key = format!("{}/{}", c.class, v.label);
            if st.samples.len() < 40 && !st.samples.iter().any(|s| s["class"] == json!(key)) {
                st.samples.push(json!({"class": key, "case": clip(&c.desc, 400), "input": clip(&call.input, 160), "result": clip(out, 200)}));
            }
        }
        if let Some(e) = v.err {
            if failed.insert(k) {
                fails.push(Failure {
                    choices: choices.clone(),
                    variant,
                    input: Some(call.input.clone()),
                    ct: false,
                    actual: out.clone(),
                    why: e,
                    items: c.items.clone(),
                    body: c.body.clone(),
                    desc: c.desc.clone(),
                });
            }
        }
    }
    if cleanup && std::env::var("SV_KEEP").is_err() {
        let _ = std::fs::remove_file(&comp.exe);
        let _ = std::fs::remove_file(dir.join(format!("{}.rs", tag)));
    }
    let _ = id;
    (fails, st)
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.cases += o.cases;
        self.excluded += o.excluded;
        self.nontrivial.extend(o.nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.classes {
            *self.classes.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 40 && !self.samples.iter().any(|t| t["class"] == s["class"]) {
                self.samples.push(s);
            }
        }
    }
}

pub const THREADS: usize = 8;

pub fn parallel<T: Send, F: Fn(usize) -> T + Sync>(n: usize, f: F) -> Vec<T> {
    let next = AtomicUsize::new(0);
    let out: Mutex<Vec<Option<T>>> = Mutex::new((0..n).map(|_| None).collect());
    std::thread::scope(|sc| {
        for _ in 0..THREADS.min(n.max(1)) {
            sc.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    return;
                }
                let r = f(i);
                out.lock().unwrap()[i] = Some(r);
            });
        }
    });
    out.into_inner().unwrap().into_iter().map(|x| x.expect("worker finished")).collect()
}

/// searches one plan; returns the shrunk failures
pub fn search(env: &Env, plan: &Plan, stats: &mut Stats) -> Vec<Failure> {
    let dir = env.work(plan.id);
    let mut fails = vec![];
    let wave = THREADS * 2;
    let mut p = 0;
    while p < plan.programs && fails.is_empty() {
        let n = wave.min(plan.programs - p);
        let res = parallel(n, |i| chunk(env, plan, &dir, p + i, plan.cases, plan.inputs));
        for (f, s) in res {
            fails.extend(f);
            stats.merge(s);
        }
        p += n;
    }
    fails
}

fn fails_like(f: &Failure, g: &Failure) -> bool {
    f.input.is_some() == g.input.is_some()
}

pub fn shrink_candidates(choices: &[u64]) -> Vec<Vec<u64>> {
    let mut cands: Vec<Vec<u64>> = vec![];
    let n = choices.len();
    let mut size = n.next_power_of_two().max(1);
    loop {
        let mut i = 0;
        while i < n {
            let mut c = choices.to_vec();
            let end = (i + size).min(n);
            c.drain(i..end);
            cands.push(c);
            if choices[i..end].iter().any(|&x| x != 0) {
                let mut c = choices.to_vec();
                c[i..end].iter_mut().for_each(|x| *x = 0);
                cands.push(c);
            }
            i += size;
        }
        if size == 1 {
            break;
        }
        size /= 2;
    }
    for i in 0..n {
        if choices[i] > 1 {
            let mut c = choices.to_vec();
            c[i] /= 2;
            cands.push(c);
            let mut c = choices.to_vec();
            c[i] -= 1;
            cands.push(c);
        }
    }
    cands
}

/// shrinks the program (choice sequence), then the input
pub fn shrink(env: &Env, plan: &Plan, f: &Failure, inputs: usize) -> Failure {
    if f.actual == ENDLESS_MSG {
        return f.clone();
    }
    let dir = env.work(&format!("{}_shrink", plan.id));
    let mut best = f.clone();
    let start = Instant::now();
    let limit = Duration::from_secs(if f.actual == "HANG" { 45 } else { 150 });
    let mut round = 0;
    'outer: while start.elapsed() < limit && round < 25 {
        round += 1;
        let cands = shrink_candidates(&best.choices);
        // regenerate and drop duplicates and cases that are not simpler
        let mut seen = HashSet::new();
        let mut work = vec![];
        for c in cands {
            let mut s = Src::replay(c);
            let case = (plan.gen)(&mut s);
            let key = (s.rec.len(), s.rec.clone());
            if key >= (best.choices.len(), best.choices.clone()) || !seen.insert(s.rec.clone()) {
                continue;
            }
            work.push((case.items.len() + case.body.len(), s.rec));
        }
        work.sort();
        let mut improved = false;
        for batch in work.chunks(THREADS * 12) {
            let groups: Vec<&[(usize, Vec<u64>)]> = batch.chunks(12).collect();
            let res = parallel(groups.len(), |g| {
                let cs: Vec<(Case, Vec<u64>, u64)> = groups[g]
                    .iter()
                    .map(|(_, ch)| {
                        let mut s = Src::replay(ch.clone());
                        let case = (plan.gen)(&mut s);
                        let h = ch.iter().fold(env.seed, |a, &b| mix(a, b));
                        (case, ch.clone(), h)
                    })
                    .collect();
                judge_cases(env, plan.id, &dir, &format!("g{}", g), best.variant, &cs, inputs, true).0
            });
            let mut found: Vec<Failure> = res.into_iter().flatten().filter(|g| fails_like(f, g)).collect();
            found.sort_by_key(|g| (g.choices.len(), g.choices.clone()));
            if let Some(g) = found.into_iter().next() {
                best = g;
                improved = true;
                break;
            }
            if start.elapsed() > limit {
                break 'outer;
            }
        }
        if !improved {
            break;
        }
    }
    // the input
    if let Some(input) = best.input.clone() {
        let mut s = Src::replay(best.choices.clone());
        let case = (plan.gen)(&mut s);
        let comp = compile(env, &dir, "inp", best.variant, &[(case.items.clone(), case.body.clone())]);
        if comp.slots[0].is_ok() && case.oracle.shrink_inputs() && best.actual != "HANG" {
            let (mode, n) = case.oracle.mode();
            let test = |cands: &[String]| -> Option<(String, String, String)> {
                let calls: Vec<Call> = cands.iter().map(|i| Call { slot: 0, mode, n, input: i.clone() }).collect();
                let outs = execute(&comp.exe, &calls);
                for (i, o) in cands.iter().zip(outs) {
                    if let Some(e) = case.oracle.judge(i, &o).err {
                        return Some((i.clone(), o, e));
                    }
                }
                None
            };
            let mut cur: Vec<char> = input.chars().collect();
            for _ in 0..40 {
                let mut cands = vec![];
                let n = cur.len();
                let mut size = n.max(1);
                while size >= 1 && cands.len() < 4000 {
                    let mut i = 0;
                    while i < n {
                        let mut c = cur.clone();
                        c.drain(i..(i + size).min(n));
                        cands.push(c.into_iter().collect::<String>());
                        i += size;
                    }
                    if size == 1 {
                        break;
                    }
                    size /= 2;
                }
                for i in 0..n.min(400) {
                    for r in ['0', 'a', ' '] {
                        if cur[i] > r {
                            let mut c = cur.clone();
                            c[i] = r;
                            cands.push(c.into_iter().collect::<String>());
                        }
                    }
                }
                match test(&cands) {
                    Some((i, o, e)) => {
                        cur = i.chars().collect();
                        best.input = Some(i);
                        best.actual = o;
                        best.why = e;
                    }
                    None => break,
                }
            }
        }
        let _ = std::fs::remove_file(&comp.exe);
    }
    best
}

pub fn known(env_root: &Path, id: &str) -> Vec<(String, String)> {
    // lines: open: property=<id> signature=<hex hash> <what fails>
    let t = std::fs::read_to_string(env_root.join("known_findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| l.strip_prefix("open: "))
        .filter_map(|l| {
            let mut it = l.splitn(3, ' ');
            let p = it.next()?.strip_prefix("property=")?.to_string();
            let sig = it.next()?.strip_prefix("signature=")?.to_string();
            (p == id).then(|| (sig, it.next().unwrap_or("").to_string()))
        })
        .collect()
}

/// identifies the failing program and input
pub fn signature(f: &Failure) -> String {
    format!("{:016x}", hash(&[&f.items, &f.body, f.input.as_deref().unwrap_or("<compile>")]))
}

/// judges one program again, with the recorded input
pub fn replay_case(env: &Env, plan: &Plan, choices: Vec<u64>, variant: usize, input: Option<&str>) -> Option<Failure> {
    let dir = env.work(&format!("{}_replay", plan.id));
    let mut s = Src::replay(choices);
    let case = (plan.gen)(&mut s);
    let mut f = Failure {
        choices: s.rec.clone(),
        variant,
        input: None,
        ct: false,
        actual: String::new(),
        why: "a valid program does not compile".into(),
        items: case.items.clone(),
        body: case.body.clone(),
        desc: case.desc.clone(),
    };
    let comp = compile(env, &dir, "r", variant, &[(case.items.clone(), case.body.clone())]);
    if let Err(e) = &comp.slots[0] {
        f.actual = e.clone();
        return Some(f);
    }
    let (mode, n) = case.oracle.mode();
    let inputs: Vec<String> = match input {
        Some(i) => vec![i.to_string()],
        None => inputs_for(&case, plan.inputs, env.seed),
    };
    let calls: Vec<Call> = inputs.iter().map(|i| Call { slot: 0, mode, n, input: i.clone() }).collect();
    let outs = execute(&comp.exe, &calls);
    let _ = std::fs::remove_file(&comp.exe);
    for (i, o) in inputs.into_iter().zip(outs) {
        if let Some(e) = case.oracle.judge(&i, &o).err {
            f.input = Some(i);
            f.actual = o;
            f.why = e;
            return Some(f);
        }
    }
    None
}

pub fn write_replay(env: &Env, id: &str, f: &Failure, note: Value) -> PathBuf {
    let sig = signature(f);
    let base = env.replays.join(format!("{}-{}", id, &sig[..10]));
    let (edition, dbg) = variant_of(f.variant);
    let v = json!({
        "property": id,
        "seed": env.seed,
        "choices": f.choices,
        "edition": edition,
        "debug_assertions": dbg,
        "case": f.desc,
        "items": f.items,
        "body": f.body,
        "input": f.input,
        "actual": f.actual,
        "why": f.why,
        "variant": f.variant,
        "compile_time": f.ct,
        "note": note,
    });
    let path = base.with_extension("json");
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

pub fn evidence(env: &Env, id: &str, stats: &Stats, rule: &str, wall: f64, violations: usize, extra: Value) {
    let dir = verif_root().join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    let mut cov = json!({
        "evaluations": stats.evals,
        "distinct_nontrivial": stats.nontrivial.len(),
        "rule": rule,
        "samples": stats.samples,
        "generated_cases": stats.cases,
        "outcomes": stats.labels,
        "case_classes": stats.classes,
    });
    if let (Some(c), Some(e)) = (cov.as_object_mut(), extra.as_object()) {
        for (k, v) in e {
            c.insert(k.clone(), v.clone());
        }
    }
    let v = json!({
        "property": id,
        "tier": if env.thorough { "thorough" } else { "quick" },
        "seed": env.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": ["the regex crate (same version as sscanf uses) and std's FromStr/Debug are trusted as reference", "rustc, cargo and the harness's own model of the documented rules"],
        "wall_s": wall,
        "violations": violations,
    });
    std::fs::write(dir.join(format!("{}.json", id)), serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

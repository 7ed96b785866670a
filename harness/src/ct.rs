//! Compile-time properties: generated programs that must (not) compile, and where their errors point.
use crate::engine::*;
use crate::fmt::*;
use crate::props::{gen_call, FmtCfg};
use crate::rx::{self, RxCfg};
use crate::src::{mix, Src};
use crate::types::*;
use crate::user::*;
use serde_json::json;
use std::collections::HashSet;
use std::path::Path;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};
use unicode_width::UnicodeWidthStr;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Expect {
    Accept,
    Reject,
    /// anything but a panic of the macro
    Any,
}

/// where the errors of a format string have to point
#[derive(Clone)]
pub struct Carets {
    /// the literal as written
    pub lit: String,
    /// allowed regions, in bytes of `lit`
    pub regions: Vec<(usize, usize)>,
    /// every region needs an error (otherwise one of them)
    pub all: bool,
    /// nothing else may be reported
    pub only: bool,
}

pub struct CtCase {
    pub items: String,
    pub body: String,
    pub expect: Expect,
    pub carets: Option<Carets>,
    pub desc: String,
    pub class: String,
}

pub type CtGen = fn(&mut Src) -> CtCase;

pub struct CtPlan {
    pub id: &'static str,
    pub gen: CtGen,
    pub batches: usize,
    pub cases: usize,
    pub rule: &'static str,
    /// expand the programs several times and compare, instead of judging them
    pub repeat: bool,
}

// ---------------------------------------------------------------------------------------------
// engine

pub enum Outcome {
    Accepted,
    Errors(Vec<Diag>),
    Crash(String),
    /// an earlier program ended the search
    Skipped,
}

fn module(k: usize, c: &CtCase) -> String {
    format!("#[allow(warnings)]\npub mod c{k} {{\nuse super::pre::*;\n{}\npub fn run(input: &str) {{\n{}\n}}\n}}\n", c.items, c.body)
}

fn compile_ct(env: &Env, dir: &Path, tag: &str, edition: &str, cases: &[&CtCase]) -> Vec<Outcome> {
    let file = dir.join(format!("{}.rs", tag));
    let meta = dir.join(format!("{}.rmeta", tag));
    let mut out: Vec<Option<Outcome>> = cases.iter().map(|_| None).collect();
    for _pass in 0..12 {
        let active: Vec<usize> = (0..cases.len()).filter(|&k| out[k].is_none()).collect();
        if active.is_empty() {
            break;
        }
        let mut text = format!("#![allow(warnings)]\n{PRE}");
        let mut ranges = vec![];
        for &k in &active {
            let start = text.matches('\n').count() + 1;
            text.push_str(&module(k, cases[k]));
            ranges.push((start, text.matches('\n').count(), k));
        }
        std::fs::write(&file, &text).unwrap();
        let cmd = env.rustc_cmd(&file, edition, &["--crate-type=lib", "--emit=metadata", "-o", meta.to_str().unwrap()]);
        if cases.len() > 1 && ENDLESS.load(Ordering::SeqCst) {
            active.iter().for_each(|&k| out[k] = Some(Outcome::Skipped));
            break;
        }
        let res = run_limited(cmd, if cases.len() == 1 { 40 } else { 100 });
        let mut progress = false;
        match &res {
            Some((st, _)) if st.success() => {
                for k in active {
                    out[k] = Some(Outcome::Accepted);
                }
                break;
            }
            Some((_, err)) => {
                for d in parse_diags(err, file.to_str().unwrap()) {
                    let Some(l) = d.lines.first() else {
                        continue;
                    };
                    if let Some((_, _, k)) = ranges.iter().find(|(a, b, _)| a <= l && l <= b) {
                        progress = true;
                        match &mut out[*k] {
                            Some(Outcome::Errors(v)) => v.push(d),
                            o => *o = Some(Outcome::Errors(vec![d])),
                        }
                    }
                }
            }
            None => {}
        }
        if !progress {
            // no position, crash or no answer: look at every case alone
            if cases.len() == 1 {
                out[0] = Some(match res {
                    None => {
                        ENDLESS.store(true, Ordering::SeqCst);
                        Outcome::Crash(ENDLESS_MSG.into())
                    }
                    Some((st, err)) => {
                        let ds = parse_diags(&err, file.to_str().unwrap());
                        if ds.is_empty() || st.code().is_none() {
                            Outcome::Crash(format!("rustc crashed ({}): {}", st, clip(&err, 600)))
                        } else {
                            Outcome::Errors(ds)
                        }
                    }
                });
                break;
            }
            for k in active {
                if ENDLESS.load(Ordering::SeqCst) {
                    out[k] = Some(Outcome::Skipped);
                    continue;
                }
                out[k] = compile_ct(env, dir, &format!("{}_one", tag), edition, &[cases[k]]).pop();
            }
            break;
        }
    }
    let _ = std::fs::remove_file(&meta);
    let _ = std::fs::remove_file(&file);
    out.into_iter().map(|o| o.unwrap_or(Outcome::Crash("no verdict".into()))).collect()
}

/// what the compiler makes of every case in each of several runs over the same file: the expanded
/// text, or the errors. In the last run, the cases are in another order.
fn repro_ct(env: &Env, dir: &Path, tag: &str, edition: &str, cases: &[&CtCase]) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = cases.iter().map(|_| vec![]).collect();
    for errors in [false, true] {
        let mut part: Vec<usize> = (0..cases.len()).filter(|&k| (cases[k].expect != Expect::Accept) == errors).collect();
        if part.is_empty() {
            continue;
        }
        // a single case: replay
        let n = if cases.len() == 1 { 16 } else if errors { 3 } else { 5 };
        for run in 0..n {
            if !errors && run == n - 1 {
                part.reverse();
            }
            let file = dir.join(format!("{}.rs", tag));
            let exp = dir.join(format!("{}.exp", tag));
            let _ = std::fs::remove_file(&exp);
            let mut text = format!("#![allow(warnings)]\n{PRE}");
            let mut ranges = vec![];
            for &k in &part {
                let start = text.matches('\n').count() + 1;
                text.push_str(&module(k, cases[k]));
                ranges.push((start, text.matches('\n').count(), k));
            }
            std::fs::write(&file, &text).unwrap();
            let mut cmd = env.rustc_cmd(&file, edition, &["--crate-type=lib", "-Zunpretty=expanded", "-o", exp.to_str().unwrap()]);
            cmd.env("RUSTC_BOOTSTRAP", "1");
            let Some((_, err)) = run_limited(cmd, 100) else {
                continue;
            };
            let mut got: Vec<String> = cases.iter().map(|_| String::new()).collect();
            for d in parse_diags(&err, file.to_str().unwrap()) {
                let Some(l) = d.lines.first() else { continue };
                if let Some((_, _, k)) = ranges.iter().find(|(a, b, _)| a <= l && l <= b) {
                    // the position in the file depends on the order
                    got[*k].push_str(if errors { &d.rendered } else { &d.msg });
                    got[*k].push('\n');
                }
            }
            if let Ok(t) = std::fs::read_to_string(&exp) {
                let mut at = None;
                for l in t.lines() {
                    if let Some(k) = l.strip_prefix("pub mod c").and_then(|r| r.strip_suffix(" {")).and_then(|r| r.parse::<usize>().ok()) {
                        at = Some(k);
                    }
                    if let Some(k) = at.filter(|&k| k < cases.len()) {
                        got[k].push_str(l.trim_end());
                        got[k].push('\n');
                    }
                    if l == "}" {
                        at = None;
                    }
                }
            }
            for &k in &part {
                out[k].push(std::mem::take(&mut got[k]));
            }
            let _ = std::fs::remove_file(&exp);
            let _ = std::fs::remove_file(&file);
        }
    }
    out
}

/// lints that users commonly deny
const LINTS: &str = "#![warn(warnings, unused, nonstandard_style, rust_2018_idioms, rust_2021_compatibility, future_incompatible, let_underscore, missing_docs, unsafe_code, unreachable_pub, unused_qualifications, single_use_lifetimes, trivial_casts, trivial_numeric_casts, unused_lifetimes, unused_results, explicit_outlives_requirements, missing_debug_implementations, meta_variable_misuse, macro_use_extern_crate, redundant_lifetimes, unit_bindings, variant_size_differences, unused_import_braces, missing_copy_implementations)]\n";

/// lints that the generated programs themselves run into; they count only inside of an expansion
const OWN_LINTS: &[&str] = &[
    "", "dead_code", "elided_lifetimes_in_paths", "let_underscore_drop", "missing_copy_implementations", "missing_debug_implementations", "missing_docs", "non_ascii_idents", "non_snake_case", "private_interfaces", "trivial_casts",
    "unused_attributes", "unused_extern_crates", "unused_qualifications", "unused_results", "variant_size_differences", "uncommon_codepoints", "mixed_script_confusables", "confusable_idents", "private_bounds", "unreachable_pub", "mismatched_lifetime_syntaxes",
];

/// the warnings about code that a macro of sscanf made, and those that the program does not earn itself
fn lint_ct(env: &Env, dir: &Path, tag: &str, edition: &str, cases: &[&CtCase]) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = cases.iter().map(|_| vec![]).collect();
    let file = dir.join(format!("{}.rs", tag));
    let meta = dir.join(format!("{}.rmeta", tag));
    let mut text = format!("{LINTS}{PRE}");
    let mut ranges = vec![];
    for (k, c) in cases.iter().enumerate() {
        let start = text.matches('\n').count() + 1;
        text.push_str(&module(k, c).replacen("#[allow(warnings)]\n", "", 1));
        ranges.push((start, text.matches('\n').count(), k));
    }
    std::fs::write(&file, &text).unwrap();
    let cmd = env.rustc_cmd(&file, edition, &["--crate-type=lib", "--emit=metadata", "-o", meta.to_str().unwrap()]);
    let Some((st, err)) = run_limited(cmd, 100) else { return out };
    if !st.success() && cases.len() > 1 {
        // a program that is rejected hides the warnings of the others
        return cases.iter().map(|c| lint_ct(env, dir, tag, edition, &[*c]).pop().unwrap()).collect();
    }
    for line in err.lines() {
        let Ok(v) = serde_json::from_str::<serde_json::Value>(line) else { continue };
        if v["level"] != "warning" {
            continue;
        }
        let code = v["code"]["code"].as_str().unwrap_or("");
        let mut made = false;
        let mut at = None;
        for mut sp in v["spans"].as_array().unwrap_or(&vec![]) {
            loop {
                if sp["file_name"].as_str() == file.to_str() {
                    at = at.or(sp["line_start"].as_u64());
                }
                let x = &sp["expansion"];
                if !x.is_object() {
                    break;
                }
                made |= x["macro_decl_name"].as_str().is_some_and(|n| n.to_lowercase().contains("scanf"));
                sp = &x["span"];
            }
        }
        let msg = v["message"].as_str().unwrap_or("");
        let own = match code {
            "unused_variables" => msg.contains("`input`"),
            "unused_parens" => msg.contains("around type"),
            "unused_assignments" => msg.contains("passed to `x`"),
            "unused_imports" => msg.contains("super::pre"),
            _ => OWN_LINTS.contains(&code),
        };
        if !made && own {
            continue;
        }
        let Some(l) = at else { continue };
        if let Some((_, _, k)) = ranges.iter().find(|(a, b, _)| *a <= l as usize && l as usize <= *b) {
            out[*k].push(format!("{}: {}", code, v["rendered"].as_str().unwrap_or("")));
        }
    }
    let _ = std::fs::remove_file(&file);
    let _ = std::fs::remove_file(&meta);
    out
}

/// the first lines that differ between two runs
fn judge_repro(runs: &[String]) -> Option<(String, String)> {
    let first = runs.first()?;
    // the printer of the compiler breaks lines depending on what follows
    let bare = |t: &str| t.chars().filter(|c| !c.is_whitespace()).collect::<String>();
    let (n, other) = runs.iter().enumerate().find(|(_, r)| *r != first && bare(r) != bare(first))?;
    let d = first.lines().zip(other.lines()).find(|(a, b)| bare(a) != bare(b)).unwrap_or(("(shorter)", "(shorter)"));
    Some((format!("run 1:  {}\nrun {}: {}", d.0, n + 1, d.1), "the same program expands in different ways".into()))
}

fn judge_ct(c: &CtCase, o: &Outcome) -> Option<String> {
    match o {
        Outcome::Crash(e) => Some(e.clone()),
        Outcome::Skipped => None,
        Outcome::Accepted if c.expect == Expect::Reject => Some("an invalid program compiles".into()),
        Outcome::Accepted => None,
        Outcome::Errors(ds) => {
            if let Some(d) = ds.iter().find(|d| d.msg.contains("panicked") || d.rendered.contains("proc-macro derive panicked") || d.rendered.contains("proc macro panicked")) {
                return Some(format!("the macro panics: {}", clip(&d.rendered, 500)));
            }
            if c.expect == Expect::Accept {
                return Some("a valid program does not compile".into());
            }
            if ds.iter().all(|d| d.msg.trim().is_empty()) {
                return Some("the error has no message".into());
            }
            c.carets.as_ref().and_then(|k| judge_carets(k, ds))
        }
    }
}

fn judge_carets(k: &Carets, ds: &[Diag]) -> Option<String> {
    let cols: Vec<(usize, usize)> = k.regions.iter().map(|&(a, b)| (UnicodeWidthStr::width(&k.lit[..a]), UnicodeWidthStr::width(&k.lit[..b]))).collect();
    let mut hit = vec![false; cols.len()];
    for d in ds {
        if k.only && !d.msg.contains(&k.lit) {
            return Some(format!("an error that does not show the literal: {:?}", d.msg));
        }
        let lines: Vec<&str> = d.msg.lines().collect();
        for (i, l) in lines.iter().enumerate() {
            let Some(at) = l.find(&k.lit) else { continue };
            let base = UnicodeWidthStr::width(&l[..at]);
            let mark = lines.get(i + 1).copied().unwrap_or("");
            let lead = mark.len() - mark.trim_start_matches(' ').len();
            let n = mark[lead..].chars().take_while(|c| *c == '^').count();
            if n == 0 || lead + n != mark.chars().count() {
                return Some(format!("no underline below the literal in: {:?}", d.msg));
            }
            let (a, b) = (lead as i64 - base as i64, lead as i64 + n as i64 - base as i64);
            match cols.iter().position(|&(x, y)| x as i64 <= a && b <= y as i64) {
                Some(j) => hit[j] = true,
                None => return Some(format!("columns {}..{} of the literal are underlined, the wrong part is at {:?}", a, b, cols)),
            }
        }
    }
    if k.all && hit.iter().any(|h| !h) || !hit.iter().any(|&h| h) {
        return Some(format!("no error points at columns {:?}", cols.iter().zip(&hit).filter(|(_, h)| !**h).map(|(c, _)| c).collect::<Vec<_>>()));
    }
    None
}

fn ct_batch(env: &Env, plan: &CtPlan, dir: &Path, tag: &str, variant: usize, choices: Vec<(Vec<u64>, Option<u64>)>) -> (Vec<Failure>, Stats) {
    let (edition, _) = variant_of(variant);
    let mut cs = vec![];
    for (ch, seed) in choices {
        let mut s = match seed {
            Some(x) => Src::random(x),
            None => Src::replay(ch),
        };
        let c = (plan.gen)(&mut s);
        cs.push((c, s.rec));
    }
    let refs: Vec<&CtCase> = cs.iter().map(|(c, _)| c).collect();
    let mut st = Stats::default();
    let mut fails = vec![];
    if plan.repeat {
        let runs = repro_ct(env, dir, tag, edition, &refs);
        for ((c, rec), r) in cs.iter().zip(&runs) {
            st.cases += 1;
            st.evals += r.len();
            *st.classes.entry(c.class.clone()).or_default() += 1;
            let shown = r.iter().find(|t| !t.is_empty());
            *st.labels.entry(if shown.is_none() { "silent" } else if c.expect == Expect::Accept { "expanded" } else { "errors" }.to_string()).or_default() += 1;
            if let Some(t) = shown {
                st.nontrivial.insert(hash(&[&c.items, &c.body]));
                if st.samples.len() < 40 && !st.samples.iter().any(|s| s["class"] == json!(c.class)) {
                    st.samples.push(json!({"class": c.class, "case": clip(&format!("{}{}", c.items, c.body), 400), "result": clip(t, 300)}));
                }
            }
            if let Some((shown, why)) = judge_repro(r) {
                fails.push(Failure { choices: rec.clone(), variant, input: None, ct: true, actual: clip(&shown, 2000), why, items: c.items.clone(), body: c.body.clone(), desc: format!("[{}, edition {}] {}", c.class, edition, c.desc) });
            }
        }
        return (fails, st);
    }
    if plan.id == "C27" {
        let lints = lint_ct(env, dir, tag, edition, &refs);
        for ((c, rec), r) in cs.iter().zip(&lints) {
            st.cases += 1;
            st.evals += 1;
            *st.classes.entry(c.class.clone()).or_default() += 1;
            *st.labels.entry(if r.is_empty() { "silent" } else { "warnings" }.to_string()).or_default() += 1;
            st.nontrivial.insert(hash(&[&c.items, &c.body]));
            if st.samples.len() < 40 && !st.samples.iter().any(|s| s["class"] == json!(c.class)) {
                st.samples.push(json!({"class": c.class, "case": clip(&format!("{}{}", c.items, c.body), 400), "result": "no warning"}));
            }
            if let Some(t) = r.first() {
                fails.push(Failure { choices: rec.clone(), variant, input: None, ct: true, actual: clip(t, 2000), why: "the use of the macro adds a warning".into(), items: c.items.clone(), body: c.body.clone(), desc: format!("[{}, edition {}] {}", c.class, edition, c.desc) });
            }
        }
        return (fails, st);
    }
    let outs = compile_ct(env, dir, tag, edition, &refs);
    for ((c, rec), o) in cs.iter().zip(&outs) {
        st.cases += 1;
        st.evals += 1;
        *st.classes.entry(c.class.clone()).or_default() += 1;
        let label = match o {
            Outcome::Skipped => "skipped",
            Outcome::Accepted => "compiles",
            Outcome::Errors(_) => "rejected",
            Outcome::Crash(_) => "crash",
        };
        *st.labels.entry(label.to_string()).or_default() += 1;
        let shown = match o {
            Outcome::Errors(d) => d.iter().map(|d| d.msg.clone()).collect::<Vec<_>>().join("\n---\n"),
            Outcome::Crash(e) => e.clone(),
            _ => "compiles".into(),
        };
        if c.expect != Expect::Any && !matches!(o, Outcome::Skipped) || matches!(o, Outcome::Errors(_)) {
            st.nontrivial.insert(hash(&[&c.items, &c.body]));
            let key = format!("{}/{}", c.class, label);
            if st.samples.len() < 40 && !st.samples.iter().any(|s| s["class"] == json!(key)) {
                st.samples.push(json!({"class": key, "case": clip(&format!("{}{}", c.items, c.body), 400), "result": clip(&shown, 300)}));
            }
        }
        if let Some(why) = judge_ct(c, o) {
            fails.push(Failure {
                choices: rec.clone(),
                variant,
                input: None,
                ct: true,
                actual: clip(&shown, 2000),
                why,
                items: c.items.clone(),
                body: c.body.clone(),
                desc: format!("[{}, edition {}] {}", c.class, edition, c.desc),
            });
        }
    }
    (fails, st)
}

pub fn ct_search(env: &Env, plan: &CtPlan, stats: &mut Stats) -> Vec<Failure> {
    let dir = env.work(&format!("{}_ct", plan.id));
    let mut fails = vec![];
    let wave = THREADS * 2;
    let mut p = 0;
    while p < plan.batches && fails.is_empty() {
        let n = wave.min(plan.batches - p);
        let res = parallel(n, |i| {
            let b = p + i;
            let ch = (0..plan.cases).map(|k| (vec![], Some(mix(mix(mix(env.seed, hash(&[plan.id, "ct"])), b as u64), k as u64)))).collect();
            ct_batch(env, plan, &dir, &format!("b{}", b), b, ch)
        });
        for (f, s) in res {
            fails.extend(f);
            stats.merge(s);
        }
        p += n;
    }
    fails
}

pub fn ct_replay(env: &Env, plan: &CtPlan, choices: Vec<u64>, variant: usize) -> Option<Failure> {
    let dir = env.work(&format!("{}_ct_replay", plan.id));
    ct_batch(env, plan, &dir, "r", variant, vec![(choices, None)]).0.pop()
}

pub fn ct_shrink(env: &Env, plan: &CtPlan, f: &Failure) -> Failure {
    if f.why == ENDLESS_MSG {
        return f.clone();
    }
    let dir = env.work(&format!("{}_ct_shrink", plan.id));
    let mut best = f.clone();
    let start = Instant::now();
    for _ in 0..25 {
        let mut seen = HashSet::new();
        let mut work = vec![];
        for c in shrink_candidates(&best.choices) {
            let mut s = Src::replay(c);
            let case = (plan.gen)(&mut s);
            if (s.rec.len(), &s.rec) >= (best.choices.len(), &best.choices) || !seen.insert(s.rec.clone()) {
                continue;
            }
            work.push((case.items.len() + case.body.len(), s.rec));
        }
        work.sort();
        let mut improved = false;
        for batch in work.chunks(THREADS * 16) {
            let groups: Vec<&[(usize, Vec<u64>)]> = batch.chunks(16).collect();
            let res = parallel(groups.len(), |g| {
                let ch = groups[g].iter().map(|(_, c)| (c.clone(), None)).collect();
                ct_batch(env, plan, &dir, &format!("g{}", g), best.variant, ch).0
            });
            let mut found: Vec<Failure> = res.into_iter().flatten().filter(|g| g.why.split(':').next() == f.why.split(':').next()).collect();
            found.sort_by_key(|g| (g.choices.len(), g.choices.clone()));
            if let Some(g) = found.into_iter().next() {
                best = g;
                improved = true;
                break;
            }
            if start.elapsed() > Duration::from_secs(120) {
                return best;
            }
        }
        if !improved || start.elapsed() > Duration::from_secs(120) {
            break;
        }
    }
    best
}

// ---------------------------------------------------------------------------------------------
// format strings made of pieces whose place in the literal is known

#[derive(Clone)]
struct Seg {
    text: String,
    /// literal text (may be spelled with escapes)
    lit: bool,
}

fn seg(t: &str) -> Seg {
    Seg { text: t.to_string(), lit: false }
}

fn segs_of(f: &Fmt) -> Vec<Seg> {
    f.parts
        .iter()
        .map(|p| match p {
            Part::Lit(t) => Seg { text: dbl(t), lit: true },
            Part::Rx(r) => Seg { text: dbl(&r.src()), lit: true },
            Part::Ph(p) => seg(&p.text()),
        })
        .collect()
}

/// literal and the range of every piece in it
fn spell(s: &mut Src, segs: &[Seg]) -> (String, Vec<(usize, usize)>) {
    let all: String = segs.iter().map(|x| x.text.as_str()).collect();
    let ctl = all.chars().any(|c| c.is_control());
    let mut pos = vec![];
    if s.chance(1, 2) && !ctl {
        let mut h = 0;
        while all.contains(&format!("\"{}", "#".repeat(h))) {
            h += 1;
        }
        if s.chance(1, 3) {
            h += 1;
        }
        let mut out = format!("r{}\"", "#".repeat(h));
        for x in segs {
            let a = out.len();
            out.push_str(&x.text);
            pos.push((a, out.len()));
        }
        out.push('"');
        out.push_str(&"#".repeat(h));
        return (out, pos);
    }
    let mut out = String::from("\"");
    let wild = s.chance(1, 3);
    for x in segs {
        let a = out.len();
        for c in x.text.chars() {
            match c {
                '"' => out.push_str("\\\""),
                '\\' => out.push_str("\\\\"),
                '\n' => out.push_str("\\n"),
                '\t' => out.push_str("\\t"),
                '\0' => out.push_str("\\0"),
                c if c.is_control() => out.push_str(&format!("\\u{{{:x}}}", c as u32)),
                c if wild && x.lit && !matches!(c, '{' | '}') && s.chance(1, 6) => out.push_str(&format!("\\u{{{:x}}}", c as u32)),
                c => out.push(c),
            }
        }
        pos.push((a, out.len()));
    }
    out.push('"');
    (out, pos)
}

const WIDE: &[&str] = &["日本", "é", "😀", "ﾊ", "a", " ", "한", "e\u{301}", "→", "x{{", "}}y", "\"", "\\", "ß", "你好 ", "{{}}", "<>"];

fn wide_text(s: &mut Src) -> String {
    (0..s.range(1, 4)).map(|_| *s.pick(WIDE)).collect()
}

/// a placeholder that takes the next type or field
fn is_auto(t: &str) -> bool {
    t == "{}" || t.starts_with("{:") && !t.starts_with("{::")
}

/// a valid call: pieces and type arguments
fn base_call(s: &mut Src, min: usize, max: usize) -> (Vec<Seg>, Vec<String>) {
    let cfg = FmtCfg { min, max, opts: 3, sep: 7, big_lits: false };
    let c = gen_call(s, &cfg, &mut |s| Ty::Sc(gen_sc(s, true)));
    let mut segs = segs_of(&c.fmt);
    // wide characters in front of anything
    if s.chance(1, 3) {
        let i = s.idx(segs.len() + 1);
        segs.insert(i, Seg { text: wide_text(s), lit: true });
    }
    (segs, c.args)
}

const MACROS: &[&str] = &["sscanf", "sscanf", "sscanf", "sscanf_get_regex", "sscanf_unescaped", "scanf", "scanf_get_regex", "scanf_unescaped"];

fn call_body(mac: &str, lit: &str, args: &[String]) -> String {
    let a: String = args.iter().map(|a| format!(", {}", a)).collect();
    if mac.ends_with("get_regex") {
        format!("let _ = ::sscanf::{}!({}{});", mac, lit, a)
    } else {
        format!("let _ = ::sscanf::{}!(input, {}{});", mac, lit, a)
    }
}

fn case(items: String, body: String, expect: Expect, class: &str) -> CtCase {
    let desc = if items.is_empty() { body.clone() } else { format!("{}{}", items, body) };
    CtCase { items, body, expect, carets: None, desc, class: class.to_string() }
}

/// (placeholder text, class) that can never be valid, with a type that exists inline
fn bad_ph(s: &mut Src) -> (String, &'static str) {
    // the type is given inline or, for std types, left to an argument
    let int = *s.pick(&["u8", "i32", "usize", "u128", "i64"]);
    match s.weighted(&[2, 4, 3, 3, 3, 4, 4, 2, 2, 3]) {
        0 => (format!("{{{}:}}", int), "empty option"),
        1 => {
            let o = s.pick(&[
                "q", "bob", "X", "B", "O", "xx", "d", " x", "x ", "?", "r", "r ", "rx", "r1.0", "r-2", "r 2", "R16", "16", "0x", "xo", "é", "日", "10", "r_8", "bx", "r2r", "\\", "x,", "s", "e", ".2", "5", "*", "%", "^5", "<", "a/b/",
                "x/", "r16/",
            ]);
            (format!("{{{}:{}}}", int, o), "unknown option")
        }
        2 => {
            let n = match s.idx(4) {
                0 => *s.pick(&[0usize, 1, 37]),
                1 => s.range(37, 255),
                2 => s.range(256, 999),
                _ => 18446744073709551615,
            };
            (format!("{{{}:r{}}}", int, n), "radix out of range")
        }
        3 => {
            let o = s.pick(&["#", "#r16", "r16#", "#x#", "##", "#q", "q#", "#r2", "r36#", "##x", "x##", "#?", "b#o", "#X", "# x", "x #"]);
            (format!("{{{}:{}}}", int, o), "misplaced #")
        }
        4 => {
            let t = s.pick(&["f64", "String", "bool", "char", "str", "f32", "::std::num::NonZeroU8", "std::path::PathBuf", "std::primitive::f32", "std::borrow::Cow<str>", "std::string::String"]);
            let o = s.pick(&["x", "o", "b", "#x", "b#", "r2", "r10", "r16", "r36"]);
            (format!("{{{}:{}}}", t, o), "radix on a non-integer")
        }
        5 => {
            let re = bad_regex(s);
            let t = *s.pick(&["str", "u8", "String"]);
            (format!("{{{}:/{}/}}", t, rx::slash_escape(&re)), "malformed regex")
        }
        6 => {
            let re = capturing(s);
            let t = *s.pick(&["str", "u8", "String", "f32"]);
            (format!("{{{}:/{}/}}", t, rx::slash_escape(&re)), "capturing regex")
        }
        7 => {
            let t = *s.pick(&["str", "u8"]);
            (format!("{{{}:/{}/{}}}", t, s.pick(&["a+", "", "[ab]", "x"]), s.pick(&["x", "/", " ", "g", "i", "{", ":x"])), "text after a regex")
        }
        8 => (format!("{{/{}/}}", s.pick(&["a+", "x", ".*?", "é", "a|b", "\\d"])), "regex without ':'"),
        _ => {
            let t = s.pick(&[".", "99", "3000000000", "a b", "u8,", "&u8", "&mut str", "u8 u8", "!", "u8;", "=", "+u8", "u8 +", ",", "#u8", "?", "5u8", "'a", "a.b", "-1", "u8=u8", "for", "fn", "&'static str"]);
            (format!("{{{}}}", t), "invalid type")
        }
    }
}

fn bad_regex(s: &mut Src) -> String {
    let bad = *s.pick(&[
        "(", ")", "[", "*", "+", "?", "a{2,1}", "(?P<n", "\\p{Foo}", "(?=a)", "(?!a)", "\\1", "[z-a]", "(?<=a)", "a**{", "\\x{110000}", "(?z)", "{2}", "[[:foo:]]", "(?P<1a>x)", "[a-\\d]", "\\xg", "(?", "(?:a", "a)b", "x{99999}", "\\q", "(?i",
    ]);
    // some of these are accepted by the regex crate: leave the decision to it
    let pre: String = if s.chance(1, 2) { rx::gen_top(s, &RxCfg { allow_alt_top: false, ..RxCfg::default() }).src() } else { String::new() };
    let full = format!("{}{}", pre, bad);
    match regex::Regex::new(&full) {
        Ok(_) => format!("{}(", pre),
        // "too big" would not be a syntax error
        Err(regex::Error::CompiledTooBig(_)) => format!("{}[", pre),
        Err(_) => full,
    }
}

/// a valid regex with a capture group at some depth
pub fn capturing(s: &mut Src) -> String {
    fn wrap(s: &mut Src, r: String, depth: usize) -> String {
        if depth == 0 {
            return r;
        }
        let sib = |s: &mut Src| s.pick(&["a", "[b-d]", "\\d+", "x?", "(?:yz)", "\\(", "[(]", "é", ""]).to_string();
        let quant = |s: &mut Src| s.pick(&["*", "+", "?", "*?", "+?", "??", "{2}", "{1,}", "{0,2}", "{3}?", "{2,}?", "{1,4}?"]).to_string();
        let t = match s.idx(11) {
            0 => format!("{}{}", sib(s), r),
            1 => format!("{}{}", r, sib(s)),
            2 => format!("(?:{})", r),
            3 => format!("(?:{}){}", r, quant(s)),
            8 => format!("({}{}:{}){}", "?", s.pick(&["i", "s", "U", "i-s", "s-i", "-u", "m"]), r, if s.chance(1, 2) { quant(s) } else { String::new() }),
            9 => format!("{}(?:{}|{}|{})", sib(s), sib(s), r, sib(s)),
            10 => format!("{}(?:{}){}{}", s.pick(&["", "^", "\\b", "(?i)"]), r, s.pick(&["", "$", "\\B"]), sib(s)),
            4 => format!("(?:{}|{})", sib(s), r),
            5 => format!("(?:{}|{})?", r, sib(s)),
            6 => format!("(?i:{}){{1,2}}", r),
            _ => format!("{}|{}", sib(s), r),
        };
        wrap(s, t, depth - 1)
    }
    // any part of any regex
    if s.chance(1, 2) {
        let mut rx = rx::gen_top(s, &RxCfg::default());
        let n = rx.nodes();
        let mut at = s.idx(n);
        let form = *s.pick(&["(", "(", "(?P<n>", "(?P<g_1>"]);
        rx.replace(&mut at, &|r| rx::Rx::Fixed(format!("{}{})", form, r.src()), vec![]));
        let t = rx.src();
        if regex::Regex::new(&t).map(|r| r.captures_len() > 1).unwrap_or(false) {
            return t;
        }
    }
    let core = match s.idx(7) {
        0 => "(a)".to_string(),
        1 => "(?P<n>a)".into(),
        2 => "()".into(),
        3 => "(a|b)".into(),
        4 => "(?P<x1>[0-9]+)+".into(),
        5 => "(?:a)(b)".into(),
        _ => "((?:a))".into(),
    };
    let d = s.range(0, 4);
    let r = wrap(s, core, d);
    debug_assert!(regex::Regex::new(&r).map(|r| r.captures_len() > 1).unwrap_or(false));
    r
}

/// an unclosed placeholder; has to be the last one of the format string
fn unclosed(s: &mut Src) -> (String, &'static str) {
    let t = s.pick(&["{", "{u8", "{:", "{u8:", "{:x", "{:#", "{:r1", "{u8:/ab", "{:/a+/", "{str:/", "{str:/a}b", "{std::string", "{str:/[}]/", "{str:/\\/", "{:/a\\", "{é", "{ ", "{u8:/x/y", "{a:b"]);
    (t.to_string(), "unclosed placeholder")
}

/// text that cannot end or continue a placeholder
fn plain_tail(s: &mut Src) -> String {
    if s.chance(1, 2) {
        String::new()
    } else {
        (0..s.range(1, 3)).map(|_| *s.pick(&["a", " ", "日", ".", "1", "xyz", "é", "-", "😀"])).collect()
    }
}

fn insert_at(s: &mut Src, segs: &mut Vec<Seg>, x: Seg) -> usize {
    let i = s.idx(segs.len() + 1);
    segs.insert(i, x);
    i
}

/// format string errors; returns pieces, arguments, regions given as piece indices
struct BadFmt {
    segs: Vec<Seg>,
    args: Vec<String>,
    bad: Vec<usize>,
    all: bool,
    class: String,
}

fn stray_ok(segs: &[Seg], i: usize) -> (usize, usize) {
    // the run of '}' that contains piece i
    let mut a = i;
    while a > 0 && segs[a - 1].lit && segs[a - 1].text.ends_with('}') {
        a -= 1;
    }
    let mut b = i;
    while b + 1 < segs.len() && segs[b + 1].text.starts_with('}') {
        b += 1;
    }
    (a, b)
}

fn bad_fmt(s: &mut Src) -> BadFmt {
    let (mut segs, args) = base_call(s, 0, 4);
    match s.weighted(&[3, 4, 10, 4, 3]) {
        0 => {
            // a brace
            let i = insert_at(s, &mut segs, seg("}"));
            let (a, b) = stray_ok(&segs, i);
            BadFmt { segs, args, bad: (a..=b).collect(), all: false, class: "stray }".into() }
        }
        1 => {
            let (t, class) = unclosed(s);
            let tail = plain_tail(s);
            let escape_end = t.ends_with('\\');
            let text = if t == "{" && tail.is_empty() || escape_end { t } else { format!("{}{}", t, tail) };
            segs.push(seg(&text));
            let i = segs.len() - 1;
            BadFmt { segs, args, bad: vec![i], all: true, class: class.into() }
        }
        2 => {
            let (t, class) = bad_ph(s);
            let i = insert_at(s, &mut segs, seg(&t));
            BadFmt { segs, args, bad: vec![i], all: true, class: class.into() }
        }
        3 => {
            // several placeholders whose type cannot be resolved
            let n = s.range(1, 3);
            for _ in 0..n {
                let t = match s.idx(4) {
                    0 => format!("{{{}}}", args.len() + s.idx(40)),
                    1 => format!("{{{}:/a/}}", args.len() + s.idx(40)),
                    2 => format!("{{{}}}", s.pick(&[".", "a b", "!", "&u8", "u8,"])),
                    _ => format!("{{{}:x}}", s.pick(&["=", "u8 u8", "-"])),
                };
                insert_at(s, &mut segs, Seg { text: format!("\u{1}{}", t), lit: false });
            }
            let mut bad = vec![];
            for (i, x) in segs.iter_mut().enumerate() {
                if let Some(t) = x.text.strip_prefix('\u{1}') {
                    x.text = t.to_string();
                    bad.push(i);
                }
            }
            BadFmt { segs, args, bad, all: true, class: format!("{} unresolved types", n) }
        }
        _ => {
            // more placeholders than types: the last ones are wrong
            let n = s.range(1, 3);
            for _ in 0..n {
                let t = s.pick(&["{}", "{}", "{:/a/}", "{:x}"]).to_string();
                segs.push(seg(&t));
                if s.chance(1, 2) {
                    segs.push(Seg { text: wide_text(s), lit: true });
                }
            }
            let auto: Vec<usize> = segs.iter().enumerate().filter(|(_, x)| !x.lit && is_auto(&x.text)).map(|(i, _)| i).collect();
            // indices may use up arguments, but automatic ones always count from the first
            let nargs = args.len();
            let bad: Vec<usize> = if auto.len() > nargs { auto[nargs..].to_vec() } else { vec![] };
            if bad.is_empty() {
                // all of them found an argument: make it certain
                let t = format!("{{{}}}", nargs);
                segs.push(seg(&t));
                let i = segs.len() - 1;
                return BadFmt { segs, args, bad: vec![i], all: true, class: "index out of range".into() };
            }
            BadFmt { segs, args, bad, all: true, class: "missing types".into() }
        }
    }
}

fn merge_adjacent(pos: &[(usize, usize)], bad: &[usize], joined: bool) -> Vec<(usize, usize)> {
    if joined {
        vec![(pos[bad[0]].0, pos[*bad.last().unwrap()].1)]
    } else {
        bad.iter().map(|&i| pos[i]).collect()
    }
}

fn bad_call(s: &mut Src) -> CtCase {
    let b = bad_fmt(s);
    let (lit, pos) = spell(s, &b.segs);
    let mac = *s.pick(MACROS);
    let mut c = case(String::new(), call_body(mac, &lit, &b.args), Expect::Reject, &format!("format: {}", b.class));
    c.carets = Some(Carets { lit, regions: merge_adjacent(&pos, &b.bad, b.class == "stray }"), all: b.all, only: true });
    c
}

// ---------------------------------------------------------------------------------------------
// derive inputs

struct Derived {
    user: User,
    /// index of the variant to edit (enum)
    at: usize,
}

impl Derived {
    fn target(&mut self) -> &mut Variant {
        match &mut self.user.kind {
            Kind::Struct(v) => v,
            Kind::Enum(vs, _) => &mut vs[self.at],
            _ => unreachable!(),
        }
    }
    fn is_enum(&self) -> bool {
        matches!(self.user.kind, Kind::Enum(..))
    }
    /// all items, with marks replaced
    fn items(self, repl: &[(&str, &str)]) -> String {
        let u = Rc::new(self.user);
        let mut t = u.items();
        for (a, b) in repl {
            t = t.replace(a, b);
        }
        t
    }
}

/// a valid derive input with a format in the target; the format is not `transparent`
fn derived(s: &mut Src, min_fields: usize) -> Derived {
    let cfg = Ucfg { depth: s.weighted(&[4, 1]), max_fields: 5, max_variants: 4, ..Ucfg::default() };
    for _ in 0..30 {
        let mut ctx = Ctx::new();
        let u = if s.chance(1, 2) { gen_struct(s, &cfg, &mut ctx) } else { gen_enum(s, &cfg, &mut ctx) };
        drop(ctx);
        let Ok(mut user) = Rc::try_unwrap(u) else { continue };
        let ok = |v: &Variant| matches!(&v.source, Source::Fmt(a, ..) if a != "transparent") && v.fields.len() >= min_fields;
        let at = match &user.kind {
            Kind::Struct(v) if ok(v) => 0,
            Kind::Enum(vs, _) => match vs.iter().position(ok) {
                Some(i) => i,
                None => continue,
            },
            _ => continue,
        };
        // generics may depend on placeholders
        if !user.args.is_empty() {
            continue;
        }
        user.derives = *s.pick(&["Debug, ::sscanf::FromScanf", "::sscanf::FromScanf", "::sscanf::FromScanf, Debug"]);
        return Derived { user, at };
    }
    // certain to exist
    let mut fields = vec![];
    let mut parts = vec![];
    let mut map = vec![];
    for i in 0..min_fields.max(1) {
        fields.push(Field { name: format!("f{}", i), decl: "u8".into(), attr: FAttr::None });
        if i > 0 {
            parts.push(Part::Lit(",".into()));
        }
        parts.push(Part::Ph(Ph::new(&format!("f{}", i), Ty::Sc(Sc::U(8)))));
        map.push(i);
    }
    let fmt = Fmt::new(parts);
    let attr = format!("{:?}", fmt.text());
    let v = Variant { name: "S1".into(), style: Style::Named, fields, source: Source::Fmt(attr, fmt, map) };
    Derived { user: User { name: "S1".into(), lt: false, generics: Default::default(), args: String::new(), kind: Kind::Struct(v), deps: vec![], derives: "::sscanf::FromScanf", fromstr: false, noise: 0 }, at: 0 }
}

const MARK: &str = "#[sscanf(@@)]";
const FMARK: &str = "#[sscanf(@f@)]";

/// takes the format out of the target and leaves a mark: pieces, field of each placeholder, and the
/// spelling of the attribute around a literal
fn take_format(s: &mut Src, d: &mut Derived) -> (Vec<Seg>, Vec<usize>, bool) {
    let v = d.target();
    let Source::Fmt(attr, fmt, map) = std::mem::replace(&mut v.source, Source::None) else { unreachable!() };
    let unescaped = attr.starts_with('r') || attr.starts_with("format_unescaped");
    let mut segs = segs_of(&fmt);
    let map2 = map.clone();
    if s.chance(1, 3) && !unescaped {
        let i = s.idx(segs.len() + 1);
        segs.insert(i, Seg { text: wide_text(s), lit: true });
    }
    v.source = Source::Fmt("@@".into(), fmt, map);
    (segs, map2, unescaped)
}

fn fmt_attr(s: &mut Src, lit: &str, unescaped: bool) -> String {
    let raw = lit.starts_with('r');
    if unescaped {
        if raw && s.chance(1, 2) {
            lit.to_string()
        } else {
            format!("format_unescaped = {}", lit)
        }
    } else if !raw && s.chance(1, 2) {
        lit.to_string()
    } else {
        format!("format = {}", lit)
    }
}

/// indices of the placeholder pieces
fn ph_idx(segs: &[Seg]) -> Vec<usize> {
    segs.iter().enumerate().filter(|(_, x)| !x.lit).map(|(i, _)| i).collect()
}

fn field_ref(s: &mut Src, d: &mut Derived, fi: usize) -> String {
    let v = d.target();
    if v.style == Style::Named && s.chance(2, 3) {
        v.fields[fi].name.clone()
    } else {
        fi.to_string()
    }
}

/// errors in the format of a derived type
fn bad_derive_fmt(s: &mut Src) -> CtCase {
    let k = s.weighted(&[6, 3, 3, 3, 4, 3]);
    let mut d = derived(s, if k == 1 || k == 2 { 1 } else { 0 });
    let (mut segs, map, unescaped) = take_format(s, &mut d);
    let mut bad: Vec<usize> = vec![];
    let mut all = true;
    let mut carets = true;
    let mut joined = false;
    let class: String;
    match k {
        0 => {
            // independent of fields
            match s.weighted(&[2, 3, 8]) {
                0 => {
                    let i = insert_at(s, &mut segs, seg("}"));
                    let (a, b) = stray_ok(&segs, i);
                    bad = (a..=b).collect();
                    joined = true;
                    class = "stray }".into();
                }
                1 => {
                    let (t, c) = unclosed(s);
                    segs.push(seg(&t));
                    bad.push(segs.len() - 1);
                    class = c.into();
                }
                _ => {
                    // an option error: put a field in place of the type
                    let n = d.target().fields.len();
                    let (mut t, mut c) = bad_ph(s);
                    for _ in 0..20 {
                        // a lone '#' is noticed only when everything else is right
                        if !matches!(c, "radix on a non-integer" | "invalid type") && !t.ends_with(":#}") {
                            break;
                        }
                        let x = bad_ph(s);
                        t = x.0;
                        c = x.1;
                    }
                    if c == "radix on a non-integer" || c == "invalid type" || t.ends_with(":#}") {
                        t = "{:q}".into();
                        c = "unknown option";
                    }
                    if let Some(j) = t.find(':').filter(|_| t.starts_with('{') && !t.starts_with("{/")) {
                        let id = if n == 0 || s.chance(1, 2) { String::new() } else { let i = s.idx(n); field_ref(s, &mut d, i) };
                        t = format!("{{{}{}", id, &t[j..]);
                    }
                    let i = insert_at(s, &mut segs, seg(&t));
                    bad.push(i);
                    class = c.into();
                }
            }
        }
        1 => {
            // a field without a source
            let phs = ph_idx(&segs);
            carets = false;
            if !phs.is_empty() && s.chance(1, 2) {
                let i = *s.pick(&phs);
                segs.remove(i);
            } else {
                let v = d.target();
                if v.style == Style::Unit {
                    v.style = Style::Named;
                }
                let at = if v.style == Style::Named { s.idx(v.fields.len() + 1) } else { v.fields.len() };
                // explicit tuple indices stay valid because the new field is the last one
                let numbered = segs.iter().any(|x| !x.lit && x.text[1..].starts_with(|c: char| c.is_ascii_digit()));
                let at = if numbered { v.fields.len() } else { at };
                v.fields.insert(at, Field { name: "lonely".into(), decl: s.pick(&["u8", "String", "Option<u8>"]).to_string(), attr: FAttr::None });
            }
            class = "field without a source".into();
        }
        2 => {
            // two sources
            let n = d.target().fields.len();
            let fi = s.idx(n);
            let id = field_ref(s, &mut d, fi);
            let i = insert_at(s, &mut segs, seg(&format!("{{{}}}", id)));
            let _ = i;
            carets = false;
            if let Some(k) = map.iter().position(|&m| m == fi) {
                // the other explicit placeholder of the same field
                let phs: Vec<usize> = ph_idx(&segs).into_iter().filter(|&x| x != i).collect();
                let other = phs[k];
                let auto = is_auto(&segs[other].text);
                if !auto {
                    carets = true;
                    all = true;
                    bad = vec![i.min(other), i.max(other)];
                }
            } else {
                carets = true;
                bad = vec![i];
            }
            class = "field with two sources".into();
        }
        3 => {
            // too many automatic placeholders: the last ones are surplus
            let n = s.range(1, 3);
            for _ in 0..n {
                insert_at(s, &mut segs, seg("{}"));
            }
            let auto: Vec<usize> = ph_idx(&segs).into_iter().filter(|&i| is_auto(&segs[i].text)).collect();
            bad = auto[auto.len() - n..].to_vec();
            class = "surplus placeholder".into();
        }
        4 => {
            // fields that do not exist
            let n = s.range(1, 3);
            let nf = d.target().fields.len();
            let name = d.target().fields.first().map(|f| f.name.clone()).unwrap_or("a".into());
            for _ in 0..n {
                let t = match s.idx(6) {
                    0 => "nosuch".to_string(),
                    1 => (nf + s.idx(50)).to_string(),
                    2 => format!("{} ", name),
                    3 => format!(" {}", name),
                    4 => s.pick(&["u8", "str", "String", "Self", "self", "-1", "日本", "::a", "a::b", "1.0", "0x0"]).to_string(),
                    _ => format!("{}{}", name, s.pick(&["q", "_", "0", "é", "?"])),
                };
                // a tuple field "0" with a suffix could be an existing index
                let t = if t.chars().all(|c| c.is_ascii_digit()) && t.parse::<usize>().map(|x| x < nf).unwrap_or(false) { "nosuch".to_string() } else { t };
                let exists = d.target().fields.iter().any(|f| f.name == t);
                let t = if exists { "nosuch".to_string() } else { t };
                let o = s.pick(&["", "", ":x", ":/a/"]);
                insert_at(s, &mut segs, seg(&format!("\u{1}{{{}{}}}", t, o)));
            }
            for (i, x) in segs.iter_mut().enumerate() {
                if let Some(t) = x.text.strip_prefix('\u{1}') {
                    x.text = t.to_string();
                    bad.push(i);
                }
            }
            class = format!("{} unknown fields", n);
        }
        _ => {
            // radix on a field that is not an integer
            let v = d.target();
            if v.style == Style::Unit {
                v.style = Style::Tuple;
            }
            let at = v.fields.len();
            let (decl, attr) = match s.idx(4) {
                0 => ("String".to_string(), FAttr::None),
                1 => ("f64".to_string(), FAttr::None),
                // converted: the option applies to the type that is matched
                2 => ("u8".to_string(), conv_attr("map = |x: String| x.len() as u8")),
                _ => ("bool".to_string(), FAttr::None),
            };
            v.fields.push(Field { name: "last_one".into(), decl, attr });
            let o = s.pick(&["x", "o", "b", "#x", "r2", "r36", "x#"]);
            let i = insert_at(s, &mut segs, seg(&format!("{{{}:{}}}", at, o)));
            bad.push(i);
            // reported at the type of the field
            carets = false;
            class = "radix on a non-integer field".into();
        }
    }
    let (lit, pos) = spell(s, &segs);
    let attr = fmt_attr(s, &lit, unescaped);
    let items = d.items(&[(MARK, &format!("#[sscanf({})]", attr))]);
    let mut c = case(items, String::new(), Expect::Reject, &format!("derive: {}", class));
    if carets && !bad.is_empty() {
        c.carets = Some(Carets { lit, regions: merge_adjacent(&pos, &bad, joined), all, only: k != 2 });
    }
    c
}

fn conv_attr(a: &str) -> FAttr {
    FAttr::Default(a.to_string(), String::new())
}

/// misuse of the attribute on a struct or variant
fn bad_item_attr(s: &mut Src) -> CtCase {
    let mut d = derived(s, 0);
    let (segs, _, unescaped) = take_format(s, &mut d);
    let (lit, _) = spell(s, &segs);
    let a = fmt_attr(s, &lit, unescaped);
    let is_enum = d.is_enum();
    let wrong: &[&str] = if is_enum {
        &["default", "default = 5", "map = |x: u8| x", "filter_map = |x: u8| Some(x)", "from = u8", "try_from = u8", "autogen", "autogenerate = \"CaseSensitive\""]
    } else {
        &["default", "default = 5", "map = |x: u8| x", "filter_map = |x: u8| Some(x)", "from = u8", "try_from = u8", "autogen", "autogenerate", "skip"]
    };
    let unknown: &[&str] = &["bob", "bob = 1", "formt = \"a\"", "Format = \"a\"", "transparant", "formatunescaped = \"a\"", "format_unescape = \"a\"", "fmt = \"{}\"", "skipp", "x", "TRANSPARENT", "regex = \"a\"", "mapp = |x: u8| x", "defaut"];
    let (text, class): (String, String) = match s.idx(12) {
        0 => (format!("#[sscanf({a}, {a})]"), "repeated attribute".into()),
        1 => (format!("#[sscanf({a})]\n#[sscanf({a})]"), "repeated attribute".into()),
        2 => {
            let other = if unescaped { "format = \"a\"" } else { "format_unescaped = \"a\"" };
            let sep = *s.pick(&[", ", ")]\n#[sscanf("]);
            if s.chance(1, 2) {
                (format!("#[sscanf({a}{sep}{other})]"), "conflicting formats".into())
            } else {
                (format!("#[sscanf({other}{sep}{a})]"), "conflicting formats".into())
            }
        }
        3 => {
            let sep = *s.pick(&[", ", ")]\n#[sscanf("]);
            if s.chance(1, 2) {
                (format!("#[sscanf({a}{sep}transparent)]"), "format and transparent".into())
            } else {
                (format!("#[sscanf(transparent{sep}{a})]"), "format and transparent".into())
            }
        }
        4 => {
            let u = s.pick(unknown);
            let sep = *s.pick(&[", ", ")]\n#[sscanf("]);
            if s.chance(1, 2) {
                (format!("#[sscanf({a}{sep}{u})]"), "unknown attribute".into())
            } else {
                (format!("#[sscanf({u}{sep}{a})]"), "unknown attribute".into())
            }
        }
        5 => (format!("#[sscanf({})]", s.pick(unknown)), "unknown attribute".into()),
        6 => {
            let u = s.pick(wrong);
            match s.idx(3) {
                0 => (format!("#[sscanf({u})]"), "attribute of another place".into()),
                1 => (format!("#[sscanf({a}, {u})]"), "attribute of another place".into()),
                _ => (format!("#[sscanf({u})]\n#[sscanf({a})]"), "attribute of another place".into()),
            }
        }
        7 => (
            s.pick(&["#[sscanf]", "#[sscanf = \"a\"]", "#[sscanf = 5]"]).to_string(),
            "attribute without parentheses".into(),
        ),
        8 => {
            let bad = s.pick(&[
                "format", "format =", "format = 5", "format = 'c'", "format = b\"x\"", "format = true", "format = foo", "format = \"a\" + \"b\"", "format(\"a\")", "format \"a\"", "format: \"a\"", "= \"a\"", "5", "'c'", "format = |x| x",
                "format_unescaped", "format_unescaped = 5", "transparent = true", "transparent(5)", "transparent = \"a\"", "format == \"a\"", ",", "b\"a\"", "format = {}", "format = u8", "!", "\"a\" \"b\"", "\"a\" = 5", "format, = \"a\"", "format = concat!(\"a\")",
            ]);
            (format!("#[sscanf({bad})]"), "malformed attribute".into())
        }
        9 if is_enum => {
            let sep = *s.pick(&[", ", ")]\n#[sscanf("]);
            if s.chance(1, 2) {
                (format!("#[sscanf({a}{sep}skip)]"), "format and skip".into())
            } else {
                (format!("#[sscanf(skip{sep}transparent)]"), "transparent and skip".into())
            }
        }
        9 => (s.pick(&["", "#[sscanf()]", "#[doc = \"x\"]"]).to_string(), "struct without a format".into()),
        10 if d.target().fields.len() != 1 => ("#[sscanf(transparent)]".into(), "transparent with several or no fields".into()),
        _ => (format!("#[sscanf({a} bob)]"), "missing comma".into()),
    };
    let items = d.items(&[(MARK, &text)]);
    case(items, String::new(), Expect::Reject, &format!("attribute: {}", class))
}

/// misuse of the attribute on a field; the field is the last one and has the type u8
fn bad_field_attr(s: &mut Src) -> CtCase {
    let mut d = derived(s, 0);
    let (mut segs, _, unescaped) = take_format(s, &mut d);
    let (attr, uses_ph, class): (String, bool, &str) = match s.idx(9) {
        0 => (
            s.pick(&["#[sscanf(map)]", "#[sscanf(filter_map)]", "#[sscanf(from)]", "#[sscanf(try_from)]", "#[sscanf(map =)]", "#[sscanf(from =)]", "#[sscanf(try_from =)]", "#[sscanf(filter_map =)]", "#[sscanf(default =)]"]).to_string(),
            true,
            "attribute without its value",
        ),
        1 => (
            s.pick(&[
                "#[sscanf(map = \"\")]", "#[sscanf(map = 5)]", "#[sscanf(map = u8)]", "#[sscanf(map = f)]", "#[sscanf(map = fn(x: u8))]", "#[sscanf(filter_map = Some)]", "#[sscanf(map = { |x: u8| x })]", "#[sscanf(map = (|x: u8| x))]", "#[sscanf(filter_map = \"a\")]",
                "#[sscanf(map = u8::from)]",
            ])
            .to_string(),
            true,
            "map without a closure",
        ),
        2 => (
            s.pick(&[
                "#[sscanf(map = || 5)]", "#[sscanf(map = |x| x)]", "#[sscanf(map = |x: u8, y: u8| x)]", "#[sscanf(map = |_| 5)]", "#[sscanf(filter_map = || None)]", "#[sscanf(filter_map = |x| Some(x))]", "#[sscanf(filter_map = |x: u8, y: u8| Some(x))]",
                "#[sscanf(map = |x: u8, y| x)]", "#[sscanf(map = |(a, b)| a)]", "#[sscanf(map = move || 3)]",
            ])
            .to_string(),
            true,
            "closure without exactly one typed argument",
        ),
        3 => (
            s.pick(&["#[sscanf(from = \"\")]", "#[sscanf(from = 5)]", "#[sscanf(try_from = |x: u8| x)]", "#[sscanf(from = 'c')]", "#[sscanf(try_from = \"u8\")]", "#[sscanf(from = u8 u8)]", "#[sscanf(from = u8 + 1)]", "#[sscanf(from = &u8)]", "#[sscanf(try_from = {u8})]"]).to_string(),
            true,
            "from without a type",
        ),
        4 => {
            let a = s.pick(&["default", "default = 5", "map = |x: u8| x", "filter_map = |x: u8| Some(x)", "from = u8", "try_from = u8"]);
            let b = s.pick(&["default", "default = 5", "map = |x: u8| x", "filter_map = |x: u8| Some(x)", "from = u8", "try_from = u8"]);
            let sep = *s.pick(&[", ", ")] #[sscanf("]);
            (format!("#[sscanf({a}{sep}{b})]"), !a.contains("default") && !b.contains("default"), "several attributes on a field")
        }
        5 => (
            format!(
                "#[sscanf({})]",
                s.pick(&["bob", "defualt", "mapp = |x: u8| x", "Default", "form = u8", "tryfrom = u8", "filtermap = |x: u8| Some(x)", "into = u8", "x = 5", "with = 5", "skip_", "DEFAULT = 5"])
            ),
            true,
            "unknown attribute on a field",
        ),
        6 => (
            format!(
                "#[sscanf({})]",
                s.pick(&["format = \"a\"", "\"a\"", "r\"a\"", "format_unescaped = \"a\"", "transparent", "skip", "autogen", "autogenerate = \"snake_case\""])
            ),
            true,
            "attribute of another place on a field",
        ),
        7 => (
            s.pick(&["#[sscanf]", "#[sscanf = 5]", "#[sscanf(= 5)]", "#[sscanf(default 5)]", "#[sscanf(default(5))]", "#[sscanf(5)]", "#[sscanf(,)]", "#[sscanf(default: 5)]", "#[sscanf(default = 5 6)]", "#[sscanf(default == 5)]", "#[sscanf(default,, default)]"]).to_string(),
            false,
            "malformed field attribute",
        ),
        _ => {
            // accepted by the macro, rejected by the type checker
            let (a, ph) = *s.pick(&[
                ("default = \"\"", false),
                ("default = None", false),
                ("default = 256 + 1u16", false),
                ("map = |x: u16| x", true),
                ("map = |x: String| x", true),
                ("map = |x: u8| Some(x)", true),
                ("filter_map = |x: u8| x", true),
                ("filter_map = |x: u16| Some(x)", true),
                ("from = f32", true),
                ("from = u16", true),
                ("try_from = String", true),
                ("map = |x: NoSuchType| 5", true),
                ("map = |x: ::std::sync::Mutex<u8>| 5", true),
                ("from = ::std::sync::Mutex<u8>", true),
                ("map = |x: Vec<u8>| 5", true),
                ("default = nosuch()", false),
            ]);
            (format!("#[sscanf({a})]"), ph, "conversion of the wrong type")
        }
    };
    let v = d.target();
    if v.style == Style::Unit {
        v.style = if s.chance(1, 2) { Style::Named } else { Style::Tuple };
    }
    let at = v.fields.len();
    v.fields.push(Field { name: "last_one".into(), decl: "u8".into(), attr: FAttr::Default("@f@".into(), String::new()) });
    if uses_ph {
        let named = v.style == Style::Named && s.chance(1, 2);
        let id = if named { "last_one".to_string() } else { at.to_string() };
        let i = s.idx(segs.len() + 1);
        segs.insert(i, seg(&format!("{{{}}}", id)));
    }
    let (lit, _) = spell(s, &segs);
    let a = fmt_attr(s, &lit, unescaped);
    let items = d.items(&[(MARK, &format!("#[sscanf({})]", a)), (FMARK, &attr)]);
    case(items, String::new(), Expect::Reject, &format!("field: {}", class))
}

/// enums and unions as a whole
fn bad_enum(s: &mut Src) -> CtCase {
    let names = ["A", "B", "Foo", "Bar", "Zed", "Qq"];
    let n = s.range(1, 4);
    let unit = |s: &mut Src, i: usize, attr: &str| format!("{} {}{},\n", attr, names[i], s.pick(&["", "{}", "()"]));
    let body = |s: &mut Src, attr: &str| -> String { (0..n).map(|i| unit(s, i, attr)).collect() };
    let der = "#[derive(::sscanf::FromScanf)]\n";
    let (items, class) = match s.idx(8) {
        0 => {
            let bad = s.pick(&[
                "autogen = \"bob\"", "autogen = \"casesensitive\"", "autogen = {}", "autogen = 5", "autogen =", "autogen = snake_case", "autogen = \"\"", "autogen = \"Snake_case\"", "autogen = \"snakecase \"", "autogen = \"kebab_case\"", "autogen(\"CaseSensitive\")",
                "autogen = 'c'", "autogenerate = \"uppercase\"", "autogen = \"lowerCase\"", "autogen = true", "autogen \"CaseSensitive\"",
            ]);
            let b = body(s, "");
            (format!("{der}#[sscanf({bad})]\nenum E {{\n{b}}}\n"), "invalid autogen value")
        }
        1 => {
            // a variant with fields under autogen
            let at = s.idx(n + 1);
            let v = s.pick(&["X(u8),\n", "X { a: u8 },\n", "X(#[sscanf(default)] u8),\n", "X(u8, String),\n", "X { #[sscanf(default)] a: u8 },\n"]);
            let mut b = String::new();
            for i in 0..=n {
                if i == at {
                    b.push_str(v);
                }
                if i < n {
                    let a = *s.pick(&["", "", "#[sscanf(skip)]", "#[sscanf(\"x\")]"]);
                    b.push_str(&unit(s, i, a));
                }
            }
            let ag = s.pick(&["autogen", "autogenerate", "autogen = \"snake_case\"", "autogen = \"CaseInsensitive\""]);
            (format!("{der}#[sscanf({ag})]\nenum E {{\n{b}}}\n"), "autogen with fields")
        }
        2 => {
            let a = s.pick(&[
                "#[sscanf(autogen, autogenerate)]", "#[sscanf(autogen, autogen)]", "#[sscanf(autogen)]\n#[sscanf(autogen)]", "#[sscanf(autogen)]\n#[sscanf(autogenerate = \"snake_case\")]", "#[sscanf(autogen, bob)]", "#[sscanf(autogen = \"snake_case\", autogen = \"camelCase\")]",
            ]);
            let b = body(s, "");
            (format!("{der}{a}\nenum E {{\n{b}}}\n"), "conflicting autogen")
        }
        3 => {
            let a = s.pick(&["", "#[sscanf(autogen)]\n", "#[sscanf(autogen = \"camelCase\")]\n", "#[sscanf()]\n"]);
            let skip = if a.is_empty() || a.contains("()") { *s.pick(&["", "#[sscanf(skip)]"]) } else { "#[sscanf(skip)]" };
            let b = body(s, skip);
            (format!("{der}{a}enum E {{\n{b}}}\n"), "no constructible variant")
        }
        4 => {
            let a = s.pick(&["", "#[sscanf(autogen)]\n"]);
            (format!("{der}{a}enum E {{}}\n"), "no variants")
        }
        5 => {
            let a = s.pick(&["", "#[sscanf(\"{a}\")]\n", "#[sscanf(format = \"\")]\n", "#[sscanf(transparent)]\n"]);
            (format!("{der}{a}union U {{ a: u8, b: i8 }}\n"), "union")
        }
        6 => {
            let a = s.pick(&["format = \"a\"", "\"a\"", "transparent", "skip", "default", "format_unescaped = \"a\"", "from = u8", "map = |x: u8| x", "bob", "autogn", "Autogen"]);
            let v = s.pick(&["", "#[sscanf(\"x\")]"]);
            let b = body(s, v);
            (format!("{der}#[sscanf({a})]\nenum E {{\n{b}}}\n"), "wrong attribute on an enum")
        }
        _ => {
            let a = s.pick(&["#[sscanf(skip = true)]", "#[sscanf(skip, skip)]", "#[sscanf(skip)] #[sscanf(\"a\")]", "#[sscanf(default)]", "#[sscanf(transparent)]", "#[sscanf(autogen)]", "#[sscanf(skp)]", "#[sscanf(from = u8)]", "#[sscanf]", "#[sscanf = \"a\"]", "#[sscanf(\"{}\")]", "#[sscanf(\"{a}\")]", "#[sscanf(\"{0}\")]"]);
            // `skip` ignores its value in the macro: only count the others
            let a = if a.contains("skip = ") { "#[sscanf(skipp)]" } else { a };
            let at = s.idx(n);
            let b: String = (0..n).map(|i| if i == at { unit(s, i, a) } else { unit(s, i, "#[sscanf(\"x\")]") }).collect();
            let ag = s.pick(&["", "#[sscanf(autogen)]\n"]);
            (format!("{der}{ag}enum E {{\n{b}}}\n"), "wrong attribute on a variant")
        }
    };
    case(items, String::new(), Expect::Reject, &format!("enum: {}", class))
}

/// wrong arguments of the macros
fn bad_args(s: &mut Src) -> CtCase {
    let (segs, args) = base_call(s, 0, 3);
    let (lit, _) = spell(s, &segs);
    let mac = *s.pick(MACROS);
    let regex_only = mac.ends_with("get_regex");
    let inp = if regex_only { "" } else { "input, " };
    let a: String = args.iter().map(|a| format!(", {}", a)).collect();
    let k = s.idx(9);
    let (text, class) = match k {
        0 => {
            let t = s.pick(&["u8", "String", "std::string::String", "&str", "Vec<u8>", "bool"]);
            let mut v = args.clone();
            let at = v.len();
            // at the end, so that nothing else changes its type
            v.insert(at, t.to_string());
            (format!("{inp}{lit}, {}", v.join(", ")), "unused type")
        }
        1 => {
            let bad = s.pick(&["format!(\"\")", "5", "b\"a\"", "'c'", "concat!(\"a\")", "FMT", "\"a\".to_string()", "(\"a\")", "&\"a\"", "true", "{ \"a\" }", "1.5", "b'a'", "c\"a\"", "stringify!(a)", "-1", "input"]);
            (format!("{inp}{bad}{a}"), "format is not a string literal")
        }
        2 => {
            if regex_only {
                (String::new(), "missing parameters")
            } else {
                (s.pick(&["", "input", "input,", "input, ,", ",", "\"a\""]).to_string(), "missing parameters")
            }
        }
        3 => {
            let bad = s.pick(&["5", "'x'", "\"u8\"", "u8 + u8", "x = 5", "&u8", "&mut str", "(u8, u8)", "[u8; 2]", "[u8]", "&[u8]", "fn(u8)", "*const u8", "!", "_", "dyn Clone", "impl Clone", "u8 u8", "|x| x", "&'static str", "'a str", "if", "?"]);
            // one more placeholder takes it
            let mut sg = segs.clone();
            sg.push(seg("{}"));
            let (l2, _) = spell(s, &sg);
            (format!("{inp}{l2}{a}, {bad}"), "type argument is not a type")
        }
        4 if !regex_only => {
            let bad = s.pick(&["5usize", "b\"x\"", "Some(\"x\")", "'c'", "()", "vec![\"x\"]", "1.5", "nosuch", "[\"a\"]", "(\"a\", \"b\")", "&5", "true", "::std::path::Path::new(\"a\")", "|| \"a\"", "::std::ffi::OsString::new()"]);
            (format!("{bad}, {lit}{a}"), "input is not a string")
        }
        5 => {
            let n = "nosuch::Type";
            let mut sg = segs.clone();
            let t = s.pick(&["{NoSuchType}", "{std::nope::X}", "{NoSuch<u8>}", "{u7}", "{strr}", "{nosuch::Type:/a/}", "{crate_::x}", "{T}", "{Self}"]);
            insert_at(s, &mut sg, seg(t));
            let _ = n;
            let (l2, _) = spell(s, &sg);
            (format!("{inp}{l2}{a}"), "unknown type")
        }
        6 => {
            // a type without the traits
            let t = s.pick(&["Vec<u8>", "Option<u8>", "::std::time::Duration", "::std::sync::Mutex<u8>", "::std::net::IpAddr", "Box<str>", "::std::rc::Rc<String>", "::std::ops::Range<u8>", "Result<u8, u8>", "PhantomNo"]);
            let mut sg = segs.clone();
            let mut extra = String::new();
            if s.chance(1, 2) {
                sg.push(seg("{}"));
                extra = format!(", {}", t);
                // automatic placeholders come first
                if sg.iter().filter(|x| !x.lit && is_auto(&x.text)).count() != args.len() + 1 {
                    sg.pop();
                    sg.push(seg(&format!("{{{}}}", args.len())));
                }
            } else {
                insert_at(s, &mut sg, seg(&format!("{{{}}}", t)));
            }
            let (l2, _) = spell(s, &sg);
            (format!("{inp}{l2}{a}{extra}"), "type without the traits")
        }
        7 => {
            // one argument less: some placeholder loses its type
            if args.is_empty() {
                (format!("{inp}{lit} u8"), "missing comma")
            } else {
                let v: Vec<String> = args[..args.len() - 1].to_vec();
                let a2: String = v.iter().map(|a| format!(", {}", a)).collect();
                (format!("{inp}{lit}{a2}"), "missing type")
            }
        }
        _ => {
            let t = if regex_only { format!("{lit}{a},, u8") } else { format!("input {lit}{a}") };
            (t, "malformed arguments")
        }
    };
    let mut items = "struct PhantomNo;\n".to_string();
    if class == "type without the traits" {
        items.push_str(match s.idx(3) {
            0 => "",
            1 => "impl ::std::str::FromStr for PhantomNo { type Err = ::std::convert::Infallible; fn from_str(_: &str) -> Result<Self, Self::Err> { Ok(PhantomNo) } }\n",
            _ => "impl ::sscanf::RegexRepresentation for PhantomNo { const REGEX: &'static str = \".*\"; }\n",
        });
    }
    case(items, format!("let _ = ::sscanf::{}!({});", mac, text), Expect::Reject, &format!("arguments: {}", class))
}

// ---------------------------------------------------------------------------------------------
// valid programs that look like the invalid ones

fn valid(s: &mut Src) -> CtCase {
    match s.idx(4) {
        0 => {
            let (mut segs, args) = base_call(s, 0, 4);
            for _ in 0..s.range(1, 3) {
                let t = s.pick(&[
                    "{u8:r2}", "{i8:r36}", "{u8:x#}", "{u64:#b}", "{usize:o}", "{str:/a}b/}", "{str:/\\//}", "{str:/\\\\/}", "{str:/[(]/}", "{str:/\\(a\\)/}", "{str:/(?:a|b)/}", "{str:/(?i:a)/}", "{std::string::String}", "{::std::primitive::u8}", "{std::borrow::Cow<str>}",
                    "{&str}", "{core::primitive::str}", "{String:/}/}", "{u8:/:/}", "{str:/{{/}", "{str:/a{2}/}", "{f32:/\\d/}", "{str://}", "{ u8 }", "{char:/[{}]/}",
                ]);
                insert_at(s, &mut segs, seg(t));
            }
            if s.chance(1, 2) {
                let esc = *s.pick(&["}}", "{{", "{{}}", "}}{{", "{{u8}}", "{{:x}}"]);
                insert_at(s, &mut segs, Seg { text: esc.to_string(), lit: true });
            }
            // `{str:/{{/}` is a repetition of nothing for some versions: leave it out
            segs.iter_mut().for_each(|x| {
                if x.text == "{str:/{{/}" {
                    x.text = "{str}".into();
                }
            });
            let (lit, _) = spell(s, &segs);
            let mac = *s.pick(&["sscanf", "sscanf_get_regex", "scanf"]);
            let mut b = call_body(mac, &lit, &args);
            if s.chance(1, 3) {
                b = b.replace(");", ",);");
            }
            case(String::new(), b, Expect::Accept, "valid: call")
        }
        1 => {
            let mut d = derived(s, 0);
            let (segs, _, unescaped) = take_format(s, &mut d);
            let (lit, _) = spell(s, &segs);
            let a = fmt_attr(s, &lit, unescaped);
            let text = match s.idx(6) {
                0 => format!("#[sscanf({a})]\n#[sscanf()]"),
                1 => format!("#[sscanf()]\n#[sscanf({a})]"),
                2 => format!("#[sscanf({a},)]"),
                3 => format!("/// doc\n#[sscanf({a})]\n#[allow(dead_code)]"),
                4 => format!("#[doc = \"#[sscanf(skip)]\"]\n#[sscanf({a})]"),
                _ => format!("#[sscanf(\n{a}\n)]"),
            };
            case(d.items(&[(MARK, &text)]), String::new(), Expect::Accept, "valid: attribute")
        }
        2 => {
            let mut d = derived(s, 0);
            let (mut segs, _, unescaped) = take_format(s, &mut d);
            let (a, ph) = *s.pick(&[
                ("#[sscanf(default,)]", false),
                ("#[sscanf(default = 5,)]", false),
                ("#[sscanf()]", true),
                ("#[sscanf()] #[sscanf(default)]", false),
                ("/// doc\n", true),
                ("#[allow(unused)]", true),
                ("#[sscanf(map = |x: u8| x)]", true),
                ("#[sscanf(map = |mut x: u8| { x = 1; x })]", true),
                ("#[sscanf(map = |_: u8| 7)]", true),
                ("#[sscanf(map = |x: u8| -> u8 { x })]", true),
                ("#[sscanf(map = |x: ::std::string::String| x.len() as u8)]", true),
                ("#[sscanf(filter_map = |x: u8| Some(x))]", true),
                ("#[sscanf(filter_map = |x: String| x.parse().ok())]", true),
                ("#[sscanf(from = bool)]", true),
                ("#[sscanf(from = ::std::primitive::u8)]", true),
                ("#[sscanf(try_from = char,)]", true),
                ("#[sscanf(default = { let a = 5; a })]", false),
                ("#[sscanf(default = (|| 5)())]", false),
                ("#[sscanf(default = if true { 1 } else { 2 })]", false),
                ("#[sscanf(default = u8::max_value())]", false),
            ]);
            let v = d.target();
            if v.style == Style::Unit {
                v.style = if s.chance(1, 2) { Style::Named } else { Style::Tuple };
            }
            let at = v.fields.len();
            v.fields.push(Field { name: "last_one".into(), decl: "u8".into(), attr: FAttr::Default("@f@".into(), String::new()) });
            if ph {
                let named = v.style == Style::Named && s.chance(1, 2);
                let id = if named { "last_one".to_string() } else { at.to_string() };
                let i = s.idx(segs.len() + 1);
                segs.insert(i, seg(&format!("{{{}}}", id)));
            }
            let (lit, _) = spell(s, &segs);
            let at = fmt_attr(s, &lit, unescaped);
            case(d.items(&[(MARK, &format!("#[sscanf({})]", at)), (FMARK, a)]), String::new(), Expect::Accept, "valid: field attribute")
        }
        _ => {
            let ag = s.pick(&[
                "autogen", "autogenerate", "autogen = \"lower case\"", "autogen = \"UPPER CASE\"", "autogen = \"lowercase\"", "autogen = \"UPPERCASE\"", "autogen = \"PascalCase\"", "autogen = \"camelCase\"", "autogen = \"snake_case\"", "autogen = \"SCREAMING_SNAKE_CASE\"",
                "autogen = \"kebab-case\"", "autogen = \"SCREAMING-KEBAB-CASE\"", "autogen = \"CaseSensitive\"", "autogen = \"CaseInsensitive\"", "autogenerate = r\"camelCase\"", "autogen,", "autogen = \"snake_case\",",
            ]);
            let mut b = String::new();
            let n = s.range(1, 4);
            let names = ["A", "Bcd", "FooBar", "r#Type", "X1"];
            for nm in names.iter().take(n) {
                let v = s.pick(&["@", "@ {}", "@ ()", "#[sscanf(skip)] @(u8)", "#[sscanf(\"<{}>\")] @(u8)", "#[sscanf(transparent)] @ { a: u8 }", "#[sscanf(\"a\")] @", "#[sscanf()] @", "/// doc\n@"]);
                b.push_str(&format!("{},\n", v.replace('@', nm)));
            }
            b.push_str("Last");
            case(format!("#[derive(::sscanf::FromScanf)]\n#[sscanf({ag})]\nenum E {{\n{b}\n}}\n"), String::new(), Expect::Accept, "valid: autogen")
        }
    }
}

// ---------------------------------------------------------------------------------------------
// arbitrary strings, judged by an independent reading of the documented syntax

#[derive(Debug, PartialEq)]
enum Valid {
    Yes,
    No,
    Unknown,
}

struct PhRef {
    ident: String,
    opt: String,
    has_opt: bool,
}

/// placeholders of a format string; Err(true): certainly invalid, Err(false): not decided here
fn read_format(t: &str) -> Result<Vec<PhRef>, bool> {
    let c: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < c.len() {
        match c[i] {
            '{' if c.get(i + 1) == Some(&'{') => i += 2,
            '}' if c.get(i + 1) == Some(&'}') => i += 2,
            '}' => return Err(true),
            '{' => {
                i += 1;
                let mut ident = String::new();
                // up to '}' or a single ':'
                let mut has_opt = false;
                loop {
                    match c.get(i) {
                        None => return Err(true),
                        Some('}') => break,
                        Some(':') if c.get(i + 1) == Some(&':') => {
                            ident.push_str("::");
                            i += 2;
                        }
                        Some(':') => {
                            has_opt = true;
                            i += 1;
                            break;
                        }
                        Some(x) => {
                            ident.push(*x);
                            i += 1;
                        }
                    }
                }
                let mut opt = String::new();
                if has_opt {
                    if c.get(i) == Some(&'/') {
                        opt.push('/');
                        i += 1;
                        loop {
                            match c.get(i) {
                                None => return Err(true),
                                Some('\\') if c.get(i + 1).is_some() => {
                                    opt.push('\\');
                                    opt.push(c[i + 1]);
                                    i += 2;
                                }
                                Some('/') => {
                                    opt.push('/');
                                    i += 1;
                                    break;
                                }
                                Some(x) => {
                                    opt.push(*x);
                                    i += 1;
                                }
                            }
                        }
                        if c.get(i) != Some(&'}') {
                            return Err(true);
                        }
                    } else {
                        loop {
                            match c.get(i) {
                                None => return Err(true),
                                Some('}') => break,
                                Some(x) => {
                                    opt.push(*x);
                                    i += 1;
                                }
                            }
                        }
                    }
                }
                i += 1;
                out.push(PhRef { ident, opt, has_opt });
            }
            _ => i += 1,
        }
    }
    Ok(out)
}

fn opt_ok(p: &PhRef, is_int: bool) -> Valid {
    if !p.has_opt {
        return if p.ident.starts_with('/') && p.ident.ends_with('/') { Valid::No } else { Valid::Yes };
    }
    if let Some(r) = p.opt.strip_prefix('/') {
        let r = &r[..r.len() - 1];
        // "\/" stands for "/", every other escape is kept
        let mut re = String::new();
        let mut it = r.chars();
        while let Some(ch) = it.next() {
            if ch == '\\' {
                match it.next() {
                    Some('/') => re.push('/'),
                    Some(x) => {
                        re.push('\\');
                        re.push(x);
                    }
                    None => return Valid::Unknown,
                }
            } else {
                re.push(ch);
            }
        }
        return match regex::Regex::new(&re) {
            Ok(r) if r.captures_len() == 1 => Valid::Yes,
            Ok(_) => Valid::No,
            Err(regex::Error::Syntax(_)) => Valid::No,
            Err(_) => Valid::Unknown,
        };
    }
    match p.opt.as_str() {
        "x" | "o" | "b" | "#x" | "x#" | "#o" | "o#" | "#b" | "b#" => {
            if is_int {
                Valid::Yes
            } else {
                Valid::No
            }
        }
        o => match o.strip_prefix('r') {
            Some(n) if !n.is_empty() && n.chars().all(|c| c.is_ascii_digit()) => match n.parse::<u32>() {
                _ if n.starts_with('0') && n.len() > 1 => Valid::Unknown,
                Ok(n) if (2..=36).contains(&n) => {
                    if is_int {
                        Valid::Yes
                    } else {
                        Valid::No
                    }
                }
                _ => Valid::No,
            },
            Some(n) if n.starts_with('+') => Valid::Unknown,
            _ => Valid::No,
        },
    }
}

const INTS: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"];
const OTHERS: &[&str] = &["str", "String", "bool", "char", "f32", "f64"];

fn combine(v: Valid, w: Valid) -> Valid {
    match (v, w) {
        (Valid::No, _) | (_, Valid::No) => Valid::No,
        (Valid::Unknown, _) | (_, Valid::Unknown) => Valid::Unknown,
        _ => Valid::Yes,
    }
}

/// sscanf!(input, t, args...)
fn validate_call(t: &str, args: &[&str]) -> Valid {
    let phs = match read_format(t) {
        Ok(p) => p,
        Err(true) => return Valid::No,
        Err(false) => return Valid::Unknown,
    };
    let mut v = Valid::Yes;
    let mut used = vec![false; args.len()];
    let mut next = 0;
    for p in &phs {
        let ty: Option<&str> = if p.ident.is_empty() {
            next += 1;
            if next > args.len() {
                v = combine(v, Valid::No);
                continue;
            }
            used[next - 1] = true;
            Some(args[next - 1])
        } else if p.ident.chars().all(|c| c.is_ascii_digit()) {
            if p.ident.len() > 1 && p.ident.starts_with('0') {
                v = combine(v, Valid::Unknown);
                // cannot tell which arguments are used
                used.iter_mut().for_each(|u| *u = true);
                continue;
            }
            match p.ident.parse::<usize>() {
                Ok(n) if n < args.len() => {
                    used[n] = true;
                    Some(args[n])
                }
                _ => {
                    v = combine(v, Valid::No);
                    continue;
                }
            }
        } else if INTS.contains(&p.ident.as_str()) || OTHERS.contains(&p.ident.as_str()) {
            Some(&p.ident)
        } else if p.ident.starts_with(|c: char| c.is_alphabetic()) && p.ident.chars().all(|c| c.is_alphanumeric()) {
            // no such type (a keyword is no type either)
            v = combine(v, if p.ident == "Self" { Valid::Unknown } else { Valid::No });
            continue;
        } else {
            v = combine(v, if p.ident.starts_with('/') && p.ident.ends_with('/') && !p.has_opt { Valid::No } else { Valid::Unknown });
            if p.ident.starts_with('+') {
                used.iter_mut().for_each(|u| *u = true);
            }
            None
        };
        let is_int = ty.map(|t| INTS.contains(&t)).unwrap_or(true);
        v = combine(v, opt_ok(p, is_int));
    }
    if used.iter().any(|u| !u) {
        v = combine(v, Valid::No);
    }
    v
}

/// #[sscanf(format = t)] struct { names: types } with the given defaults
fn validate_derive(t: &str, fields: &[(&str, &str, bool)]) -> Valid {
    let phs = match read_format(t) {
        Ok(p) => p,
        Err(true) => return Valid::No,
        Err(false) => return Valid::Unknown,
    };
    let mut v = Valid::Yes;
    let mut src: Vec<Option<usize>> = fields.iter().map(|f| f.2.then_some(usize::MAX)).collect();
    for (k, p) in phs.iter().enumerate() {
        if p.ident.is_empty() {
            continue;
        }
        let fi = fields.iter().position(|f| f.0 == p.ident).or_else(|| if p.ident.starts_with('0') && p.ident.len() > 1 { None } else { p.ident.parse::<usize>().ok().filter(|&n| n < fields.len() && !p.ident.starts_with('+')) });
        match fi {
            None => return Valid::No,
            Some(f) if src[f].is_some() => return Valid::No,
            Some(f) => src[f] = Some(k),
        }
    }
    for (k, p) in phs.iter().enumerate() {
        if p.ident.is_empty() {
            match src.iter().position(|x| x.is_none()) {
                None => return Valid::No,
                Some(f) => src[f] = Some(k),
            }
        }
    }
    for (f, x) in fields.iter().zip(&src) {
        match x {
            None => return Valid::No,
            Some(k) if *k != usize::MAX => v = combine(v, opt_ok(&phs[*k], INTS.contains(&f.1))),
            _ => {}
        }
    }
    v
}

const FRAGS: &[&str] = &[
    "{", "}", "{{", "}}", ":", "/", "x", "r", "16", "#", "u8", "str", "0", "1", "a", "\\", "(", ")", "[a]", " ", "é", "{}", "{u8}", "{:x}", "::", "{:/", "/}", "{0}", "{a}", "b", "r2", "?", "*", "日", "{:", "+", "|", "\"", "\n", "😀", "String", "{b}",
    ".", "-", "'", "<", ">", "&", "{1}", "\t", "_", "=",
];

fn arb_string(s: &mut Src) -> String {
    match s.weighted(&[3, 4, 1]) {
        0 => (0..s.range(1, 12)).map(|_| *s.pick(FRAGS)).collect(),
        1 => {
            let (segs, _) = base_call(s, 1, 3);
            let t: String = segs.iter().map(|x| x.text.as_str()).collect();
            let mut v: Vec<char> = t.chars().collect();
            for _ in 0..s.range(1, 2) {
                let i = s.idx(v.len() + 1);
                match s.idx(4) {
                    0 if i < v.len() => {
                        v.remove(i);
                    }
                    1 if i < v.len() => {
                        let c = v[i];
                        v.insert(i, c);
                    }
                    2 if i < v.len() => {
                        v[i] = s.pick(FRAGS).chars().next().unwrap();
                    }
                    _ => {
                        let f: Vec<char> = s.pick(FRAGS).chars().collect();
                        for (k, c) in f.into_iter().enumerate() {
                            v.insert(i + k, c);
                        }
                    }
                }
            }
            v.into_iter().collect()
        }
        _ => (0..s.range(1, 30)).map(|_| char::from_u32(s.below(0x3000) as u32).unwrap_or('a')).filter(|c| !is_bidi(*c)).collect(),
    }
}

fn is_bidi(c: char) -> bool {
    matches!(c, '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}' | '\r')
}

fn arbitrary_format(s: &mut Src) -> CtCase {
    let t = arb_string(s);
    if s.chance(1, 3) {
        let fields: &[&[(&str, &str, bool)]] = &[
            &[("a", "u8", false)],
            &[("a", "u8", false), ("b", "String", false)],
            &[("a", "u8", false), ("b", "u8", true)],
            &[("a", "u8", true)],
            &[("a", "i32", false), ("b", "u8", false), ("x", "u8", false)],
            &[],
        ];
        let f = *s.pick(fields);
        let lit = str_lit(s, &t);
        let un = s.chance(1, 4);
        let attr = format!("{} = {}", if un { "format_unescaped" } else { "format" }, lit);
        let v = validate_derive(&t, f);
        let body: String = f.iter().map(|(n, ty, d)| format!("{}{}: {}, ", if *d { "#[sscanf(default)] " } else { "" }, n, ty)).collect();
        let items = match s.idx(2) {
            0 => format!("#[derive(::sscanf::FromScanf)]\n#[sscanf({attr})]\nstruct S {{ {body} }}\n"),
            _ => format!("#[derive(::sscanf::FromScanf)]\nenum E {{ A, #[sscanf({attr})]\nB {{ {body} }} }}\n"),
        };
        let (e, cl) = match v {
            Valid::Yes => (Expect::Accept, "string in a derive: valid"),
            Valid::No => (Expect::Reject, "string in a derive: invalid"),
            Valid::Unknown => (Expect::Any, "string in a derive: any"),
        };
        return case(items, String::new(), e, cl);
    }
    let sets: &[&[&str]] = &[&[], &["u8"], &["u8", "String"], &["i32", "f64", "u8"], &["str"]];
    let args = *s.pick(sets);
    let lit = str_lit(s, &t);
    let v = validate_call(&t, args);
    let (e, cl) = match v {
        Valid::Yes => (Expect::Accept, "string: valid"),
        Valid::No => (Expect::Reject, "string: invalid"),
        Valid::Unknown => (Expect::Any, "string: any"),
    };
    let a: Vec<String> = args.iter().map(|x| x.to_string()).collect();
    let mac = *s.pick(MACROS);
    case(String::new(), call_body(mac, &lit, &a), e, cl)
}

const TOKENS: &[&str] = &[
    "input", "\"\"", "\"{}\"", "\"{\"", "r\"{:/(/}\"", ",", ",", "=", "u8", "str", "&", "format", "format_unescaped", "transparent", "skip", "autogen", "default", "map", "from", "try_from", "filter_map", "|x: u8| x", "5", "'c'", "b\"a\"", "::", "<", ">", ".", ";", "#",
    "!", "?", "&&", "||", "|", "-", "+", "*", "'a", "_", "()", "[]", "{}", "(u8)", "fn", "impl", "struct", "\"é\"", "1.5", "r#\"a\"#", "r#type", "self", "Self", "crate", "where", "dyn", "c\"x\"", "=>", "..", "$", "@", "\"{u8}\"suffix", "\"a\"é", "r\"a\"u8", "5u8", "0x", "'static", "async",
    "\"a{b}\"", "\"{0}\"", "(\"a\")", "[u8; 2]", "{ 5 }", "\"\\u{7b}\"", "\"\\x7d\"", "\"a\\\n b\"",
];

fn soup(s: &mut Src) -> String {
    let mut out = String::new();
    let n = s.range(0, 8);
    for _ in 0..n {
        let t = *s.pick(TOKENS);
        if s.chance(1, 10) {
            let (o, c) = *s.pick(&[("(", ")"), ("[", "]"), ("{", "}")]);
            out = format!("{}{}{} ", o, out, c);
        }
        if t == "0x" {
            out.push_str("0x1 ");
        } else {
            out.push_str(t);
            out.push(' ');
        }
    }
    out
}

fn token_soup(s: &mut Src) -> CtCase {
    let t = soup(s);
    let u = soup(s);
    match s.idx(7) {
        0 => case(String::new(), format!("let _ = ::sscanf::{}!({});", s.pick(MACROS), t), Expect::Any, "tokens: call"),
        1 => case(String::new(), format!("let _ = ::sscanf::{}!(input, \"{{}}\", {});", s.pick(MACROS), t), Expect::Any, "tokens: types"),
        2 => case(String::new(), format!("let _ = ::sscanf::{}!(input, {});", s.pick(MACROS), t), Expect::Any, "tokens: format"),
        3 => case(format!("#[derive(::sscanf::FromScanf)]\n#[sscanf({t})]\nstruct S {{ a: u8 }}\n"), String::new(), Expect::Any, "tokens: struct attribute"),
        4 => case(format!("#[derive(::sscanf::FromScanf)]\n#[sscanf(\"{{}}\")]\nstruct S {{ #[sscanf({t})] a: u8, #[sscanf(default)] b: u8 }}\n"), String::new(), Expect::Any, "tokens: field attribute"),
        5 => case(format!("#[derive(::sscanf::FromScanf)]\n#[sscanf({t})]\nenum S {{ A, #[sscanf({u})] B(u8) }}\n"), String::new(), Expect::Any, "tokens: enum attribute"),
        _ => case(format!("#[derive(::sscanf::FromScanf)]\nenum S {{ #[sscanf(\"x\")] A, #[sscanf({t})] B, #[sscanf({u})] C(#[sscanf({t})] u8) }}\n"), String::new(), Expect::Any, "tokens: variant attribute"),
    }
}

pub fn c19(s: &mut Src) -> CtCase {
    match s.weighted(&[4, 3, 3, 3, 2, 3, 3, 5, 3]) {
        0 => bad_call(s).no_carets(),
        1 => bad_derive_fmt(s).no_carets(),
        2 => bad_item_attr(s),
        3 => bad_field_attr(s),
        4 => bad_enum(s),
        5 => bad_args(s),
        6 => valid(s),
        7 => arbitrary_format(s),
        _ => token_soup(s),
    }
}

impl CtCase {
    fn no_carets(mut self) -> CtCase {
        self.carets = None;
        self
    }
}

pub fn c20(s: &mut Src) -> CtCase {
    for _ in 0..20 {
        let c = if s.weighted(&[3, 2]) == 0 { bad_call(s) } else { bad_derive_fmt(s) };
        if c.carets.is_some() {
            return c;
        }
    }
    let c = bad_call(s);
    c
}

/// custom regexes with capture groups in any kind of format
pub fn c23(s: &mut Src) -> CtCase {
    let re = capturing(s);
    let re = if s.chance(1, 3) { format!("{}{}", rx::gen_top(s, &RxCfg { allow_alt_top: false, ..RxCfg::default() }).src(), re) } else { re };
    if s.chance(1, 2) {
        let (mut segs, args) = base_call(s, 0, 3);
        let t = *s.pick(&["str", "u8", "String", "f64", "std::num::NonZeroU8"]);
        insert_at(s, &mut segs, seg(&format!("{{{}:/{}/}}", t, rx::slash_escape(&re))));
        let (lit, _) = spell(s, &segs);
        let mac = *s.pick(MACROS);
        return case(String::new(), call_body(mac, &lit, &args), Expect::Reject, "capturing regex in a call");
    }
    let mut d = derived(s, 0);
    let (mut segs, _, unescaped) = take_format(s, &mut d);
    let v = d.target();
    if v.style == Style::Unit {
        v.style = Style::Tuple;
    }
    let at = v.fields.len();
    v.fields.push(Field { name: "last_one".into(), decl: s.pick(&["u8", "String", "f32"]).to_string(), attr: FAttr::None });
    insert_at(s, &mut segs, seg(&format!("{{{}:/{}/}}", at, rx::slash_escape(&re))));
    let (lit, _) = spell(s, &segs);
    let a = fmt_attr(s, &lit, unescaped);
    case(d.items(&[(MARK, &format!("#[sscanf({})]", a))]), String::new(), Expect::Reject, "capturing regex in a derive")
}

/// borrowed fields with a lifetime each
fn lifetimes(s: &mut Src) -> CtCase {
    let n = s.range(1, 5);
    let lts: Vec<String> = (0..n).map(|i| format!("'{}", ["a", "b", "c", "long", "_x"][i])).collect();
    let fields = s.range(n, n + 2);
    let decl = |s: &mut Src, i: usize| {
        let l = &lts[if i < n { i } else { s.idx(n) }];
        match s.idx(4) {
            0 => format!("::std::borrow::Cow<{l}, str>"),
            1 => format!("::std::option::Option<&{l} str>"),
            _ => format!("&{l} str"),
        }
    };
    let mut body = vec![];
    let mut text = vec![];
    for i in 0..fields {
        let d = decl(s, i);
        let a = if !d.starts_with("::std::o") {
            match s.idx(6) {
                0 => "#[sscanf(default = \"x\".into())] ".to_string(),
                _ => String::new(),
            }
        } else if s.chance(1, 2) {
            "#[sscanf(default)] ".to_string()
        } else {
            let l = &d["::std::option::Option<&".len()..d.len() - 5];
            format!("#[sscanf(map = |x: &{l} str| Some(x))] ")
        };
        if !a.contains("default") {
            text.push(if s.chance(1, 2) { format!("{{f{i}}}") } else { format!("{{f{i}:/[a-z]+/}}") });
        }
        body.push(format!("{a}f{i}: {d}"));
    }
    let head = format!("<{}>", lts.join(", "));
    let body = body.join(", ");
    let text = format!("{:?}", text.join(" "));
    let items = if s.chance(1, 2) {
        format!("#[derive(::sscanf::FromScanf)]\n#[sscanf({text})]\nstruct S{head} {{ {body} }}\n")
    } else {
        format!("#[derive(::sscanf::FromScanf)]\nenum S{head} {{ #[sscanf(\"-\")] N, #[sscanf({text})] A {{ {body} }}, #[sscanf(\"!{{}}\")] B(&{} str) }}\n", lts[s.idx(n)])
    };
    case(items, String::new(), Expect::Accept, "lifetimes")
}

/// any program: what the macros make of it has to be the same every time
pub fn c26(s: &mut Src) -> CtCase {
    match s.weighted(&[4, 6, 3, 3, 2, 2, 2, 2, 2, 2, 2]) {
        0 => lifetimes(s),
        1 => {
            let mut ctx = Ctx::new();
            let u = gen_user(s, &Ucfg { depth: 2, max_fields: 6, max_variants: 5, ..Ucfg::default() }, &mut ctx);
            case(u.items(), String::new(), Expect::Accept, "user type")
        }
        2 => valid(s),
        3 => bad_call(s).no_carets(),
        4 => bad_derive_fmt(s).no_carets(),
        5 => bad_item_attr(s),
        6 => bad_field_attr(s),
        7 => bad_enum(s),
        8 => bad_args(s),
        9 => arbitrary_format(s),
        _ => token_soup(s),
    }
}

/// a derived type whose parts are marked in ways that lints care about
fn marked(s: &mut Src) -> CtCase {
    fn mark(s: &mut Src) -> &'static str {
        *s.pick(&["", "", "", "#[deprecated] ", "#[deprecated(note = \"x\", since = \"1.0.0\")] ", "#[doc(hidden)] ", "/// text\n"])
    }
    fn fields(s: &mut Src, style: usize) -> (String, String) {
        let n = s.range(if style == 0 { 0 } else { 1 }, 4);
        let mut body = vec![];
        let mut text = vec![];
        for i in 0..n {
            let (ty, lit) = *s.pick(&[("u8", "5"), ("i64", "-5"), ("char", "'x'"), ("bool", "true"), ("f32", "0.5"), ("::std::string::String", "::std::string::String::new()")]);
            let name = *s.pick(&["a", "_b", "value", "__c", "src", "n"]);
            let name = if style == 1 { format!("{}{}: ", name, i) } else { String::new() };
            let attr = match s.idx(10) {
                0 => "#[sscanf(default)] ".to_string(),
                1 => format!("#[sscanf(default = {lit})] "),
                2 => format!("#[sscanf(map = |x: {ty}| x)] "),
                3 => format!("#[sscanf(filter_map = |x: {ty}| ::std::option::Option::Some(x))] "),
                4 => format!("#[sscanf(map = |_: bool| {lit})] "),
                5 => format!("#[sscanf(from = {ty})] "),
                6 => format!("#[sscanf(try_from = {ty})] "),
                _ => String::new(),
            };
            if !attr.contains("default") {
                text.push("{}");
            }
            let m = mark(s);
            let vis = if s.chance(1, 2) { "pub " } else { "" };
            body.push((m, attr, vis, name, ty));
        }
        let en = |v: bool| body.iter().map(|(m, a, vis, n, t)| format!("{m}{a}{}{n}{t}", if v { *vis } else { "" })).collect::<Vec<_>>().join(", ");
        (en(false), format!("{:?}", text.join(",")))
    }
    let m = mark(s);
    let derives = *s.pick(&["::sscanf::FromScanf", "Debug, ::sscanf::FromScanf", "::sscanf::FromScanf, Clone, PartialEq"]);
    let one = |s: &mut Src, name: &str, end: bool| {
        let style = s.idx(3);
        let (f, t) = fields(s, style);
        match style {
            1 => (format!("{name} {{ {f} }}"), t),
            _ if f.is_empty() && !end => (name.to_string(), "\"x\"".to_string()),
            _ => (format!("{name}({f}){}", if end { ";" } else { "" }), t),
        }
    };
    let items = if s.chance(1, 2) {
        let (b, t) = one(s, "S", true);
        format!("#[derive({derives})]\n#[sscanf({t})]\n{m}pub struct {b}\n")
    } else if s.chance(1, 3) {
        let vs: Vec<String> = ["A", "Bc", "Def", "Gh"].iter().take(s.range(1, 4)).map(|n| format!("{}{}{n}", mark(s), if s.chance(1, 6) { "#[sscanf(\"<>\")] " } else { "" })).collect();
        format!("#[derive({derives})]\n#[sscanf(autogen = \"{}\")]\n{m}pub enum E {{ {} }}\n", s.pick(&["lower case", "CaseInsensitive", "kebab-case"]), vs.join(", "))
    } else {
        let mut vs = vec![];
        for n in ["A", "B", "C"].iter().take(s.range(1, 3)) {
            let (b, t) = one(s, n, false);
            let a = if !vs.is_empty() && s.chance(1, 6) { "#[sscanf(skip)]".to_string() } else { format!("#[sscanf({t})]") };
            vs.push(format!("{a} {}{b}", mark(s)));
        }
        format!("#[derive({derives})]\n{m}pub enum E {{ {} }}\n", vs.join(",\n"))
    };
    case(items, String::new(), Expect::Accept, "marked items")
}

pub fn c27(s: &mut Src) -> CtCase {
    match s.weighted(&[1, 5, 4, 4]) {
        0 => lifetimes(s),
        1 => {
            let mut ctx = Ctx::new();
            let u = gen_user(s, &Ucfg { depth: 2, max_fields: 6, max_variants: 5, ..Ucfg::default() }, &mut ctx);
            case(u.items(), String::new(), Expect::Accept, "user type")
        }
        2 => valid(s),
        _ => marked(s),
    }
}

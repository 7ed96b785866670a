mod contexts;
mod contract;
mod ct;
mod engine;
mod fmt;
mod props;
mod props2;
mod rx;
mod src;
mod types;
mod user;

use engine::*;
use serde_json::{json, Value};
use std::time::Instant;

const R_INPUT: &str = "distinct (program, input) with a non-empty input (and, for literal-only formats, a non-empty format)";
const R_MATCH: &str = "distinct (program, input) with a non-empty input that the reference matches";
const R_CT: &str = "distinct programs whose outcome is known from their construction (rejected or accepted), or arbitrary ones that the macro rejects without panicking";

fn plans(thorough: bool) -> Vec<Plan> {
    let k = if thorough { 30 } else { 3 };
    let p = |id, gen: GenFn, programs: usize, cases: usize, inputs: usize, rule| Plan { id, gen, programs: programs * k, cases, inputs, rule, variant: if id == "C24" { ANY_CONTEXT } else { 0 } };
    vec![
        p("C01", props::c01, 16, 150, 40, R_INPUT),
        p("C02", props::c02, 16, 80, 60, "a value of every placeholder printed with format!() and not the empty text"),
        p("C03", props::c03, 16, 100, 60, R_INPUT),
        p("C04", props::c04, 16, 80, 30, R_INPUT),
        p("C05", props::c05, 16, 120, 80, R_INPUT),
        p("C06", props::c06, 16, 120, 60, R_INPUT),
        p("C07", props::c07, 16, 60, 150, R_INPUT),
        p("C08", props::c08, 16, 120, 50, R_INPUT),
        p("C09", props2::c09, 16, 60, 50, R_MATCH),
        p("C10", props2::c10, 16, 60, 50, R_MATCH),
        p("C11", props2::c11, 16, 50, 60, R_MATCH),
        p("C12", props2::c12, 16, 80, 60, R_INPUT),
        p("C13", props2::c13, 16, 40, 60, R_MATCH),
        p("C14", props2::c14, 16, 80, 50, R_INPUT),
        p("C15", props2::c15, 16, 80, 40, "distinct (program, input) with non-empty input that parses, so that offsets and evaluation counts are observed"),
        p("C16", props2::c16, 16, 80, 50, R_INPUT),
        p("C17", props2::c17, 16, 80, 50, R_INPUT),
        p("C18", props2::c18, 16, 50, 80, "distinct (program, input) whose conversion fails, so that an error chain is observed"),
        p("C21", props2::c21, 16, 40, 40, R_INPUT),
        p("C22", props2::c22, 16, 80, 50, R_INPUT),
        p("C23", props2::c23, 16, 60, 30, "distinct (program, input) whose regex matches, so that the groups are distributed"),
        p("C24", contexts::c24, 24, 60, 25, R_MATCH),
        p("C25", contract::c25, 16, 60, 40, R_MATCH),
    ]
}

fn ct_plans(thorough: bool) -> Vec<ct::CtPlan> {
    let k = if thorough { 16 } else { 2 };
    let p = |id, gen: ct::CtGen, batches: usize, cases: usize, rule| ct::CtPlan { id, gen, batches: batches * k, cases, rule, repeat: id == "C26" };
    vec![
        p("C19", ct::c19, 96, 250, R_CT),
        p("C20", ct::c20, 96, 250, R_CT),
        p("C23", ct::c23, 32, 100, R_CT),
        p("C26", ct::c26, 64, 150, "distinct programs for which the macros produce an expansion or errors, compared between the runs"),
        p("C27", ct::c27, 48, 150, "distinct programs that use a macro or derive"),
    ]
}

/// separates failures that are listed as known from the others
fn split(id: &str, fails: Vec<Failure>, seen: &mut Vec<String>) -> Vec<Failure> {
    let known = known(&verif_root(), id);
    fails
        .into_iter()
        .filter(|f| match known.iter().find(|(sig, _)| *sig == signature(f)) {
            Some((_, text)) => {
                if !seen.contains(text) {
                    println!("KNOWN-FINDING: property={} {}", id, text);
                    seen.push(text.clone());
                }
                false
            }
            None => true,
        })
        .collect()
}

/// development aid: every failing case, unshrunk
fn dump(fails: &[Failure]) {
    if std::env::var("SV_ALL").is_ok() {
        for f in fails {
            println!("=====\n{}\n-- input {:?}\n-- actual {}\n-- {}", f.desc, f.input, clip(&f.actual, 800), f.why);
        }
    }
}

fn report(env: &Env, id: &str, m: &Failure, n: usize) {
    let path = write_replay(env, id, m, json!({"failing_cases": n}));
    println!("{}", m.desc);
    println!("input: {:?}\nactual: {}\n{}", m.input, clip(&m.actual, 1500), m.why);
    println!("VIOLATION property={} replay={}", id, path.display());
}

fn check(id: &str) -> i32 {
    let start = Instant::now();
    let env = Env::setup();
    let plan = plans(env.thorough).into_iter().find(|p| p.id == id);
    let ctp = ct_plans(env.thorough).into_iter().find(|p| p.id == id);
    let mut stats = Stats::default();
    let mut total = 0;
    let mut rules = vec![];
    let mut seen = vec![];
    if plan.is_none() && ctp.is_none() {
        fail("unknown property");
    }
    if let Some(plan) = &plan {
        rules.push(plan.rule);
        let fails = split(id, search(&env, plan, &mut stats), &mut seen);
        total += fails.len();
        dump(&fails);
        if let Some(f) = fails.first() {
            // development aid: SV_FAST skips the shrinking
            if std::env::var("SV_FAST").is_ok() {
                report(&env, id, f, total);
            } else {
                report(&env, id, &shrink(&env, plan, f, 40), total);
            }
        }
    }
    if let Some(plan) = &ctp {
        rules.push(plan.rule);
        let fails = split(id, ct::ct_search(&env, plan, &mut stats), &mut seen);
        dump(&fails);
        if let Some(f) = fails.first() {
            if total == 0 {
                if std::env::var("SV_FAST").is_ok() {
                    report(&env, id, f, fails.len());
                } else {
                    report(&env, id, &ct::ct_shrink(&env, plan, f), fails.len());
                }
            }
        }
        total += fails.len();
    }
    let wall = start.elapsed().as_secs_f64();
    evidence(&env, id, &stats, &rules.join(" / "), wall, total, json!({}));
    println!("{}: {} cases, {} calls, {} distinct non-trivial, {} failing cases, {:.1}s", id, stats.cases, stats.evals, stats.nontrivial.len(), total, wall);
    println!("{:?}\n{:?}", stats.labels, stats.classes);
    (total > 0) as i32
}

/// judges the case of a replay file again
fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap_or_else(|e| fail(&format!("{}: {}", path, e)))).unwrap_or_else(|e| fail(&e.to_string()));
    let id = v["property"].as_str().unwrap_or("");
    let env = Env::setup();
    let choices: Vec<u64> = v["choices"].as_array().map(|a| a.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    let variant = v["variant"].as_u64().unwrap_or(0) as usize;
    let again = if v["compile_time"] == json!(true) {
        let plan = ct_plans(false).into_iter().find(|p| p.id == id).unwrap_or_else(|| fail("unknown property"));
        ct::ct_replay(&env, &plan, choices, variant)
    } else {
        let plan = plans(false).into_iter().find(|p| p.id == id).unwrap_or_else(|| fail("unknown property"));
        replay_case(&env, &plan, choices, variant, v["input"].as_str())
    };
    match again {
        Some(f) => {
            println!("{}\ninput: {:?}\nactual: {}\n{}", f.desc, f.input, clip(&f.actual, 3000), f.why);
            println!("VIOLATION property={} replay={}", id, path);
            1
        }
        None => {
            println!("the case passes now");
            0
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match (args.get(1).map(|s| s.as_str()), args.get(2)) {
        (Some("check"), Some(id)) => std::process::exit(check(id)),
        (Some("replay"), Some(path)) => std::process::exit(replay(path)),
        _ => fail("usage: sv check <ID> | sv replay <FILE>"),
    }
}

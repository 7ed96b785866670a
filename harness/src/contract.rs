//! C25: what the public traits promise to code that uses them without the macros.
use crate::engine::*;
use crate::fmt::*;
use crate::props::*;
use crate::props2::*;
use crate::src::Src;
use crate::types::*;
use crate::user::*;
use std::rc::Rc;

const HELPERS: &str = "
pub struct Seen { pub taken: ::std::vec::Vec<usize>, pub declared: ::std::vec::Vec<usize>, pub groups: ::std::vec::Vec<usize> }
pub fn step<'t, T: ::sscanf::FromScanf<'t>>(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>, seen: &mut Seen) -> ::std::result::Result<T, ::sscanf::Error> {
    let before = src.clone().count();
    let r = T::from_matches(src);
    seen.taken.push(before - src.clone().count());
    seen.declared.push(T::NUM_CAPTURES);
    r.map_err(|e| ::sscanf::Error::ParsingFailed(::std::boxed::Box::new(e)))
}
pub fn alone<R: ::sscanf::RegexRepresentation + ?Sized>(seen: &mut Seen) {
    seen.groups.push(::sscanf::regex::Regex::new(R::REGEX).unwrap().captures_len());
}
";

fn raw(p: &Ph) -> bool {
    matches!(p.opt, Opt::Radix(_)) || matches!(p.ty, Ty::Sc(Sc::Str | Sc::Cow))
}

/// The type whose expression stands for `t`.
fn rxty(t: &Ty) -> String {
    match t {
        Ty::Sc(Sc::Str | Sc::Cow) => "str".to_string(),
        _ => t.rust(""),
    }
}

pub fn c25(s: &mut Src) -> Case {
    let mut ctx = Ctx::new();
    let by_site = s.chance(1, 3);
    let cfg = FmtCfg { min: 1, max: if by_site { 4 } else { 3 }, opts: if by_site { 2 } else { 0 }, sep: 7, big_lits: false };
    let (c, users) = user_call(s, &cfg, &mut |s, _| match s.weighted(&[3, 3, 3, 1, 4]) {
        0 => Ty::Sc(gen_sc(s, true)),
        k => {
            let depth = s.weighted(&[3, 3, 1]);
            let overlap = s.chance(1, 4);
            let ucfg = Ucfg { depth, overlap, max_fields: 5, max_variants: 5, ..Ucfg::default() };
            Ty::User(match k {
                1 => gen_struct(s, &ucfg, &mut ctx),
                2 => gen_enum(s, &ucfg, &mut ctx),
                3 => gen_opaque(s, &mut ctx),
                _ => gen_container(s, &ucfg, &mut ctx),
            })
        }
    });
    let phs: Vec<&Ph> = c.fmt.phs().collect();
    let tys: Vec<String> = phs.iter().map(|p| p.ty.rust("")).collect();
    let steps: String = phs
        .iter()
        .zip(&tys)
        .enumerate()
        .map(|(i, (p, t))| match raw(p) {
            // the macro converts these itself
            true => format!(" let a{i} = m.next().unwrap().unwrap().as_str();"),
            false => format!(" let a{i} = step::<{t}>(&mut m, &mut seen)?;"),
        })
        .collect();
    let alone: String = phs.iter().zip(&tys).map(|(p, _)| if !raw(p) { format!("alone::<{}>(&mut seen); ", rxty(&p.ty)) } else { String::new() }).collect();
    let vals: Vec<String> = (0..phs.len()).map(|i| format!("format!(\"{{:?}}\", a{i})")).collect();
    let lit = str_lit(s, &c.fmt.text());
    let re = if by_site {
        format!("::sscanf::sscanf_get_regex!({}{})", lit, c.args_src())
    } else {
        let list: Vec<String> = c
            .fmt
            .parts
            .iter()
            .flat_map(|p| match p {
                Part::Lit(t) => vec![format!("\"{}\".to_string()", lit_regex(t).replace('\\', "\\\\"))],
                Part::Ph(p) => vec![format!("format!(\"({{}})\", <{} as ::sscanf::RegexRepresentation>::REGEX)", rxty(&p.ty))],
                Part::Rx(_) => unreachable!(),
            })
            .collect();
        format!("&::sscanf::regex::Regex::new(&format!(\"^(?:{{}})$\", vec![{}].concat())).unwrap()", list.join(", "))
    };
    let body = format!(
        "let re: &::sscanf::regex::Regex = {re};
let mut seen = Seen {{ taken: vec![], declared: vec![], groups: vec![] }};
{alone}
let radix = {};
let mut left = 0;
let r = (|| -> Result<Vec<String>, ::sscanf::Error> {{
 let caps = match re.captures(input) {{ Some(c) => c, None => return Err(::sscanf::Error::MatchFailed) }};
 let mut m = caps.iter();
 m.next().unwrap();
{steps}
 left = m.count();
 Ok(vec![{}])
}})();
let ok = r.is_ok();
let out = ::vrt::fin(r, |v| v.join(\"\\u{{1e}}\"));
let contract = if seen.groups != Vec::<usize>::from([{declared}]) {{ format!(\"groups in REGEX {{:?}}\", seen.groups) }}
 else if ok && seen.taken != seen.declared {{ format!(\"declared {{:?}}, taken {{:?}}\", seen.declared, seen.taken) }}
 else if ok && left != 0 {{ format!(\"{{}} groups left over\", left) }}
 else if ok && re.captures_len() != 1 + radix + seen.declared.iter().sum::<usize>() {{ format!(\"{{}} groups for {{:?}}\", re.captures_len(), seen.declared) }}
 else {{ \"kept\".to_string() }};
format!(\"{{}}\\u{{1d}}{{}}\", out, contract)",
        phs.iter().filter(|p| raw(p)).count(),
        vals.join(", "),
        declared = phs.iter().zip(&tys).filter(|(p, _)| !raw(p)).map(|(_, t)| format!("<{t} as ::sscanf::FromScanf>::NUM_CAPTURES")).collect::<Vec<_>>().join(", "),
    );
    let kinds: Vec<&str> = users
        .iter()
        .map(|u| match &u.kind {
            Kind::Struct(_) => "struct",
            Kind::Enum(..) => "enum",
            Kind::Opaque { .. } if u.fromstr => "FromStr",
            Kind::Opaque { .. } if u.name.starts_with('W') => "container",
            _ => "manual",
        })
        .collect();
    let mut tags = kinds.clone();
    tags.push(if by_site { "groups of sscanf_get_regex!" } else { "composed by hand" });
    if phs.iter().any(|p| matches!(p.ty, Ty::Sc(_))) {
        tags.push("std type");
    }
    tags.sort();
    tags.dedup();
    let class = tags.join(", ");
    let items = format!("{HELPERS}{}", items_of(&users));
    let desc = format!("{}// with {}\n{}", items_of(&users), re, body);
    let radix: Vec<bool> = phs.iter().map(|p| raw(p)).collect();
    let fmt = Rc::new(c.fmt);
    let f2 = fmt.clone();
    let judge = move |input: &str, actual: &str| {
        let (a, contract) = actual.rsplit_once('\u{1d}').unwrap_or((actual, ""));
        let texts = f2.run(input);
        let out = match &texts {
            None => Out::NoMatch,
            Some(ts) => {
                let mut vals = vec![];
                let mut err = None;
                for ((p, t), r) in f2.phs().zip(ts).zip(&radix) {
                    match if *r { Ok(Val::S(t.to_string())) } else { p.parse(t) } {
                        Ok(v) => vals.push(v),
                        Err(e) => {
                            err = Some(e);
                            break;
                        }
                    }
                }
                match err {
                    Some(e) => Out::Parse(e),
                    None => Out::Ok(vals),
                }
            }
        };
        let nt = !input.is_empty() && out != Out::NoMatch;
        Verdict::cmp(out.label(), nt, &format!("{}, contract kept", out.line()), &format!("{}, contract {}", brief(a), contract))
    };
    let f3 = fmt.clone();
    let inp = Box::new(move |s: &mut Src| gen_input(s, &[10, 3, 0, 1], &f3.alpha, &|s| f3.sample(s)));
    let oracle = Box::new(FnOracle { inp, fixed: vec![String::new()], judge: Box::new(judge), mode: (0, 1) });
    Case { items, body, oracle, desc, class }
}

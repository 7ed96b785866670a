//! The generators of the properties about derived types, input expressions, errors and the other macros.
use crate::engine::*;
use crate::fmt::*;
use crate::props::*;
use crate::rx::{self, RxCfg};
use crate::src::Src;
use crate::types::*;
use crate::user::*;
use std::rc::Rc;

pub struct FnOracle {
    pub inp: Box<dyn Fn(&mut Src) -> String>,
    pub fixed: Vec<String>,
    pub judge: Box<dyn Fn(&str, &str) -> Verdict>,
    pub mode: (u8, usize),
}

impl Oracle for FnOracle {
    fn input(&self, s: &mut Src) -> String {
        (self.inp)(s)
    }
    fn fixed_inputs(&self) -> Vec<String> {
        self.fixed.clone()
    }
    fn judge(&self, input: &str, actual: &str) -> Verdict {
        (self.judge)(input, actual)
    }
    fn mode(&self) -> (u8, usize) {
        self.mode
    }
}

fn fmt_inputs(fmt: &Rc<Fmt>, w: [u64; 4]) -> Box<dyn Fn(&mut Src) -> String> {
    let f = fmt.clone();
    Box::new(move |s| gen_input(s, &w, &f.alpha, &|s| f.sample(s)))
}

/// a call whose types come from a closure that may create user types
pub fn user_call(s: &mut Src, cfg: &FmtCfg, pick: &mut dyn FnMut(&mut Src, usize) -> Ty) -> (Call1, Vec<Rc<User>>) {
    let mut users: Vec<Rc<User>> = vec![];
    let mut n = 0;
    let c = gen_call(s, cfg, &mut |s| {
        let t = pick(s, n);
        n += 1;
        if let Ty::User(u) = &t {
            users.push(u.clone());
        }
        t
    });
    (c, users)
}

fn user_case(s: &mut Src, c: Call1, users: &[Rc<User>], class: String, w: [u64; 4], leak: bool) -> Case {
    let lit = str_lit(s, &c.fmt.text());
    let mut b = body("sscanf", &c, &lit);
    if leak {
        b = format!("let input: &'static str = ::std::boxed::Box::leak(input.to_string().into_boxed_str());\n{}", b);
    }
    let items = items_of(users);
    let desc = format!("{}sscanf!(input, {}{})", items, lit, c.args_src());
    let mut o = fmt_oracle(Rc::new(c.fmt), w);
    o.trivial_empty = true;
    Case { items, body: b, oracle: o, desc, class }
}

fn depth_class(users: &[Rc<User>]) -> String {
    let mut depth = users.iter().map(|u| u.depth()).max().unwrap_or(0);
    depth = depth.min(5);
    let lts = if users.iter().any(|u| u.lt) { ", lifetimes" } else { "" };
    format!("nesting {}{}", depth, lts)
}

fn style_class(u: &User) -> String {
    match &u.kind {
        Kind::Struct(v) => format!("struct {:?}", v.style).to_lowercase(),
        Kind::Enum(..) => "enum".into(),
        _ => "manual".into(),
    }
}

/// some borrowed fields become &'static str
fn make_static(s: &mut Src, u: Rc<User>) -> (Rc<User>, bool) {
    let u = match Rc::try_unwrap(u) {
        Ok(u) => u,
        Err(u) => return (u, false),
    };
    let mut u = u;
    if !u.lt || !s.chance(1, 5) {
        return (Rc::new(u), false);
    }
    let Kind::Struct(v) = &mut u.kind else { return (Rc::new(u), false) };
    for f in &mut v.fields {
        f.decl = f.decl.replace("'a", "'static").replace("'b", "'static");
        if let FAttr::Conv(c) = &mut f.attr {
            c.attr = c.attr.replace("'a", "'static").replace("'b", "'static");
        }
    }
    let rest: Vec<&str> = u.generics.0.trim_matches(|c| c == '<' || c == '>').split(", ").filter(|p| !p.starts_with('\'')).collect();
    // "T: for<'x> ..." bounds live in the where clause, so the split above is safe
    u.generics.0 = if rest.is_empty() { String::new() } else { format!("<{}>", rest.join(", ")) };
    u.lt = false;
    (Rc::new(u), true)
}

// ---------------------------------------------------------------------------------------------
// C09, C10: structs

pub fn c09(s: &mut Src) -> Case {
    let mut ctx = Ctx::new();
    let depth = s.weighted(&[4, 2]);
    let cfg = Ucfg { depth, attrs: false, max_fields: 16, generic: s.chance(1, 6), ..Ucfg::default() };
    let u = gen_struct(s, &cfg, &mut ctx);
    let (u, leak) = make_static(s, u);
    let class = format!("{}{}{}{}", style_class(&u), if u.lt { ", lifetime" } else { "" }, if u.args.is_empty() { "" } else { ", generic" }, if leak { ", static" } else { "" });
    let (c, users) = user_call(s, &FmtCfg { min: 1, max: 3, opts: 1, sep: 8, big_lits: false }, &mut |s, i| if i == 0 || s.chance(1, 3) { Ty::User(u.clone()) } else { Ty::Sc(gen_sc(s, true)) });
    user_case(s, c, &users, class, [8, 4, 0, 1], leak)
}

const TICKS: &str = "thread_local! { static TICKS: ::std::cell::RefCell<Vec<u32>> = ::std::cell::RefCell::new(vec![]); }
pub fn tick(i: u32) { TICKS.with(|t| t.borrow_mut().push(i)) }
";

pub fn c10(s: &mut Src) -> Case {
    let mut ctx = Ctx::new();
    let depth = s.weighted(&[5, 2]);
    let cfg = Ucfg { depth, attrs: true, ticks: true, max_fields: 9, max_variants: 4, ..Ucfg::default() };
    let u = if s.chance(1, 4) { gen_enum(s, &cfg, &mut ctx) } else { gen_struct(s, &cfg, &mut ctx) };
    let mut kinds: Vec<&str> = vec![];
    let vs: Vec<&Variant> = match &u.kind {
        Kind::Struct(v) => vec![v],
        Kind::Enum(v, _) => v.iter().collect(),
        _ => vec![],
    };
    for v in vs {
        for f in &v.fields {
            kinds.push(match &f.attr {
                FAttr::None => "plain",
                FAttr::Default(..) => "default",
                FAttr::Conv(c) => c.attr.split([' ', '=']).next().map(|k| ["map", "filter_map", "from", "try_from"].into_iter().find(|x| *x == k).unwrap_or("conv")).unwrap(),
            });
        }
    }
    kinds.sort();
    kinds.dedup();
    let class = format!("{}: {}", style_class(&u).split(' ').next().unwrap(), kinds.join("+"));
    let (c, users) = user_call(s, &FmtCfg { min: 1, max: 2, opts: 1, sep: 9, big_lits: false }, &mut |s, i| if i == 0 || s.chance(1, 3) { Ty::User(u.clone()) } else { Ty::Sc(gen_sc(s, true)) });
    let lit = str_lit(s, &c.fmt.text());
    let items = format!("{}{}", TICKS, items_of(&users));
    let b = format!(
        "TICKS.with(|t| t.borrow_mut().clear());\nlet out = {{ {} }};\nlet mut t = TICKS.with(|t| t.borrow().clone()); t.sort();\nformat!(\"{{}}\\u{{1d}}{{:?}}\", out, t)",
        body("sscanf", &c, &lit)
    );
    let desc = format!("{}sscanf!(input, {}{})", items_of(&users), lit, c.args_src());
    let fmt = Rc::new(c.fmt);
    let f2 = fmt.clone();
    let judge = move |input: &str, actual: &str| {
        TRACE.with(|t| t.borrow_mut().clear());
        let out = f2.eval(input);
        let mut t = TRACE.with(|t| t.borrow().clone());
        t.sort();
        let (a, ticks) = actual.rsplit_once('\u{1d}').unwrap_or((actual, ""));
        let nt = !input.is_empty() && out != Out::NoMatch;
        match out {
            Out::Ok(_) => Verdict::cmp("ok", nt, &format!("{}, conversions run {:?}", out.line(), t), &format!("{}, conversions run {}", brief(a), ticks)),
            Out::NoMatch => Verdict::cmp("match_failed", nt, "M, conversions run []", &format!("{}, conversions run {}", a, ticks)),
            Out::Parse(_) => Verdict::cmp("parsing_failed", nt, "P", brief(a)),
        }
    };
    let oracle = Box::new(FnOracle { inp: fmt_inputs(&fmt, [10, 3, 0, 1]), fixed: vec![String::new()], judge: Box::new(judge), mode: (0, 1) });
    Case { items, body: b, oracle, desc, class }
}

// ---------------------------------------------------------------------------------------------
// C11, C12: enums

pub fn c11(s: &mut Src) -> Case {
    let mut ctx = Ctx::new();
    let large = s.chance(1, 50);
    let depth = if large { 0 } else { s.weighted(&[4, 2]) };
    let overlap = s.chance(1, 2);
    let cfg = Ucfg { depth, overlap, max_variants: if large { 90 } else { 12 }, max_fields: if large { 2 } else { 4 }, generic: s.chance(1, 6), ..Ucfg::default() };
    let u = gen_enum(s, &cfg, &mut ctx);
    let n = match &u.kind {
        Kind::Enum(v, _) => v.len(),
        _ => 0,
    };
    let class = format!("{} variants{}", nph(n), if overlap { ", overlapping" } else { "" });
    let (c, users) = user_call(s, &FmtCfg { min: 1, max: if large { 1 } else { 4 }, opts: 1, sep: 5, big_lits: false }, &mut |s, i| if i == 0 || s.chance(1, 2) { Ty::User(u.clone()) } else { Ty::Sc(gen_sc(s, true)) });
    user_case(s, c, &users, class, [9, 4, 1, 1], false)
}

/// (attribute value, index)
const CASES: &[&str] = &[
    "CaseSensitive", "CaseInsensitive", "lower case", "UPPER CASE", "lowercase", "UPPERCASE", "PascalCase", "camelCase", "snake_case", "SCREAMING_SNAKE_CASE", "kebab-case", "SCREAMING-KEBAB-CASE",
];

/// the name made of `words` (each lower case) in a case style
fn in_case(words: &[String], style: usize) -> String {
    let cap = |w: &String| -> String {
        let mut c = w.chars();
        let f = c.next().unwrap().to_uppercase().collect::<String>();
        f + c.as_str()
    };
    let up: Vec<String> = words.iter().map(|w| w.to_uppercase()).collect();
    let caps: Vec<String> = words.iter().map(cap).collect();
    match style {
        2 => words.join(" "),
        3 => up.join(" "),
        4 => words.concat(),
        5 => up.concat(),
        7 => format!("{}{}", words[0], caps[1..].concat()),
        8 => words.join("_"),
        9 => up.join("_"),
        10 => words.join("-"),
        11 => up.join("-"),
        _ => caps.concat(),
    }
}

const WORDS: &[&str] = &["foo", "bar", "is", "it", "hello", "world", "ok", "kind", "sky", "mass", "type", "self", "no", "on", "case", "xy", "longer", "http", "io", "stress"];

/// the words of an identifier: separated by underscores, where a lower case letter is followed by an
/// upper case one, between letters and digits, and before the last capital of an acronym
fn words_of(ident: &str) -> Vec<String> {
    let c: Vec<char> = ident.chars().collect();
    let up = |c: char| c.is_uppercase();
    let low = |c: char| c.is_lowercase();
    let dig = |c: char| c.is_ascii_digit();
    let mut words = vec![];
    let mut word = String::new();
    for i in 0..c.len() {
        if c[i] == '_' {
            words.push(std::mem::take(&mut word));
            continue;
        }
        if i > 0 {
            let (a, b) = (c[i - 1], c[i]);
            let letter = |c: char| up(c) || low(c);
            let acronym = up(a) && up(b) && c.get(i + 1).map_or(false, |&n| low(n));
            if (low(a) && up(b)) || (dig(a) && letter(b)) || (letter(a) && dig(b)) || acronym {
                words.push(std::mem::take(&mut word));
            }
        }
        word.push(c[i]);
    }
    words.push(word);
    words.into_iter().filter(|w| !w.is_empty()).map(|w| w.to_lowercase()).collect()
}

/// a variant name of any form, with at least one word
fn odd_name(s: &mut Src) -> String {
    for _ in 0..50 {
        let mut n = String::new();
        if s.chance(1, 6) {
            n.push('_');
        }
        for _ in 0..s.range(1, 5) {
            match s.weighted(&[3, 4, 2, 2, 3, 2, 1]) {
                0 => n.push_str(*s.pick(WORDS)),
                1 => n.push_str(&in_case(&[s.pick(WORDS).to_string()], 6)),
                2 => n.push_str(&s.pick(WORDS).to_uppercase()),
                3 => n.push(*s.pick(&['A', 'B', 'X', 'd', 'y', 'É'])),
                4 => n.push_str(*s.pick(&["1", "2", "42", "007", "9"])),
                5 => n.push_str(*s.pick(&["_", "_", "__"])),
                _ => n.push_str(*s.pick(&["Äh", "größe", "éé", "Ωmega", "日本"])),
            }
        }
        if s.chance(1, 10) {
            n.push('_');
        }
        let keyword = ["foo", "type", "self", "no", "on", "case", "is", "it", "io", "ok", "Self"];
        if n.starts_with(|c: char| c.is_ascii_digit()) || keyword.contains(&&n[..]) || words_of(&n).is_empty() {
            continue;
        }
        return n;
    }
    "Plain".to_string()
}

pub fn c12(s: &mut Src) -> Case {
    let style = s.idx(CASES.len());
    let n = s.range(1, 8);
    let mut words: Vec<Vec<String>> = vec![];
    let mut vs: Vec<Variant> = vec![];
    let mut used: Vec<String> = vec!["Self".into()];
    let mut ctx = Ctx::new();
    let mut deps = vec![];
    let mut lt = false;
    for _ in 0..n {
        let (name, text) = if style < 2 && s.chance(1, 3) {
            let special: &[&str] = &["r#type", "r#fn", "snake_name", "A1", "SCREAMING", "lower", "X9y", "_Lead", "Tail_", "r#Foo", "__", "mIxEd", "Ab_Cd1"];
            let more: &[&str] = &["日本", "Äh", "größe", "éé"];
            let n = if s.chance(1, 4) { *s.pick(more) } else { *s.pick(special) };
            (n.to_string(), n.trim_start_matches("r#").to_string())
        } else if s.chance(1, 2) {
            let name = odd_name(s);
            let w = words_of(&name);
            let text = match style {
                0 | 1 => name.clone(),
                _ => in_case(&w, style),
            };
            words.push(w);
            (name, text)
        } else {
            let k = s.range(1, 4);
            let w: Vec<String> = (0..k).map(|_| s.pick(WORDS).to_string()).collect();
            let name = in_case(&w, 6);
            let text = in_case(&w, style);
            words.push(w);
            (name, text)
        };
        if used.contains(&text) || used.contains(&name.trim_start_matches("r#").to_string()) {
            continue;
        }
        used.push(name.trim_start_matches("r#").to_string());
        let v = match s.weighted(&[10, 2, 1, 1]) {
            0 => Variant { name, style: Style::Unit, fields: vec![], source: Source::Auto(text, style == 1) },
            1 => {
                let sub = Ucfg { max_fields: 2, lifetimes: false, unescaped: 0, ..Ucfg::default() };
                let mut v = gen_variant(s, &sub, &mut ctx, name.clone(), &mut lt, &mut deps, true);
                v.name = name;
                v
            }
            2 => {
                // an explicit format equal to another style of the name
                let t = text.to_uppercase();
                let t = if t == text { text.to_lowercase() } else { t };
                let lit = esc_lit(s, &dbl(&t), false);
                Variant { name, style: Style::Unit, fields: vec![], source: Source::Fmt(lit, Fmt::new(vec![Part::Lit(t)]), vec![]) }
            }
            _ if !vs.is_empty() => {
                let fields = if s.chance(1, 2) { vec![Field { name: "0".into(), decl: "u8".into(), attr: FAttr::None }] } else { vec![] };
                Variant { name, style: if fields.is_empty() { Style::Unit } else { Style::Tuple }, fields, source: Source::Skip }
            }
            _ => Variant { name, style: Style::Unit, fields: vec![], source: Source::Auto(text, style == 1) },
        };
        vs.push(v);
    }
    if vs.is_empty() {
        vs.push(Variant { name: "Foo".into(), style: Style::Unit, fields: vec![], source: Source::Auto(in_case(&["foo".into()], style), style == 1) });
        words.push(vec!["foo".into()]);
    }
    let key = *s.pick(&["autogen", "autogenerate"]);
    let val = match style {
        0 if s.chance(1, 2) => None,
        1 => Some(*s.pick(&["CaseInsensitive", "caseinsensitive", "case insensitive", "CASE_INSENSITIVE", "case-insensitive", "caseInsensitive"])),
        i => Some(CASES[i]),
    };
    let attr = match val {
        None => key.to_string(),
        Some(v) => format!("{} = \"{}\"", key, v),
    };
    let name = ctx.name("E");
    let u = Rc::new(User { name, lt: false, generics: Default::default(), args: String::new(), kind: Kind::Enum(vs, Some(attr)), deps, derives: "Debug, ::sscanf::FromScanf", fromstr: false, noise: gen_noise(s) });
    let (c, users) = user_call(s, &FmtCfg { min: 1, max: 3, opts: 0, sep: 8, big_lits: false }, &mut |s, i| if i == 0 || s.chance(1, 3) { Ty::User(u.clone()) } else { Ty::Sc(*s.pick(&[Sc::U(8), Sc::Bool, Sc::Char])) });
    let mut case = user_case(s, c, &users, CASES[style].into(), [9, 4, 0, 1], false);
    // single placeholder: all styles of all names as inputs
    let lit = str_lit(s, &format!("{{{}}}", u.name));
    let fmt = Rc::new(Fmt::new(vec![Part::Ph(Ph::new(&u.name, Ty::User(u.clone())))]));
    if s.chance(2, 3) {
        let call = Call1 { args: vec![], fmt: Fmt::new(vec![Part::Ph(Ph::new(&u.name, Ty::User(u.clone())))]) };
        case.body = body("sscanf", &call, &lit);
        case.desc = format!("{}sscanf!(input, {})", case.items, lit);
        let names: Vec<Vec<String>> = words.clone();
        let f2 = fmt.clone();
        let ci = style == 1;
        let inp = move |s: &mut Src| {
            if !names.is_empty() && s.chance(1, 2) {
                let w = s.pick(&names).clone();
                let st = s.idx(CASES.len());
                let t = in_case(&w, st);
                if s.chance(1, 4) {
                    let t2 = mutate(s, &t, &['a', 'A', '_', '-', ' ', 'o', 'k', 's', 'é', 'É', 'Ä', 'Ω']);
                    if ci && !cased(&t2) {
                        return t;
                    }
                    return t2;
                }
                return t;
            }
            let t = gen_input(s, &[6, 3, 0, 1], &['a', 'O', '_', ' ', 'x'], &|s| f2.sample(s));
            if ci && !cased(&t) {
                return f2.sample(s);
            }
            t
        };
        let f3 = fmt.clone();
        let judge = move |input: &str, actual: &str| {
            let out = f3.eval(input);
            Verdict::cmp(out.label(), !input.is_empty(), &out.line(), brief(actual))
        };
        case.oracle = Box::new(FnOracle { inp: Box::new(inp), fixed: vec![String::new()], judge: Box::new(judge), mode: (0, 1) });
    }
    case
}

// ---------------------------------------------------------------------------------------------
// C13: composition

pub fn c13(s: &mut Src) -> Case {
    let mut ctx = Ctx::new();
    let depth = s.range(0, 3);
    let cfg = Ucfg { depth, max_fields: 5, max_variants: 5, attrs: s.chance(1, 3), generic: s.chance(1, 6), ..Ucfg::default() };
    let wide = s.chance(1, 25).then(|| gen_wide(s, &mut ctx));
    let (c, users) = user_call(s, &FmtCfg { min: 1, max: 5, opts: 1, sep: 6, big_lits: false }, &mut |s, i| {
        if let Some(w) = wide.as_ref().filter(|_| i == 0) {
            Ty::User(w.clone())
        } else if i == 0 || s.chance(2, 3) {
            Ty::User(gen_user(s, &cfg, &mut ctx))
        } else {
            Ty::Sc(gen_sc(s, true))
        }
    });
    let class = if wide.is_some() { "wide types".to_string() } else { format!("{}, {} placeholders", depth_class(&users), nph(c.fmt.phs().count())) };
    user_case(s, c, &users, class, [9, 4, 0, 1], false)
}

/// an enum of variants with up to several hundred capture groups
fn gen_wide(s: &mut Src, ctx: &mut Ctx) -> Rc<User> {
    fn tuple(s: &mut Src, name: String, prefix: &str, tys: Vec<Ty>) -> Variant {
        let mut parts = vec![];
        if !prefix.is_empty() {
            parts.push(Part::Lit(prefix.to_string()));
        }
        let mut fields = vec![];
        for (i, ty) in tys.iter().enumerate() {
            if i > 0 && s.chance(1, 5) {
                parts.push(Part::Lit(s.pick(&[",", " ", "-"]).to_string()));
            }
            fields.push(Field { name: i.to_string(), decl: ty.rust(""), attr: FAttr::None });
            parts.push(Part::Ph(Ph::new("", ty.clone())));
        }
        let fmt = Fmt::new(parts);
        let map = (0..fields.len()).collect();
        let style = if fields.is_empty() { Style::Unit } else { Style::Tuple };
        Variant { name, style, fields, source: Source::Fmt(format!("{:?}", fmt.text()), fmt, map) }
    }
    let user = |name: String, kind: Kind, deps: Vec<Rc<User>>| Rc::new(User { name, lt: false, generics: Default::default(), args: String::new(), kind, deps, derives: "Debug, ::sscanf::FromScanf", fromstr: false, noise: 0 });
    let n = s.range(15, 45);
    let name = ctx.name("L");
    let tys = (0..n).map(|_| Ty::Sc(*s.pick(&[Sc::Char, Sc::Char, Sc::Char, Sc::Bool]))).collect();
    let v = tuple(s, name.clone(), "", tys);
    let l = user(name, Kind::Struct(v), vec![]);
    let mut vs = vec![];
    for i in 0..s.range(2, 4) {
        let k = if i == 1 || s.chance(1, 4) { s.range(1, 9) } else { 0 };
        let mut tys: Vec<Ty> = (0..k).map(|_| Ty::User(l.clone())).collect();
        if s.chance(1, 2) {
            tys.push(Ty::Sc(Sc::Bool));
        }
        vs.push(tuple(s, format!("V{}", i), &format!("{}", (b'a' + i as u8) as char), tys));
    }
    user(ctx.name("E"), Kind::Enum(vs, None), vec![l])
}

// ---------------------------------------------------------------------------------------------
// C14: from_str

/// two types that have the same path and thereby the same type_name
fn c14_same_path(s: &mut Src) -> Case {
    let cfg = |d: usize| Ucfg { depth: d, max_fields: 3, max_variants: 4, lifetimes: false, ..Ucfg::default() };
    let e = s.chance(1, 3);
    let us: Vec<Rc<User>> = (0..2)
        .map(|_| {
            let mut ctx = Ctx::new();
            let d = s.weighted(&[3, 1]);
            if e {
                gen_enum(s, &cfg(d), &mut ctx)
            } else {
                gen_struct(s, &cfg(d), &mut ctx)
            }
        })
        .collect();
    let fmts: Vec<Rc<Fmt>> = us.iter().map(|u| Rc::new(Fmt::new(vec![Part::Ph(Ph::new("", Ty::User(u.clone())))]))).collect();
    let mut b = String::new();
    let mut desc = String::new();
    for (i, u) in us.iter().enumerate() {
        let t = Ty::User(u.clone()).rust("");
        b += &format!("let f{i} = {{\n{}\nlet f: fn(&str) -> String = |input| ::vrt::fin(<{t} as ::sscanf::FromScanf>::from_str(input), |v| format!(\"{{:?}}\", v));\nf\n}};\n", u.items());
        desc += &format!("{{ {} <{t} as FromScanf>::from_str(input) }}\n", u.items());
    }
    let order: Vec<usize> = (0..4).map(|_| s.idx(2)).collect();
    b += &format!("[{}].join(\"\\u{{1d}}\")", order.iter().map(|i| format!("f{}(input)", i)).collect::<Vec<_>>().join(", "));
    let f2 = fmts.clone();
    let o2 = order.clone();
    let judge = move |input: &str, actual: &str| {
        let outs: Vec<Out> = o2.iter().map(|&i| f2[i].eval(input)).collect();
        let exp: Vec<String> = outs.iter().map(|o| o.line()).collect();
        let got: Vec<String> = actual.split('\u{1d}').map(|a| brief(a).to_string()).collect();
        Verdict::cmp(outs[0].label(), !input.is_empty(), &format!("calls of types {:?}: {}", o2, exp.join(", ")), &format!("calls of types {:?}: {}", o2, got.join(", ")))
    };
    let f3 = fmts.clone();
    let inp = move |s: &mut Src| {
        let f = &f3[s.idx(2)];
        gen_input(s, &[6, 4, 0, 1], &f.alpha, &|s| f.sample(s))
    };
    let oracle = Box::new(FnOracle { inp: Box::new(inp), fixed: vec![String::new()], judge: Box::new(judge), mode: (0, 1) });
    Case { items: String::new(), body: b, oracle, desc, class: "two types of one path".into() }
}

pub fn c14(s: &mut Src) -> Case {
    if s.chance(1, 10) {
        return c14_same_path(s);
    }
    let mut ctx = Ctx::new();
    let depth = s.weighted(&[3, 2, 1]);
    let ty = match s.weighted(&[3, 4, 3, 2]) {
        0 => {
            let sc = gen_sc(s, false);
            Ty::Sc(sc)
        }
        1 => {
            let u = gen_struct(s, &Ucfg { depth, max_fields: 5, ..Ucfg::default() }, &mut ctx);
            Ty::User(u)
        }
        2 => {
            let overlap = s.chance(1, 2);
            Ty::User(gen_enum(s, &Ucfg { depth, overlap, max_fields: 3, max_variants: 5, ..Ucfg::default() }, &mut ctx))
        }
        _ => Ty::User(gen_opaque(s, &mut ctx)),
    };
    let direct = match &ty {
        Ty::Sc(_) => true,
        Ty::User(u) => u.fromstr,
    };
    let t = ty.rust("");
    let (items, class) = match &ty {
        Ty::User(u) => (u.items(), if u.fromstr { "FromStr type".to_string() } else { style_class(u).split(' ').next().unwrap().to_string() }),
        Ty::Sc(_) => (String::new(), "std type".into()),
    };
    let b = format!(
        "let a = ::vrt::fin(::sscanf::sscanf!(input, \"{{}}\", {t}), |v| format!(\"{{:?}}\", v));\nlet b = ::vrt::fin(<{t} as ::sscanf::FromScanf>::from_str(input), |v| format!(\"{{:?}}\", v));\nformat!(\"{{}}\\u{{1d}}{{}}\", a, b)"
    );
    let desc = format!("{items}sscanf!(input, \"{{}}\", {t}) and <{t} as FromScanf>::from_str(input)");
    let fmt = Rc::new(Fmt::new(vec![Part::Ph(Ph::new("", ty.clone()))]));
    let f2 = fmt.clone();
    let judge = move |input: &str, actual: &str| {
        let out = f2.eval(input);
        let two = if direct {
            match ty.parse(input) {
                Ok(v) => Out::Ok(vec![v]),
                Err(e) => Out::Parse(e),
            }
        } else {
            out.clone()
        };
        let (a, b) = actual.rsplit_once('\u{1d}').unwrap_or((actual, ""));
        Verdict::cmp(
            out.label(),
            !input.is_empty(),
            &format!("sscanf! {}, from_str {}", out.line(), two.line()),
            &format!("sscanf! {}, from_str {}", brief(a), brief(b)),
        )
    };
    let oracle = Box::new(FnOracle { inp: fmt_inputs(&fmt, [6, 5, 1, 4]), fixed: vec![String::new(), "\n".into()], judge: Box::new(judge), mode: (0, 1) });
    Case { items, body: b, oracle, desc, class }
}

// ---------------------------------------------------------------------------------------------
// C15: borrowing and input expressions

/// (name, statements, expression, base address expression, number of evaluations counted, use afterwards)
fn input_kind(s: &mut Src) -> (&'static str, String, String, String, bool, String) {
    let st = "let src: String = input.to_string();";
    let k: &[(&str, &str, &str, &str, bool, &str)] = &[
        ("&str", "let src: &str = input;", "src", "src", false, "src.len()"),
        ("String", st, "src", "src", false, "src.len()"),
        ("&String", st, "&src", "src", false, "src.len()"),
        ("Box<str>", "let src: Box<str> = input.into();", "src", "src", false, "src.len()"),
        ("Rc<str>", "let src: ::std::rc::Rc<str> = input.into();", "src", "src", false, "src.len()"),
        ("Arc<str>", "let src: ::std::sync::Arc<str> = input.into();", "src", "src", false, "src.len()"),
        ("Cow", "let src: ::std::borrow::Cow<str> = ::std::borrow::Cow::Owned(input.to_string());", "src", "src", false, "src.len()"),
        ("borrowed Cow", "let src: ::std::borrow::Cow<str> = ::std::borrow::Cow::Borrowed(input);", "src", "src", false, "src.len()"),
        ("method call", st, "src.as_str()", "src", false, "src.len()"),
        ("nested references", st, "&&&src", "src", false, "src.len()"),
        ("block", st, "{ count.set(count.get() + 1); &src }", "src", true, "src.len()"),
        ("counting function", st, "bump(&count, &src)", "src", true, "src.len()"),
        ("user Deref", "let src = Dr(input.to_string());", "src", "src.0", false, "src.0.len()"),
        ("counting Deref", "let src = Cd(input.to_string(), &count);", "src", "src.0", true, "src.0.len()"),
        ("field", "struct W { x: (u8, String) } let src = W { x: (1, input.to_string()) };", "src.x.1", "src.x.1", false, "src.x.1.len()"),
        ("index", "let src = vec![String::new(), input.to_string()];", "src[1]", "src[1]", false, "src[1].len()"),
        ("counting index", "let src = vec![String::new(), input.to_string()];", "src[{ count.set(count.get() + 1); 1 }]", "src[1]", true, "src[1].len()"),
        ("if", st, "if count.get() == 0 { &src } else { \"\" }", "src", false, "src.len()"),
        ("match", st, "match count.replace(count.get() + 1) { 0 => &src[..], _ => \"again\" }", "src", true, "src.len()"),
        ("unsized place", st, "src[..]", "src", false, "src.len()"),
        ("reborrow", st, "&*src", "src", false, "src.len()"),
        ("deref of Box<String>", "let src: Box<String> = Box::new(input.to_string());", "*src", "src", false, "src.len()"),
        ("Rc<String>", "let src = ::std::rc::Rc::new(input.to_string());", "src", "src", false, "src.len()"),
        ("parenthesised", st, "(((src)))", "src", false, "src.len()"),
        ("method chain", st, "src.as_str().strip_prefix(\"\").unwrap().get(0..).unwrap()", "src", false, "src.len()"),
        ("cast", st, "&src as &str", "src", false, "src.len()"),
        ("loop", st, "loop { count.set(count.get() + 1); break &src }", "src", true, "src.len()"),
        ("labelled block", st, "'l: { if src.len() > 1000000 { break 'l \"\" } &src[..] }", "src", false, "src.len()"),
        ("closure call", st, "(|| -> &str { count.set(count.get() + 1); &src })()", "src", true, "src.len()"),
        ("mutable reference", "let mut own: String = input.to_string(); let src = &mut own;", "src", "src", false, "{ src.push('x'); src.len() - 1 }"),
        ("range index", st, "&src[0..]", "src", false, "src.len()"),
        ("iterator item", "let src = vec![input.to_string()]; let mut it = src.iter();", "it.next().unwrap()", "src[0]", false, "src[0].len() + it.count()"),
        ("RefCell guard", "let src = ::std::cell::RefCell::new(input.to_string()); let guard = src.borrow();", "guard", "guard", false, "guard.len()"),
        ("early return", "let src: Option<&str> = Some(input);", "match src { Some(x) => x, None => return String::new() }", "src.unwrap()", false, "src.unwrap().len()"),
        ("macro call", "let src: String = input.to_string(); macro_rules! pick { ($e:expr, $c:expr) => {{ $c.set($c.get() + 1); &$e }} }", "pick!(src, count)", "src", true, "src.len()"),
        ("struct literal", "struct W<'w> { x: &'w str } let src: String = input.to_string();", "W { x: &src }.x", "src", false, "src.len()"),
        ("if let", st, "if let Some(x) = Some(&src) { x } else { \"\" }", "src", false, "src.len()"),
        ("assignment inside", "let src: String = input.to_string(); let mut last = 7;", "{ last += 1; if last == 8 { &src[..] } else { \"\" } }", "src", false, "{ last -= 8; src.len() + last }"),
        ("taken from an Option", "let src: String = input.to_string(); let mut once = Some(&src);", "once.take().unwrap()", "src", false, "src.len() + once.iter().count()"),
        ("unsafe block", st, "unsafe { count.set(count.get() + 1); ::std::str::from_utf8_unchecked(src.as_bytes()) }", "src", true, "src.len()"),
    ];
    let (a, b, c, d, e, f) = s.pick(k);
    (a, b.to_string(), c.to_string(), d.to_string(), *e, f.to_string())
}

const C15_ITEMS: &str = "use ::std::cell::Cell;
pub struct Dr(pub String); impl ::std::ops::Deref for Dr { type Target = str; fn deref(&self) -> &str { &self.0 } }
pub struct Cd<'c>(pub String, pub &'c Cell<usize>); impl<'c> ::std::ops::Deref for Cd<'c> { type Target = str; fn deref(&self) -> &str { self.1.set(self.1.get() + 1); &self.0 } }
pub fn bump<'t>(c: &Cell<usize>, s: &'t String) -> &'t str { c.set(c.get() + 1); s }
pub fn at(base: usize, t: &str) -> String { format!(\"@{}+{}\", (t.as_ptr() as usize).wrapping_sub(base), t.len()) }
pub fn cow(base: usize, t: &::std::borrow::Cow<str>) -> String { match t { ::std::borrow::Cow::Borrowed(t) => at(base, t), _ => \"owned copy\".to_string() } }
";

pub fn c15(s: &mut Src) -> Case {
    let (kname, pre, expr, base, counted, after) = input_kind(s);
    let derived = s.chance(1, 3);
    let ty = |s: &mut Src| {
        Ty::Sc(match s.weighted(&[5, 4, 3]) {
            0 => Sc::Str,
            1 => Sc::Cow,
            _ => gen_sc(s, true),
        })
    };
    let mut c = gen_call(s, &FmtCfg { min: 1, max: 5, opts: 3, sep: 8, big_lits: false }, &mut |s| ty(s));
    let n = c.fmt.phs().count();
    let show1 = |p: &Ph, e: &str| match p.ty.sc().unwrap() {
        Sc::Str => format!("at(base, {})", e),
        Sc::Cow => format!("cow(base, &{})", e),
        _ => format!("format!(\"{{:?}}\", {})", e),
    };
    let mut items = C15_ITEMS.to_string();
    let call = if derived {
        // the same placeholders as fields of a struct
        let mut i = 0;
        let parts: Vec<Part> = c
            .fmt
            .parts
            .iter()
            .map(|p| match p {
                Part::Ph(p) => {
                    let mut p = p.clone();
                    p.ident = format!("f{}", i);
                    i += 1;
                    Part::Ph(p)
                }
                p => p.clone(),
            })
            .collect();
        let f = Fmt::new(parts);
        let two = s.chance(1, 3);
        let mut uses = [false, false];
        let fields: Vec<String> = f
            .phs()
            .enumerate()
            .map(|(i, p)| {
                let b = p.ty.borrows();
                let l = (two && i % 2 == 1) as usize;
                uses[l] |= b;
                format!("{}: {}", p.ident, p.ty.rust(["'a ", "'b "][l]))
            })
            .collect();
        let lts: Vec<&str> = [(uses[0], "'a"), (uses[1], "'b")].into_iter().filter(|x| x.0).map(|x| x.1).collect();
        let gen = if lts.is_empty() { String::new() } else { format!("<{}>", lts.join(", ")) };
        let lit = esc_lit(s, &f.text(), false);
        items.push_str(&format!("#[derive(Debug, ::sscanf::FromScanf)]\n#[sscanf(format = {})]\npub struct P{} {{ {} }}\n", lit, gen, fields.join(", ")));
        let shows: Vec<String> = f.phs().map(|p| show1(p, &format!("v.{}", p.ident))).collect();
        c = Call1 { args: vec!["P".into()], fmt: f };
        format!("let r: Result<P, ::sscanf::Error> = ::sscanf::sscanf!({}, \"{{}}\", P);\nlet out = ::vrt::fin(r, |v| [{}].join(\"\\u{{1e}}\"));", expr, shows.join(", "))
    } else {
        let lit = str_lit(s, &c.fmt.text());
        let names: Vec<String> = (0..n).map(|i| format!("a{}", i)).collect();
        let shows: Vec<String> = c.fmt.phs().zip(&names).map(|(p, e)| show1(p, e)).collect();
        let pat = if n == 1 { names[0].clone() } else { format!("({})", names.join(", ")) };
        format!(
            "let r: Result<{}, ::sscanf::Error> = ::sscanf::sscanf!({}, {}{});\nlet out = ::vrt::fin(r, |{}| [{}].join(\"\\u{{1e}}\"));",
            c.result_ty(),
            expr,
            lit,
            c.args_src(),
            pat,
            shows.join(", ")
        )
    };
    let b = format!("let count = Cell::new(0usize);\n{}\nlet base = {}.as_ptr() as usize;\n{}\nlet n = count.get();\nformat!(\"{{}}\\u{{1d}}{{}}\\u{{1d}}{{}}\", out, n, {})", pre, base, call, after);
    let desc = format!("{} ... {}", pre, call);
    let fmt = Rc::new(c.fmt);
    let f2 = fmt.clone();
    let judge = move |input: &str, actual: &str| {
        let out = f2.eval(input);
        let first = match &out {
            Out::Ok(vals) => {
                let texts = f2.run(input).unwrap();
                let v: Vec<String> = f2
                    .phs()
                    .zip(vals)
                    .zip(texts)
                    .map(|((p, v), t)| if p.ty.borrows() { format!("@{}+{}", t.as_ptr() as usize - input.as_ptr() as usize, t.len()) } else { v.dbg() })
                    .collect();
                format!("O:{}", v.join("\u{1e}"))
            }
            o => o.line(),
        };
        let exp = format!("{}, evaluated {}, length afterwards {}", first, counted as usize, input.len());
        let mut it = actual.rsplitn(3, '\u{1d}');
        let (l, n, a) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        let act = format!("{}, evaluated {}, length afterwards {}", brief(a), n, l);
        Verdict::cmp(out.label(), !input.is_empty() && out.label() == "ok", &exp, if a.is_empty() { actual } else { &act })
    };
    let oracle = Box::new(FnOracle { inp: fmt_inputs(&fmt, [10, 3, 0, 1]), fixed: vec![String::new()], judge: Box::new(judge), mode: (0, 1) });
    Case { items, body: b, oracle, desc, class: format!("{}{}", kname, if derived { ", derived" } else { "" }) }
}

// ---------------------------------------------------------------------------------------------
// C16: sscanf_get_regex!

pub fn regex_case(s: &mut Src, mac: &str, scan: &str) -> Case {
    let c = gen_call(s, &FmtCfg { min: 0, max: 10, opts: 4, sep: 5, big_lits: false }, &mut |s| Ty::Sc(gen_sc(s, true)));
    let lit = str_lit(s, &c.fmt.text());
    let items = format!("pub fn site() -> &'static ::sscanf::regex::Regex {{ ::sscanf::{}!({}{}) }}\n", mac, lit, c.args_src());
    let comma = if c.args.is_empty() && s.chance(1, 6) { "," } else { "" };
    let b = format!(
        "let re = site();
let same = ::std::ptr::eq(re, site()) && ::std::ptr::eq(site(), re);
let caps = re.captures(input).map(|c| (1..c.len()).map(|i| c.get(i).map(|m| m.as_str().to_string())).collect::<Vec<_>>());
let r: Result<{}, ::sscanf::Error> = ::sscanf::{}!(input, {}{}{});
let kind = match r {{ Ok(_) => \"ok\", Err(::sscanf::Error::MatchFailed) => \"match_failed\", Err(_) => \"parsing_failed\" }};
format!(\"same={{}} groups={{}} is_match={{}} sscanf={{}} captures={{:?}}\", same, re.captures_len(), re.is_match(input), kind, caps)",
        c.result_ty(),
        scan,
        lit,
        c.args_src(),
        comma
    );
    let desc = format!("{}!({}{})", mac, lit, c.args_src());
    let class = format!("{} placeholders", nph(c.fmt.phs().count()));
    let fmt = Rc::new(c.fmt);
    let f2 = fmt.clone();
    let judge = move |input: &str, actual: &str| {
        let out = f2.eval(input);
        let texts = f2.run(input).map(|v| v.into_iter().map(Some).collect::<Vec<_>>());
        let exp = format!("same=true groups={} is_match={} sscanf={} captures={:?}", f2.phs().count() + 1, texts.is_some(), out.label(), texts);
        Verdict::cmp(out.label(), !input.is_empty(), &exp, actual)
    };
    let oracle = Box::new(FnOracle { inp: fmt_inputs(&fmt, [6, 5, 1, 1]), fixed: vec![String::new()], judge: Box::new(judge), mode: (0, 1) });
    Case { items, body: b, oracle, desc, class }
}

pub fn c16(s: &mut Src) -> Case {
    regex_case(s, "sscanf_get_regex", "sscanf")
}

// ---------------------------------------------------------------------------------------------
// C17: sscanf_unescaped!

fn gen_unescaped(s: &mut Src) -> Call1 {
    let n = s.small(6);
    let tys: Vec<(Ty, Opt)> = (0..n)
        .map(|_| {
            let t = Ty::Sc(gen_sc(s, true));
            let o = if s.chance(1, 4) { gen_opt(s, &t) } else { Opt::None };
            (t, o)
        })
        .collect();
    let mode = *s.pick(&[Bind::Inline, Bind::Auto, Bind::Index, Bind::Mix]);
    let (args, phs) = bind(s, &tys, mode);
    let mut parts = vec![];
    if n == 0 && s.chance(1, 2) {
        // the whole text is one regex, possibly with alternatives at its top level
        parts.push(Part::Rx(rx::gen_top(s, &RxCfg::default())));
        return Call1 { args, fmt: Fmt::new(parts) };
    }
    let rx = |s: &mut Src, parts: &mut Vec<Part>, p: u64| {
        if s.below(10) < p {
            parts.push(Part::Rx(rx::gen_top(s, &RxCfg { allow_alt_top: false, ..RxCfg::default() })));
        }
    };
    rx(s, &mut parts, 6);
    for (i, p) in phs.into_iter().enumerate() {
        if i > 0 {
            rx(s, &mut parts, 7);
        }
        parts.push(Part::Ph(p));
    }
    rx(s, &mut parts, 6);
    Call1 { args, fmt: Fmt::new(parts) }
}

const PLAIN: &str = "abcXYZ019 ,;:=@%_<>!\"'`/~&éß日本語😀";

pub fn c17(s: &mut Src) -> Case {
    match s.weighted(&[6, 2, 3]) {
        0 => {
            let c = gen_unescaped(s);
            let lit = str_lit(s, &c.fmt.text());
            let b = body("sscanf_unescaped", &c, &lit);
            let desc = format!("sscanf_unescaped!(input, {}{})", lit, c.args_src());
            let class = format!("sscanf_unescaped!, {} placeholders", nph(c.fmt.phs().count()));
            Case { items: String::new(), body: b, oracle: fmt_oracle(Rc::new(c.fmt), [8, 5, 1, 1]), desc, class }
        }
        1 => {
            // text without metacharacters: both macros agree
            let mut c = gen_call(s, &FmtCfg { min: 0, max: 4, opts: 2, sep: 8, big_lits: false }, &mut |s| Ty::Sc(gen_sc(s, true)));
            let plain: Vec<char> = PLAIN.chars().collect();
            let parts: Vec<Part> = std::mem::take(&mut c.fmt.parts)
                .into_iter()
                .map(|p| match p {
                    Part::Lit(_) => Part::Lit((0..s.range(1, 6)).map(|_| plain[s.idx(plain.len())]).collect()),
                    p => p,
                })
                .collect();
            c.fmt = Fmt::new(parts);
            let lit = str_lit(s, &c.fmt.text());
            let b = format!("let a = {{ {} }};\nlet b = {{ {} }};\nformat!(\"{{}}\\u{{1d}}{{}}\", a, b)", body("sscanf", &c, &lit), body("sscanf_unescaped", &c, &lit));
            let desc = format!("sscanf!/sscanf_unescaped!(input, {}{})", lit, c.args_src());
            let fmt = Rc::new(c.fmt);
            let f2 = fmt.clone();
            let judge = move |input: &str, actual: &str| {
                let out = f2.eval(input);
                let (a, b) = actual.rsplit_once('\u{1d}').unwrap_or((actual, actual));
                Verdict::cmp(out.label(), !input.is_empty(), &format!("sscanf! {0}, sscanf_unescaped! {0}", out.line()), &format!("sscanf! {}, sscanf_unescaped! {}", brief(a), brief(b)))
            };
            let oracle = Box::new(FnOracle { inp: fmt_inputs(&fmt, [6, 5, 1, 1]), fixed: vec![String::new()], judge: Box::new(judge), mode: (0, 1) });
            Case { items: String::new(), body: b, oracle, desc, class: "text without metacharacters".into() }
        }
        _ => {
            let mut ctx = Ctx::new();
            let cfg = Ucfg { unescaped: 6, max_fields: 4, max_variants: 4, ..Ucfg::default() };
            let u = if s.chance(1, 2) { gen_struct(s, &cfg, &mut ctx) } else { gen_enum(s, &cfg, &mut ctx) };
            let class = format!("derived {}", style_class(&u).split(' ').next().unwrap());
            let (c, users) = user_call(s, &FmtCfg { min: 1, max: 2, opts: 1, sep: 8, big_lits: false }, &mut |_, _| Ty::User(u.clone()));
            let mut case = user_case(s, c, &users, class, [8, 5, 1, 1], false);
            case.desc = format!("{} -> {}", case.desc, "text is a regex");
            case
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C18: error chains

fn int_error(text: &str) -> bool {
    let errs = ["", "x", "999", "-999"].map(|t| t.parse::<i8>().unwrap_err().to_string());
    errs.iter().any(|e| e == text) || "0".parse::<std::num::NonZeroU8>().unwrap_err().to_string() == text
}

/// `types`: the original error is not wrapped in an error of the user that hides its type
fn judge_error(e: &EInfo, actual: &str, types: bool) -> Option<String> {
    let Some(rest) = actual.strip_prefix("P:") else { return Some("expected ParsingFailed".into()) };
    let (rest, kind) = rest.rsplit_once('\u{1e}').unwrap_or((rest, ""));
    let texts: Vec<&str> = rest.split('\u{1f}').collect();
    let chain = &texts[1..];
    if chain.is_empty() {
        return Some("ParsingFailed without source()".into());
    }
    let last = chain[chain.len() - 1];
    match e.leaf.strip_prefix("\u{0}none:") {
        Some(field) => {
            // FilterMapNoneError names the field
            if !last.contains("filter_map") || !last.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == field || w == format!("{}s", field)) {
                return Some(format!("the original error should be FilterMapNoneError for field {:?}, found {:?}", field, last));
            }
        }
        None => {
            if last != e.leaf {
                return Some(format!("the original error should be {:?}, found {:?}", e.leaf, last));
            }
        }
    }
    // the original error itself, which a caller can downcast, not a copy of its text
    let expected = match e.leaf.as_str() {
        l if l.starts_with("\u{0}none:") => "FilterMapNoneError",
        l if l.starts_with("Missing prefix: 0") => "MissingPrefixError",
        "invalid float literal" | "cannot parse float from empty string" => "ParseFloatError",
        "provided string was not `true` or `false`" => "ParseBoolError",
        "out of range integral type conversion attempted" => "TryFromIntError",
        l if int_error(l) => "ParseIntError",
        _ => "",
    };
    if types && !expected.is_empty() && kind != expected {
        return Some(format!("the original error {:?} should be a {}, found {}", e.leaf, expected, if kind.is_empty() { "another type" } else { kind }));
    }
    // every enclosing type in order, each named in the text of its own level
    let mut i = 0;
    for w in &e.wrap {
        match chain[i..].iter().position(|t| names(t, w)) {
            Some(p) => i += p + 1,
            None => return Some(format!("the chain does not name {:?} below the previous level (expected levels {:?})", w, e.wrap)),
        }
        if i > chain.len() {
            break;
        }
    }
    if i >= chain.len() && !e.wrap.is_empty() {
        return Some("the original error is missing below its wrappers".into());
    }
    for t in &texts {
        if !t.contains(last) {
            return Some(format!("Display {:?} does not contain the text of the original error {:?}", t, last));
        }
    }
    None
}

fn names(text: &str, ty: &str) -> bool {
    // the type name is followed by the inner error: look at the first occurrence as a word
    text.split(|c: char| !c.is_alphanumeric() && c != '_').take(12).any(|w| w == ty)
}

pub fn c18(s: &mut Src) -> Case {
    let mut ctx = Ctx::new();
    let depth = s.range(0, 3);
    let cfg = Ucfg { depth, max_fields: 4, max_variants: 4, ..Ucfg::default() };
    let (c, users) = user_call(s, &FmtCfg { min: 1, max: 4, opts: 2, sep: 9, big_lits: false }, &mut |s, i| {
        if i == 0 || s.chance(1, 2) {
            Ty::User(gen_user(s, &cfg, &mut ctx))
        } else {
            Ty::Sc(*s.pick(&[Sc::U(8), Sc::I(8), Sc::NzI(8), Sc::U(16), Sc::I(64), Sc::NzU(16), Sc::F64, Sc::Str]))
        }
    });
    let lit = str_lit(s, &c.fmt.text());
    let items = items_of(&users);
    let b = body("sscanf", &c, &lit);
    let desc = format!("{}sscanf!(input, {}{})", items, lit, c.args_src());
    let class = depth_class(&users);
    let fmt = Rc::new(c.fmt);
    let f2 = fmt.clone();
    let types = !items.contains("self.0.source()");
    let judge = move |input: &str, actual: &str| match f2.eval(input) {
        Out::Parse(e) => Verdict { label: if e.wrap.len() > 1 { "nested error" } else { "direct error" }, nontrivial: true, err: judge_error(&e, actual, types) },
        out => Verdict::cmp(out.label(), false, &out.line(), actual),
    };
    let oracle = Box::new(FnOracle { inp: fmt_inputs(&fmt, [12, 2, 0, 1]), fixed: vec![String::new()], judge: Box::new(judge), mode: (0, 1) });
    Case { items, body: b, oracle, desc, class }
}

// ---------------------------------------------------------------------------------------------
// C21: totality, determinism, threads

const HOSTILE: &[char] = &['\u{0}', '\n', '\r', '\u{b}', '\u{7f}', '\u{85}', '\u{200b}', '\u{feff}', '\u{202e}', '\u{301}', '\u{10ffff}', '\u{1F468}', '\u{fffd}', 'ﬀ', 'ß', 'İ', '٣', '0', '9', 'a', '-', '+', '.', '{', '}', '\\'];

/// a conversion that calls sscanf!() and from_str()
const NEST: &str = "#[derive(::sscanf::FromScanf)] #[sscanf(\"{}x{}\")] pub struct NestIn(u8, u8);
pub struct NestWord(u8);
impl ::std::str::FromStr for NestWord { type Err = ::std::num::ParseIntError; fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {
 let i = <NestIn as ::sscanf::FromScanf>::from_str(s).unwrap(); let (a, b) = ::sscanf::sscanf!(s, \"{u8}x{u8}\").unwrap(); assert_eq!((a, b), (i.0, i.1)); ::std::result::Result::Ok(NestWord(a + b)) } }
impl ::sscanf::RegexRepresentation for NestWord { const REGEX: &'static str = \"[0-9x]+\"; }
#[derive(::sscanf::FromScanf)] #[sscanf(\"<{}>\")] pub struct Nest(NestWord);
";

/// types whose use panics: in user code, for the number of groups, for an invalid regex
const BAD: &str = "pub struct BadStr;
impl ::std::str::FromStr for BadStr { type Err = ::std::convert::Infallible; fn from_str(_: &str) -> ::std::result::Result<Self, Self::Err> { panic!(\"user code\") } }
impl ::sscanf::RegexRepresentation for BadStr { const REGEX: &'static str = \".*\"; }
pub struct BadCount;
impl ::sscanf::RegexRepresentation for BadCount { const REGEX: &'static str = \"(x)\"; }
impl<'t> ::sscanf::FromScanf<'t> for BadCount { type Err = ::std::convert::Infallible; const NUM_CAPTURES: usize = 3; fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> ::std::result::Result<Self, Self::Err> { src.next(); ::std::result::Result::Ok(BadCount) } }
#[derive(::sscanf::FromScanf)] #[sscanf(\"{}\")] pub struct BadWrap(#[allow(dead_code)] BadStr);
pub struct BadMatches;
impl ::sscanf::RegexRepresentation for BadMatches { const REGEX: &'static str = \".*\"; }
impl<'t> ::sscanf::FromScanf<'t> for BadMatches { type Err = ::std::convert::Infallible; const NUM_CAPTURES: usize = 1; fn from_matches(_: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> ::std::result::Result<Self, Self::Err> { panic!(\"user code\") } }
pub struct BadRegex;
impl ::std::str::FromStr for BadRegex { type Err = ::std::convert::Infallible; fn from_str(_: &str) -> ::std::result::Result<Self, Self::Err> { ::std::result::Result::Ok(BadRegex) } }
impl ::sscanf::RegexRepresentation for BadRegex { const REGEX: &'static str = \"(\"; }
";

pub fn c21(s: &mut Src) -> Case {
    let mut ctx = Ctx::new();
    let with_users = s.chance(1, 2);
    let threads = *s.pick(&[1, 2, 4, 8, 8, 8]);
    let cfg = Ucfg { depth: 1, max_fields: 4, max_variants: 4, ..Ucfg::default() };
    let (c, users) = user_call(s, &FmtCfg { min: 0, max: 6, opts: 2, sep: 6, big_lits: false }, &mut |s, _| {
        if with_users && s.chance(1, 2) {
            Ty::User(gen_user(s, &cfg, &mut ctx))
        } else {
            Ty::Sc(gen_sc(s, true))
        }
    });
    let lit = str_lit(s, &c.fmt.text());
    let mut items = items_of(&users);
    let class = format!("{} threads{}", threads, if with_users { ", user types" } else { "" });
    items.push_str(&format!("pub fn site() -> &'static ::sscanf::regex::Regex {{ ::sscanf::sscanf_get_regex!({}{}) }}\n", lit, c.args_src()));
    // a history of calls that panic, at other sites
    let mut b = String::new();
    if s.chance(1, 4) {
        items.push_str(BAD);
        for _ in 0..s.range(1, 2) {
            b.push_str(*s.pick(&[
                "::vrt::quiet(|| ::sscanf::sscanf!(\"x\", \"{}\", BadStr).is_ok());\n",
                "::vrt::quiet(|| <BadStr as ::sscanf::FromScanf>::from_str(input).is_ok());\n",
                "::vrt::quiet(|| <BadWrap as ::sscanf::FromScanf>::from_str(input).is_ok());\n",
                "::vrt::quiet(|| <BadMatches as ::sscanf::FromScanf>::from_str(input).is_ok());\n",
                "::vrt::quiet(|| ::sscanf::sscanf!(\"x\", \"{}\", BadWrap).is_ok());\n",
                "::vrt::quiet(|| ::sscanf::sscanf!(\"x\", \"{}{}\", BadCount, BadStr).is_ok());\n",
                "::vrt::quiet(|| <BadCount as ::sscanf::FromScanf>::from_str(\"x\").is_ok());\n",
                "::vrt::quiet(|| ::sscanf::sscanf_get_regex!(\"{}\", BadRegex).is_match(input));\n",
                "::vrt::quiet(|| ::sscanf::sscanf!(input, \"{}\", BadRegex).is_ok());\n",
                "::vrt::quiet(|| <BadRegex as ::sscanf::FromScanf>::from_str(input).is_ok());\n",
            ]));
        }
    }
    if s.chance(1, 4) {
        // conversions that parse in turn
        items.push_str(NEST);
        b.push_str(*s.pick(&[
            "assert_eq!(<Nest as ::sscanf::FromScanf>::from_str(\"<12x5>\").unwrap().0.0, 17);\n",
            "assert_eq!(::sscanf::sscanf!(\"<<12x5>>\", \"<{}>\", Nest).unwrap().0.0, 17);\n",
        ]));
    }
    b.push_str(&format!("let a = {{ {} }};\nlet m = site().is_match(input);\n", body("sscanf", &c, &lit)));
    // from_str of the first owned user type, whatever the input
    match users.iter().find(|u| !u.lt) {
        Some(u) => b.push_str(&format!("let f = ::vrt::fin(<{} as ::sscanf::FromScanf>::from_str(input), |v| format!(\"{{:?}}\", v));\n", u.rust(""))),
        None => b.push_str("let f = ::vrt::fin(<u32 as ::sscanf::FromScanf>::from_str(input), |v| format!(\"{:?}\", v));\n"),
    }
    b.push_str("format!(\"{}\\u{1d}{}\\u{1d}{}\", a, m, f)");
    let desc = format!("{}sscanf!(input, {}{})", items, lit, c.args_src());
    let fmt = Rc::new(c.fmt);
    let f2 = fmt.clone();
    let fu: Ty = match users.iter().find(|u| !u.lt) {
        Some(u) => Ty::User(u.clone()),
        None => Ty::Sc(Sc::U(32)),
    };
    let judge = move |input: &str, actual: &str| {
        let out = f2.eval(input);
        let fs = match &fu {
            Ty::User(u) if !u.fromstr => match u.try_parse(input) {
                None => Out::NoMatch,
                Some(Ok(v)) => Out::Ok(vec![v]),
                Some(Err(e)) => Out::Parse(e),
            },
            t => match t.parse(input) {
                Ok(v) => Out::Ok(vec![v]),
                Err(e) => Out::Parse(e),
            },
        };
        let mut it = actual.splitn(3, '\u{1d}');
        let (a, m, f) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
        let exp = format!("{}, is_match {}, from_str {}", out.line(), out != Out::NoMatch, fs.line());
        let act = format!("{}, is_match {}, from_str {}", brief(a), m, brief(f));
        Verdict::cmp(out.label(), !input.is_empty(), &exp, &act)
    };
    let f3 = fmt.clone();
    let inp = move |s: &mut Src| match s.weighted(&[6, 3, 3, 1]) {
        0 => f3.sample(s),
        1 => {
            let t = f3.sample(s);
            mutate(s, &t, HOSTILE)
        }
        2 => random_text(s, HOSTILE, 200),
        _ => {
            // long inputs
            let n = s.range(100, 4000);
            let c = f3.alpha[s.idx(f3.alpha.len())];
            match s.idx(3) {
                0 => c.to_string().repeat(n),
                1 => format!("{}{}", f3.sample(s), c.to_string().repeat(n)),
                _ => format!("{}{}", c.to_string().repeat(n), f3.sample(s)),
            }
        }
    };
    let mut fixed = vec![String::new(), "\u{0}".into(), "\n".into(), "\u{feff}".into()];
    if s.chance(1, 8) {
        fixed.push("0".repeat(50_000));
        fixed.push("é1 ".repeat(20_000));
    }
    let oracle = Box::new(FnOracle { inp: Box::new(inp), fixed, judge: Box::new(judge), mode: (1, threads) });
    Case { items, body: b, oracle, desc, class }
}

// ---------------------------------------------------------------------------------------------
// C22: deprecated names

/// the wrapper types on their own: parsed by FromStr, read and written through Deref, compared
fn wrapper_ops(s: &mut Src) -> Case {
    let (w, t) = *s.pick(&[("HexNumber", "usize"), ("FullF32", "f32"), ("FullF64", "f64")]);
    let path = "::sscanf::";
    let b = format!(
        "use ::std::str::FromStr;
type W = {path}{w};
type T = {t};
let (a, b) = input.split_once('|').unwrap_or((input, \"\"));
let same = <W as ::sscanf::RegexRepresentation>::REGEX == <T as ::sscanf::RegexRepresentation>::REGEX;
let r = match (W::from_str(a), b.parse::<T>()) {{
    (Ok(w), Ok(p)) => {{
        let mut v = w;
        *v = p;
        let ref_mut: &mut T = &mut *v;
        let again = *ref_mut;
        format!(\"{{:?}} {{:?}} {{:?}} {{:?}} {{}} {{}} {{}} {{}} {{}} {{:?}} {{:?}}\", w, *w, w.0, Clone::clone(&w), w == p, p == w, w != p, p != w, w == W {{ 0: p }}, v, again)
    }}
    (w, p) => format!(\"{{}} {{}}\", w.is_ok(), p.is_ok()),
}};
format!(\"{{}} {{}}\", same, r)"
    );
    fn model<T: std::fmt::Debug + PartialEq + Copy>(w: &str, same: bool, a: Option<T>, b: Option<T>) -> String {
        match (a, b) {
            (Some(a), Some(b)) => {
                let e = a == b;
                format!("{same} {w}({a:?}) {a:?} {a:?} {w}({a:?}) {e} {e} {} {} {e} {w}({b:?}) {b:?}", !e, !e)
            }
            (a, b) => format!("{same} {} {}", a.is_some(), b.is_some()),
        }
    }
    let hex = w == "HexNumber";
    let inp = move |s: &mut Src| {
        let mut num = |s: &mut Src| match hex {
            true => {
                let n = s.weighted(&[1, 8, 4, 2]) * 6;
                let digits: String = (0..n.saturating_sub(s.idx(6))).map(|_| *s.pick(&b"0123456789abcdefABCDEF0g"[..]) as char).collect();
                format!("{}{}", s.pick(&["", "", "0x", "0X", "0"]), digits)
            }
            false => s.pick(&["0", "-0", "1.5", "-2.25e3", "inf", "-inf", "NaN", "1e39", "1e-50", "3.4028235e38", "0.1", "x", "", "7", "+7", ".5", "5."]).to_string(),
        };
        let a = num(s);
        let b = if s.chance(1, 3) { a.clone() } else { num(s) };
        // the second one is the number itself
        let b = match hex {
            true => u64::from_str_radix(b.trim_start_matches("0x").trim_start_matches("0X"), 16).map_or("none".into(), |n| n.to_string()),
            false => b,
        };
        format!("{}|{}", a, b)
    };
    let judge = move |input: &str, actual: &str| {
        let (a, b) = input.split_once('|').unwrap_or((input, ""));
        let want = match w {
            "HexNumber" => {
                let digits = a.strip_prefix("0x").or_else(|| a.strip_prefix("0X")).unwrap_or(a);
                let n = digits.bytes().all(|c| c.is_ascii_hexdigit()).then(|| u64::from_str_radix(digits, 16).ok()).flatten();
                model(w, false, n, b.parse::<u64>().ok())
            }
            "FullF32" => model(w, true, a.parse::<f32>().ok(), b.parse::<f32>().ok()),
            _ => model(w, true, a.parse::<f64>().ok(), b.parse::<f64>().ok()),
        };
        let both = want.len() > 12;
        Verdict { label: if both { "two numbers" } else { "not a number" }, nontrivial: both, err: if want == actual { None } else { Some(format!("expected {}", want)) } }
    };
    let desc = b.clone();
    let fixed = vec!["1|1".into(), "0x1f|31".into(), "NaN|NaN".into(), "0|-0".into(), "|".into(), "0x|1".into(), "ffffffffffffffff|18446744073709551615".into(), "10000000000000000|1".into()];
    Case { items: String::new(), body: b, oracle: Box::new(FnOracle { inp: Box::new(inp), fixed, judge: Box::new(judge), mode: (0, 1) }), desc, class: format!("{} by itself", w) }
}

pub fn c22(s: &mut Src) -> Case {
    match s.weighted(&[4, 3, 2, 3, 2, 1]) {
        5 => wrapper_ops(s),
        0 => {
            let c = gen_call(s, &FmtCfg { min: 0, max: 6, opts: 2, sep: 7, big_lits: false }, &mut |s| Ty::Sc(gen_sc(s, true)));
            let lit = str_lit(s, &c.fmt.text());
            let b = body("scanf", &c, &lit);
            let desc = format!("scanf!(input, {}{})", lit, c.args_src());
            Case { items: String::new(), body: b, oracle: fmt_oracle(Rc::new(c.fmt), [6, 4, 1, 1]), desc, class: "scanf!".into() }
        }
        1 => {
            let c = gen_unescaped(s);
            let lit = str_lit(s, &c.fmt.text());
            let b = body("scanf_unescaped", &c, &lit);
            let desc = format!("scanf_unescaped!(input, {}{})", lit, c.args_src());
            Case { items: String::new(), body: b, oracle: fmt_oracle(Rc::new(c.fmt), [6, 4, 1, 1]), desc, class: "scanf_unescaped!".into() }
        }
        2 => {
            let mut c = regex_case(s, "scanf_get_regex", "scanf");
            c.class = "scanf_get_regex!".into();
            c
        }
        3 => {
            let n = s.weighted(&[0, 4, 2]);
            let tys: Vec<(Ty, Opt)> = (0..n).map(|_| (Ty::Sc(*s.pick(&[Sc::Hex, Sc::FullF32, Sc::FullF64])), Opt::None)).collect();
            let mut tys = tys;
            if s.chance(1, 4) {
                // what it leaves to the next one
                tys.push((Ty::Sc(*s.pick(&[Sc::String, Sc::Str, Sc::Char])), Opt::None));
            }
            let (args, phs) = bind(s, &tys, Bind::Mix);
            let mut parts = vec![];
            for p in phs {
                if s.chance(1, 2) {
                    parts.push(Part::Lit(s.pick(&[",", " ", "x", "-", "0", "0x"]).to_string()));
                }
                parts.push(Part::Ph(p));
            }
            let c = Call1 { args, fmt: Fmt::new(parts) };
            let lit = str_lit(s, &c.fmt.text());
            // the wrappers behave like their contents
            let b = body("sscanf", &c, &lit);
            let desc = format!("sscanf!(input, {}{})", lit, c.args_src());
            let class = tys.iter().map(|t| t.0.rust("").rsplit("::").next().unwrap().to_string()).collect::<Vec<_>>().join("+");
            let mut o = fmt_oracle(Rc::new(c.fmt), [10, 4, 1, 1]);
            for h in ["0", "0x0", "0X0", "x0", "0x", "ff", "FF", "fF", "0xffffffffffffffff", "ffffffffffffffff", "10000000000000000", "0x10000000000000000", "00000000000000000000001", "g", "0xg", "-1", "+1", "0x-1", "1.5", "inf", "NaN", "-0.0", "1e5"] {
                o.fixed.push(h.into());
            }
            Case { items: String::new(), body: b, oracle: o, desc, class }
        }
        _ => {
            let mut ctx = Ctx::new();
            let cfg = Ucfg { max_fields: 4, max_variants: 4, ..Ucfg::default() };
            let u = if s.chance(1, 2) { gen_struct(s, &cfg, &mut ctx) } else { gen_enum(s, &cfg, &mut ctx) };
            let mut u = Rc::try_unwrap(u).ok().expect("one owner");
            u.derives = "Debug, ::sscanf::FromSscanf";
            let u = Rc::new(u);
            let (c, users) = user_call(s, &FmtCfg { min: 1, max: 2, opts: 1, sep: 8, big_lits: false }, &mut |_, _| Ty::User(u.clone()));
            let mut case = user_case(s, c, &users, "derive(FromSscanf)".into(), [8, 4, 0, 1], false);
            if s.chance(1, 2) {
                // the trait by its old name
                case.items.push_str(&format!("pub fn bound<'t, T: ::sscanf::FromSscanf<'t>>() {{}} pub fn uses<'t>() {{ bound::<'t, {}>() }}\n", u.rust("'t")));
            }
            case
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C23: stray capture groups at run time

/// inserts a capture group somewhere
fn with_group(s: &mut Src, re: &str) -> String {
    match s.idx(6) {
        0 => format!("({})", re),
        1 => format!("(?P<stray>{})", re),
        2 => format!("(?:{})(x)?", re),
        3 => format!("(?:(?:{})|(?:a(b)))", re),
        4 => format!("(?i:(?:({})))", re),
        _ => format!("(?<stray>{})", re),
    }
}

pub fn c23(s: &mut Src) -> Case {
    let kind = s.weighted(&[3, 3, 3, 3, 4, 2]);
    let never_ok = |_: &str, actual: &str| {
        let bad = !actual.starts_with("X:");
        Verdict { label: "stray group", nontrivial: true, err: if bad { Some("expected a panic: the capture groups disagree with NUM_CAPTURES".into()) } else { None } }
    };
    let mk = |items: String, c: Call1, lit: String, mac: &str, class: &str, offender: Option<usize>| {
        let b = body(mac, &c, &lit);
        let desc = format!("{}{}!(input, {}{})", items, mac, lit, c.args_src());
        let fmt = Rc::new(c.fmt);
        let _ = offender;
        Case {
            items,
            body: b,
            oracle: Box::new(FnOracle { inp: fmt_inputs(&fmt, [6, 2, 0, 1]), fixed: vec![String::new()], judge: Box::new(never_ok), mode: (0, 1) }),
            desc,
            class: class.into(),
        }
    };
    match kind {
        0 | 1 => {
            // a type whose REGEX has more groups than it declares
            let base = *s.pick(&["[0-9]+", "[a-z]", "x|yy", "q.?", r"\(a\)"]);
            let re = with_group(s, base);
            let (imp, class) = if kind == 0 {
                (
                    "impl ::std::str::FromStr for Bad { type Err = ::std::convert::Infallible; fn from_str(s: &str) -> Result<Self, Self::Err> { Ok(Bad(s.to_string())) } }".to_string(),
                    "FromStr type with a group",
                )
            } else {
                let n = *s.pick(&[0usize, 1, 3, 4, 9]);
                (
                    format!("impl<'t> ::sscanf::FromScanf<'t> for Bad {{ type Err = ::std::convert::Infallible; const NUM_CAPTURES: usize = {}; fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> {{ let t = src.next().unwrap().unwrap().as_str().to_string(); for _ in 1..{} {{ src.next(); }} Ok(Bad(t)) }} }}", n, n),
                    "manual type with wrong NUM_CAPTURES",
                )
            };
            // (kind 1: the type has exactly two groups: its own and the stray one)
            let mut items = format!("#[derive(Debug)] pub struct Bad(String);\nimpl ::sscanf::RegexRepresentation for Bad {{ const REGEX: &'static str = r#\"{}\"#; }}\n{}\n", re, imp);
            let nested = s.weighted(&[3, 1, 1]);
            let tname = match nested {
                0 => "Bad",
                1 => {
                    items.push_str("#[derive(Debug, ::sscanf::FromScanf)]\n#[sscanf(\"<{b}{c}>\")]\npub struct Outer { b: Bad, #[sscanf(from = u8)] c: u32 }\n");
                    "Outer"
                }
                _ => {
                    items.push_str("#[derive(Debug, ::sscanf::FromScanf)]\npub enum Outer { #[sscanf(\"n{}\")] N(u8), #[sscanf(\"<{}>\")] B(Bad) }\n");
                    "Outer"
                }
            };
            // reference type used only to place it among others and to sample inputs
            let re2 = format!("(?:{})", base);
            let opaque = sampler(tname, &match nested {
                0 => re2.clone(),
                1 => format!("<{}[0-9]{{1,2}}>", re2),
                _ => format!("<{}>", re2),
            });
            let c = gen_call_with(s, &opaque);
            let lit = str_lit(s, &c.fmt.text());
            mk(items, c, lit, "sscanf", class, None)
        }
        2 => {
            // unescaped text with a group
            let mut c = gen_unescaped(s);
            let re = with_group(s, "[a-z]?");
            let text = c.fmt.text();
            let text = if s.chance(1, 2) { format!("{}{}", dbl(&re), text) } else { format!("{}{}", text, dbl(&re)) };
            let lit = str_lit(s, &text);
            let parts = c.fmt.parts.clone();
            c.fmt = Fmt::new(parts);
            mk(String::new(), c, lit, "sscanf_unescaped", "unescaped text with a group", None)
        }
        3 => {
            let re = with_group(s, "[a-z]?");
            let u = s.chance(1, 2);
            let items = if u {
                let lit = str_lit(s, &format!("{}{{}}:{{}}", dbl(&re)));
                format!("#[derive(Debug, ::sscanf::FromScanf)]\n#[sscanf(format_unescaped = {})]\npub struct Bad(u8, String);\n", lit)
            } else {
                let lit = str_lit(s, &format!("{{}}:{}", dbl(&re)));
                format!("#[derive(Debug, ::sscanf::FromScanf)]\npub enum Bad {{ #[sscanf(\"a\")] A, #[sscanf(format_unescaped = {})] B(u8), #[sscanf(\"c{{}}\")] C(u8) }}\n", lit)
            };
            let opaque = sampler("Bad", if u { "[a-z]?[0-9]{1,2}:x" } else { "[0-9]{1,2}:[a-z]?" });
            let c = gen_call_with(s, &opaque);
            let lit = str_lit(s, &c.fmt.text());
            mk(items, c, lit, "sscanf", "derived unescaped text with a group", None)
        }
        4 => {
            // look-alikes are accepted and mean what they say
            let n = s.range(1, 3);
            let look: &[(&str, &[&str])] = &[
                (r"\(a\)", &["(a)"]),
                (r"[(]b[)]", &["(b)"]),
                (r"(?:c|d)", &["c", "d"]),
                (r"(?i:e)", &["e", "E"]),
                (r"(?i)f", &["f", "F"]),
                (r"\\(?:g)", &["\\g"]),
                (r"[()]{2}", &["()", ")("]),
                (r"[^(]\(", &["x(", "(("]),
                (r"(?:(?:h)?[(?]i)+", &["h(i", "?i"]),
                (r"\x28", &["("]),
                (r"[\](]", &["]", "("]),
                (r"(?-u:j)", &["j"]),
                (r"\(?P<n>", &["(P<n>", "P<n>"]),
                (r"(?s:.)", &["z", "\n"]),
            ];
            let pool = look;
            let mut parts = vec![];
            let mut desc_n = 0;
            let unesc = s.chance(1, 3);
            for i in 0..n {
                let (re, m) = *s.pick(pool);
                desc_n += 1;
                let rx = rx::Rx::Class(re.to_string(), vec![]);
                let _ = (m, i);
                if unesc && s.chance(1, 2) && re != r"(?i)f" {
                    parts.push(Part::Rx(look_rx(re, m)));
                } else {
                    let ty = Ty::Sc(*s.pick(&[Sc::String, Sc::Str, Sc::Cow]));
                    let ident = ty.rust("");
                    parts.push(Part::Ph(Ph { ident, ty, opt: Opt::Re(look_rx(re, m)) }));
                }
                let _ = rx;
                parts.push(if unesc { Part::Rx(rx::Rx::Lit(',')) } else { Part::Lit(",".into()) });
            }
            let c = Call1 { args: vec![], fmt: Fmt::new(parts) };
            let lit = str_lit(s, &c.fmt.text());
            let mac = if unesc { "sscanf_unescaped" } else { "sscanf" };
            let b = body(mac, &c, &lit);
            let desc = format!("{}!(input, {})", mac, lit);
            let _ = desc_n;
            Case { items: String::new(), body: b, oracle: fmt_oracle(Rc::new(c.fmt), [6, 2, 0, 1]), desc, class: "look-alike".into() }
        }
        _ => {
            // from_matches takes more or fewer groups than declared: never Ok
            let (re, n) = *s.pick(&[("(b+)", 2usize), ("(b)(b)?", 3), ("b(?:b|(b))", 2), ("(b)(b)?(b)?", 4)]);
            // the follower inside the derived type, and its regex
            let (fol, fol_re) = *s.pick(&[("u32", "[0-9]{1,2}"), ("String", "x"), ("String", "x"), ("", "")]);
            let nested = s.weighted(&[2, 4, 4]);
            let alone = nested == 0 || fol.is_empty();
            // a type at the end that asks for more than there is gets what it declared
            let take = if alone || s.chance(2, 3) { s.idx(n) } else { n + 1 + s.idx(2) };
            let own = if take == 0 { "String::new()" } else { "src.next().unwrap().unwrap().as_str().to_string()" };
            let mut items = format!(
                "#[derive(Debug)] pub struct Bad(String);\nimpl ::sscanf::RegexRepresentation for Bad {{ const REGEX: &'static str = r\"{re}\"; }}\nimpl<'t> ::sscanf::FromScanf<'t> for Bad {{ type Err = ::std::convert::Infallible; const NUM_CAPTURES: usize = {n}; fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> {{ let t = {own}; for _ in 1..{take} {{ src.next(); }} Ok(Bad(t)) }} }}\n"
            );
            let f = if fol.is_empty() { String::new() } else { format!(", c: {}", fol) };
            let fmt = if fol.is_empty() { "{b}" } else { "{b}{c}" };
            match nested {
                0 => {}
                1 => items.push_str(&format!("#[derive(Debug, ::sscanf::FromScanf)]\n#[sscanf(\"{fmt}\")]\npub struct Outer {{ b: Bad{f} }}\n")),
                _ => {
                    let before = s.chance(1, 2);
                    let other = "#[sscanf(\"{}-{}\")] Other(u8, u8)";
                    let b = format!("#[sscanf(\"{fmt}\")] B {{ b: Bad{f} }}");
                    let (v1, v2) = if before { (other.to_string(), b) } else { (b, other.to_string()) };
                    items.push_str(&format!("#[derive(Debug, ::sscanf::FromScanf)]\npub enum Outer {{ {v1}, {v2} }}\n"));
                }
            }
            let text = if nested == 0 { "b+".to_string() } else { format!("b+{}", fol_re) };
            let opaque = if nested == 0 { sampler("Bad", &text) } else { sampler("Outer", &text) };
            let strict = fol != "u32" || nested == 0;
            if nested > 0 && s.chance(1, 2) {
                let b = "let r = <Outer as ::sscanf::FromScanf>::from_str(input);\n::vrt::fin(r, |a| format!(\"{:?}\", a))".to_string();
                let desc = format!("{items}<Outer as FromScanf>::from_str(input)");
                let t2 = text.clone();
                let inner = FnOracle { inp: Box::new(move |s: &mut Src| sample_of(&t2, s)), fixed: vec!["b".into(), "bx".into(), "bbx".into(), "b7".into()], judge: Box::new(never_ok), mode: (0, 1) };
                return Case { items, body: b, oracle: Box::new(NeverOk { inner: Box::new(inner), strict }), desc, class: "from_str with a type that takes a wrong number of groups".into() };
            }
            let c = gen_call_with(s, &opaque);
            let lit = str_lit(s, &c.fmt.text());
            let mut case = mk(items, c, lit, "sscanf", "from_matches takes a wrong number of groups", None);
            let old = std::mem::replace(&mut case.oracle, Box::new(LitNever));
            case.oracle = Box::new(NeverOk { inner: old, strict: false });
            case
        }
    }
}

struct LitNever;
impl Oracle for LitNever {
    fn input(&self, _: &mut Src) -> String {
        String::new()
    }
    fn judge(&self, _: &str, _: &str) -> Verdict {
        Verdict { label: "", nontrivial: false, err: None }
    }
}

struct NeverOk {
    inner: Box<dyn Oracle>,
    /// no conversion can fail before the groups are counted
    strict: bool,
}
impl Oracle for NeverOk {
    fn input(&self, s: &mut Src) -> String {
        self.inner.input(s)
    }
    fn judge(&self, _: &str, actual: &str) -> Verdict {
        let label = if actual == "M" { "match_failed" } else { "stray group" };
        let err = if actual.starts_with("O:") {
            Some("values were returned although the wrong number of groups was taken".into())
        } else if self.strict && actual.starts_with("P:") {
            Some("expected a panic: a wrong number of groups was taken".into())
        } else {
            None
        };
        Verdict { label, nontrivial: actual != "M", err }
    }
}

/// a regex node with fixed source and members
fn look_rx(re: &str, m: &[&str]) -> rx::Rx {
    rx::Rx::Fixed(re.to_string(), m.iter().map(|x| x.to_string()).collect())
}

/// stands for a user type in formats whose results are not compared
fn sampler(name: &str, regex: &str) -> Rc<User> {
    let re = regex::Regex::new(&format!(r"\A(?:{})\z", regex)).unwrap();
    let r2 = regex.to_string();
    Rc::new(User {
        name: name.into(),
        lt: false,
        generics: Default::default(),
        args: String::new(),
        kind: Kind::Opaque {
            items: String::new(),
            regex: regex.into(),
            re,
            parse: Rc::new(|t: &str| Ok(Val::D(t.to_string()))),
            sample: Rc::new(move |s: &mut Src| sample_of(&r2, s)),
        },
        deps: vec![],
        derives: "",
        fromstr: false,
        noise: 0,
    })
}

fn sample_of(re: &str, s: &mut Src) -> String {
    let pool: &[&str] = &["7", "42", "a", "x", "yy", "q", "qz", "(a)", "<7", "<a5>", "<7>", "<x9>", "<yy>", "<q>", "<(a)1>", "a12:x", "3:x", "4:b", "55:", "b", "bbb", "bb12", "b3", "<q1>", "<51>", "<x>", "bx", "bbx", "b42", "bb"];
    let r = regex::Regex::new(&format!(r"\A(?:{})\z", re)).unwrap();
    let ok: Vec<&&str> = pool.iter().filter(|t| r.is_match(t)).collect();
    if ok.is_empty() {
        return "x".into();
    }
    ok[s.idx(ok.len())].to_string()
}

fn gen_call_with(s: &mut Src, u: &Rc<User>) -> Call1 {
    let at = s.idx(3);
    let mut i = 0;
    gen_call(s, &FmtCfg { min: at + 1, max: at + 3, opts: 1, sep: 7, big_lits: false }, &mut |s| {
        let t = if i == at { Ty::User(u.clone()) } else { Ty::Sc(gen_sc(s, true)) };
        i += 1;
        t
    })
}

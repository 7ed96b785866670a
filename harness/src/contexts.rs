//! C24: calls and declarations placed in unusual surroundings. The meaning stays that of the plain
//! call, so the reference evaluation of the format is the oracle.
use crate::engine::*;
use crate::fmt::*;
use crate::props::*;
use crate::props2::*;
use crate::src::Src;
use crate::user::*;
use std::rc::Rc;

fn is_ident(c: char) -> bool {
    c.is_alphanumeric() || c == '_'
}

/// byte positions of the word `w`; occurrences after `::` only if `paths`
fn words(t: &str, w: &str, paths: bool) -> Vec<usize> {
    t.match_indices(w)
        .map(|(i, _)| i)
        .filter(|&i| {
            let before = &t[..i];
            !before.chars().next_back().map_or(false, is_ident) && !t[i + w.len()..].chars().next().map_or(false, is_ident) && (paths || !(before.ends_with("::") || before.ends_with("#[")))
        })
        .collect()
}

fn replace_word(t: &str, w: &str, by: &str) -> String {
    let mut out = String::new();
    let mut last = 0;
    for i in words(t, w, true) {
        out.push_str(&t[last..i]);
        out.push_str(by);
        last = i + w.len();
    }
    out + &t[last..]
}

/// items a caller may have next to the call: (names, text)
const ITEMS: &[(&[&str], &str)] = &[
    (&["Result"], "pub struct Result;"),
    (&["Result"], "pub type Result<T> = ::std::result::Result<T, ()>;"),
    (&["Option"], "pub struct Option;"),
    (&["Option"], "pub enum Option { Nothing }"),
    (&["Box"], "pub struct Box<T>(T);"),
    (&["String"], "pub struct String;"),
    (&["Vec"], "pub struct Vec;"),
    (&["Error"], "#[derive(Debug)] pub struct Error;"),
    (&["Regex"], "pub struct Regex;"),
    (&["Cow"], "pub struct Cow;"),
    (&["Ok"], "pub fn Ok() {}"),
    (&["Err"], "pub fn Err() {}"),
    (&["Some"], "pub struct Some;"),
    (&["None"], "pub fn None() {}"),
    (&["Ok", "Err", "ResultLike"], "pub enum ResultLike { Ok(u8), Err(u8) } pub use self::ResultLike::*;"),
    (&["Some", "None", "OptionLike"], "pub enum OptionLike { Some(u8), None } pub use self::OptionLike::*;"),
    (&["FromScanf"], "pub trait FromScanf { fn from_matches(); }"),
    (&["RegexRepresentation"], "pub trait RegexRepresentation { const REGEX: u8; }"),
    (&["FromStr"], "pub trait FromStr { fn from_str(s: &str) -> u8; }"),
    (&["Default"], "pub trait Default { fn default() -> u8 { 0 } }"),
    (&["From"], "pub trait From { fn from(x: u8) -> u8 { x } } impl From for u32 {} impl From for i64 {}"),
    (&["TryFrom"], "pub trait TryFrom { fn try_from(x: u8) -> u8 { x } } impl TryFrom for u8 {} impl TryFrom for u16 {}"),
    (&["Iterator"], "pub trait Iterator { fn next(&mut self) -> u8; }"),
    (&["ExactSizeIterator"], "pub trait ExactSizeIterator { fn len(&self) -> u8; }"),
    (&["ToString", "Into", "AsRef", "Deref"], "pub trait ToString {} pub trait Into {} pub trait AsRef {} pub trait Deref {}"),
    (&["Clone", "Copy", "Sized2", "Fn2"], "pub trait Clone {} pub trait Copy {}"),
    (&["std"], "pub mod std {}"),
    (&["core"], "pub mod core {}"),
    (&["alloc"], "pub mod alloc {}"),
    (&["sscanf"], "pub mod sscanf { pub struct FromScanf; }"),
    (&["sscanf"], "pub fn sscanf() {}"),
    (&["regex"], "pub mod regex { pub struct Regex; }"),
    (&["lazy_static"], "pub mod lazy_static {}"),
    (&["lazy_static"], "macro_rules! lazy_static { ($($t:tt)*) => { ::std::compile_error!(\"wrong macro\") } }"),
    (&["errors"], "pub mod errors {}"),
    (&["REGEX"], "pub const REGEX: &'static str = \"never\";"),
    (&["REGEX"], "pub static REGEX: u8 = 1;"),
    (&["REGEX"], "pub struct REGEX;"),
    (&["NUM_CAPTURES"], "pub const NUM_CAPTURES: usize = 99;"),
    (&["EXPECT_NEXT_HINT", "EXPECT_CAPTURE_HINT", "WRONG_CAPTURES_HINT"], "pub const EXPECT_NEXT_HINT: u8 = 0; pub const EXPECT_CAPTURE_HINT: u8 = 0; pub const WRONG_CAPTURES_HINT: u8 = 0;"),
    (&["src"], "pub fn src() {}"),
    (&["input2", "cap", "matcher", "value"], "pub fn cap() {} pub fn matcher() {} pub fn value() {}"),
    (&["n", "res", "e", "catcher"], "pub fn n() {} pub fn res() {} pub fn e() {} pub fn catcher() {}"),
    (&["start_len", "remaining", "expected"], "pub fn start_len() {} pub fn remaining() {} pub fn expected() {}"),
    (&["str"], "use ::std::str;"),
    (&["char"], "use ::std::char;"),
    (&["f32", "f64"], "use ::std::{f32, f64};"),
    (&["u8", "u16", "u32"], "use ::std::{u8, u16, u32};"),
    (&["i64", "i128", "usize"], "use ::std::{i64, i128, usize};"),
    (&["StrExt"], "pub trait StrExt { fn get(&self) -> u8 { 0 } fn strip_prefix(&self) -> u8 { 0 } fn as_str(&self) -> u8 { 0 } fn len(&self) -> u8 { 0 } fn unwrap_or(&self) {} fn captures(&self) {} } impl StrExt for str {} impl<'q> StrExt for &'q str {} impl StrExt for ::std::string::String {}"),
    (&["NumExt"], "pub trait NumExt { fn from_str_radix(s: &str) -> u8 { 0 } fn from_str(s: &str) -> u8 { 0 } fn from_matches() {} const REGEX: u8 = 0; const NUM_CAPTURES: u8 = 0; } impl NumExt for u8 {} impl NumExt for u16 {} impl NumExt for i32 {} impl NumExt for f64 {} impl NumExt for ::std::string::String {} impl NumExt for char {} impl NumExt for bool {}"),
    (&["ResExt"], "pub trait ResExt { fn unwrap(&self) {} fn expect(&self) {} fn is_some(&self) {} fn map_err(&self) {} fn and_then(&self) {} } impl<T> ResExt for ::std::option::Option<T> {} impl<T, E> ResExt for ::std::result::Result<T, E> {}"),
];

/// modules named like a primitive type do not hide it
const PRIMS: &[&str] = &["str", "char", "f32", "f64", "u8", "u16", "u32", "i64", "i128", "usize"];

/// names a user may give to a type
const TYPE_NAMES: &[&str] = &[
    "Result", "Option", "Box", "String", "Vec", "Error", "Regex", "Cow", "Iterator", "FromStr", "Match", "Captures", "Some", "Ok", "Err", "None", "FromScanf", "Default", "From", "TryFrom", "SubCaptureMatches",
    "RegexRepresentation", "Display", "Debug", "Borrowed", "REGEX", "Matcher", "ParsingFailed", "MatchFailed", "FromScanfFailedError", "Str", "Größe", "Self_",
];

/// names of the variable that holds the input
const LOCALS: &[&str] = &[
    "input", "src", "cap", "matcher", "value", "res", "start_len", "regex", "regex_str", "e", "n", "expected", "remaining", "catcher", "REGEX", "s", "no_sign", "no_sign_prefix", "negative", "error", "len", "captures", "ret", "x", "r#type", "num_captures",
];

fn inherent(u: &User) -> Option<String> {
    let (g, t) = match (&u.kind, u.generics.0.as_str()) {
        (Kind::Opaque { .. }, _) => return None,
        (_, "") => ("", u.name.clone()),
        (_, "<'a>") => ("<'q>", format!("{}<'q>", u.name)),
        _ => return None,
    };
    Some(format!(
        "impl{g} {t} {{ pub const REGEX: &'static str = \"never\"; pub const NUM_CAPTURES: usize = 77; pub fn from_matches() {{}} pub fn from_str(_: &str) -> u8 {{ 0 }} pub fn default() -> u8 {{ 0 }} pub fn from(_: u8) -> u8 {{ 0 }} pub fn try_from(_: u8) -> u8 {{ 0 }} }}\n"
    ))
}

fn rival(u: &User) -> Option<String> {
    let (g, t) = match (&u.kind, u.generics.0.as_str()) {
        (_, "") => ("", u.name.clone()),
        (_, "<'a>") => ("<'q>", format!("{}<'q>", u.name)),
        _ => return None,
    };
    Some(format!(
        "pub trait Rv{n} {{ type Err; const REGEX: u8 = 1; const NUM_CAPTURES: u8 = 1; fn from_matches() {{}} fn from_str(_: &str) -> u8 {{ 0 }} fn default() -> u8 {{ 0 }} fn from(_: u8) -> u8 {{ 0 }} fn try_from(_: u8) -> u8 {{ 0 }} }}\nimpl{g} Rv{n} for {t} {{ type Err = (); }}\n",
        n = u.name
    ))
}

fn collect_users(us: &[Rc<User>], out: &mut Vec<Rc<User>>) {
    for u in us {
        collect_users(&u.deps, out);
        if !out.iter().any(|x| x.name == u.name) {
            out.push(u.clone());
        }
    }
}

/// the arguments of the macro call
struct Pieces {
    mac: &'static str,
    input: String,
    lit: String,
    args: Vec<String>,
}

impl Pieces {
    fn call(&self) -> String {
        format!("::sscanf::{}!({}, {}{})", self.mac, self.input, self.lit, self.args.iter().map(|a| format!(", {}", a)).collect::<String>())
    }
}

fn single_token(t: &str) -> bool {
    t.chars().all(is_ident)
}

/// `word` occurs in `text` as an identifier
fn mentions(text: &str, word: &str) -> bool {
    text.split(|c: char| !is_ident(c)).any(|w| w == word)
}

/// sends some arguments through a macro: (definition, call)
fn through_macro(s: &mut Src, p: &Pieces, name: &str, levels: usize) -> (String, String) {
    let mut params: Vec<(String, String)> = vec![];
    let mut inner = Pieces { mac: p.mac, input: p.input.clone(), lit: p.lit.clone(), args: p.args.clone() };
    if s.chance(1, 6) {
        let all = format!("{}, {}{}", p.input, p.lit, p.args.iter().map(|a| format!(", {}", a)).collect::<String>());
        return (format!("macro_rules! {name} {{ ($($t:tt)*) => {{ ::sscanf::{}!($($t)*) }} }}\n", p.mac), format!("{name}!({all})"));
    }
    if s.chance(4, 5) {
        let k = if single_token(&p.input) { *s.pick(&["expr", "ident", "tt"]) } else { "expr" };
        params.push((k.into(), p.input.clone()));
        inner.input = format!("$p{}", params.len() - 1);
    }
    if s.chance(2, 3) {
        params.push((s.pick(&["literal", "tt", "expr"]).to_string(), p.lit.clone()));
        inner.lit = format!("$p{}", params.len() - 1);
    }
    for a in inner.args.iter_mut() {
        if s.chance(2, 3) {
            let k = if single_token(a) { *s.pick(&["ty", "ident", "tt", "path"]) } else { "ty" };
            params.push((k.into(), a.clone()));
            *a = format!("$p{}", params.len() - 1);
        }
    }
    let pat: Vec<String> = params.iter().enumerate().map(|(i, (k, _))| format!("$p{}:{}", i, k)).collect();
    let body = if s.chance(1, 3) {
        // the caller's tokens meet the macro's own variables
        // (the tokens written in the macro itself would mean its variable)
        let text = inner.call();
        let k = s.idx(LOCALS.len());
        match (0..LOCALS.len()).map(|i| LOCALS[(k + i) % LOCALS.len()]).find(|v| !mentions(&text, v.trim_start_matches("r#"))) {
            Some(v) => format!("{{ {{ let {v} = 1; let _ = {v}; {text} }} }}"),
            None => format!("{{ {text} }}"),
        }
    } else {
        format!("{{ {} }}", inner.call())
    };
    let mut def = format!("macro_rules! {name} {{ ({}) => {body} }}\n", pat.join(", "));
    let mut name = name.to_string();
    for l in 1..levels {
        let outer = format!("{}_{}", name, l);
        let fw: Vec<String> = (0..params.len()).map(|i| format!("$p{}", i)).collect();
        // a fragment can only be forwarded to the same or a more general specifier
        def += &format!("macro_rules! {outer} {{ ({}) => {{ {name}!({}) }} }}\n", pat.join(", "), fw.join(", "));
        name = outer;
    }
    let vals: Vec<String> = params.iter().map(|p| p.1.clone()).collect();
    (def, format!("{name}!({})", vals.join(", ")))
}

const DECOY: &str = "let _ = ::sscanf::sscanf!(\"5 x\", \"{u8} {}\", char);";

/// an expression of type `rt` around the call; `input` is the name of the input
fn place(s: &mut Src, call: &str, rt: &str, input: &str) -> (String, &'static str) {
    let f = |t: String, n: &'static str| (t, n);
    match s.idx(22) {
        0 => f(call.to_string(), "plain"),
        1 => f(format!("(|| {call})()"), "closure"),
        2 => f(format!("match {call} {{ v => v }}"), "match"),
        3 => f(format!("if true {{ {call} }} else {{ ::std::unreachable!() }}"), "if"),
        4 => f(format!("loop {{ break {call}; }}"), "loop"),
        5 => f(format!("::vrt::async_block!({call})"), "async block"),
        6 => f(format!("{{ fn g<I: ::std::convert::AsRef<str> + ?Sized>({input}: &I) -> {rt} {{ let {input}: &str = {input}.as_ref(); {call} }} g({input}) }}"), "generic function"),
        7 => f(
            format!("{{ struct W<'w>(&'w str); impl<'w> W<'w> {{ fn go({input}: &'w str) -> {rt} {{ let w = W({input}); let {input} = w.0; {call} }} }} W::go({input}) }}"),
            "method",
        ),
        8 => f(
            format!("{{ trait Tx {{ fn text_(&self) -> &str; fn go_(&self) -> {rt} {{ let {input} = self.text_(); {call} }} }} impl Tx for str {{ fn text_(&self) -> &str {{ self }} }} {input}.go_() }}"),
            "trait method",
        ),
        9 => f(format!("::std::vec![{call}].into_iter().last().unwrap()"), "vec!"),
        10 => f(format!("{{ {DECOY} let r = {call}; {DECOY} r }}"), "between other calls"),
        11 => f(format!("(|| -> {rt} {{ let v = {call}?; ::std::result::Result::Ok(v) }})()"), "? operator"),
        12 => f(format!("match 1 {{ _ if {call}.is_ok() => {call}, _ => {call} }}"), "match guard"),
        13 => f(format!("[{input}].iter().map(|{input}| {call}).last().unwrap()"), "iterator adapter"),
        14 => f(format!("if let r = {call} {{ r }} else {{ ::std::unreachable!() }}"), "if let"),
        15 => f(format!("{{ const F: fn(&str) -> {rt} = |{input}| {call}; F({input}) }}"), "const function pointer"),
        16 => f(format!("'outer: loop {{ while true {{ break 'outer {call}; }} }}"), "labelled break"),
        17 => f(format!("::std::convert::identity({call})"), "argument"),
        18 => f(format!("(0, {call}, [0]).1"), "tuple"),
        19 => f(format!("{call}.map(|v| v).or_else(|e| ::std::result::Result::Err(e))"), "method chain"),
        20 => f(format!("{{ fn g({input}: &str) -> {rt} {{ return {call}; }} g({input}) }}"), "return"),
        _ => f(format!("{{ let f = move || {call}; f() }}"), "moved closure"),
    }
}

pub fn c24(s: &mut Src) -> Case {
    let mut tags: Vec<String> = vec![];
    let mut ctx = Ctx::new();
    ctx.pre = "Zq";
    let depth = s.weighted(&[5, 2]);
    let ucfg = Ucfg { depth, max_fields: 5, max_variants: 5, ..Ucfg::default() };
    let with_user = s.chance(2, 3);
    let base: Option<Rc<User>> = if with_user { Some(if s.chance(1, 2) { gen_struct(s, &ucfg, &mut ctx) } else { gen_enum(s, &ucfg, &mut ctx) }) } else { None };
    let (mut c, users) = user_call(s, &FmtCfg { min: if with_user { 1 } else { 0 }, max: 3, opts: 4, sep: 8, big_lits: false }, &mut |s, i| match &base {
        Some(u) if i == 0 || s.chance(1, 3) => Ty::User(u.clone()),
        _ => Ty::Sc(gen_sc(s, true)),
    });
    let mut all = vec![];
    collect_users(&users, &mut all);

    // declarations, possibly made by a macro
    let wrap_items = !all.is_empty() && s.chance(1, 3);
    let mut items = if wrap_items {
        let seed = s.bits();
        FRAGS.with(|f| *f.borrow_mut() = Some(Frags { seed, params: vec![] }));
        let t = items_of(&users);
        let params = FRAGS.with(|f| f.borrow_mut().take().unwrap().params);
        let pat: Vec<String> = params.iter().enumerate().map(|(i, (k, _))| format!("$p{}:{}", i, k)).collect();
        let vals: Vec<&str> = params.iter().map(|p| p.1.as_str()).collect();
        tags.push("declared by a macro".into());
        match s.weighted(&[8, 1, 1]) {
            0 => format!("macro_rules! mk {{ ({}) => {{\n{t}}} }}\nmk! {{ {} }}\n", pat.join(", "), vals.join(", ")),
            k => {
                let t = items_of(&users);
                let pat = if k == 1 { "$($t:tt)*" } else { "$($t:item)*" };
                format!("macro_rules! mk {{ ({pat}) => {{ $($t)* }} }}\nmk! {{\n{t}}}\n")
            }
        }
    } else {
        items_of(&users)
    };
    let mut extra = String::new();
    for u in &all {
        match s.weighted(&[5, 1, 1]) {
            0 => {}
            k => {
                if let Some(t) = if k == 1 { inherent(u) } else { rival(u) } {
                    extra.push_str(&t);
                    tags.push("rival associated items".into());
                }
            }
        }
    }

    // the call
    let mut rename: Vec<(String, String)> = vec![];
    let rt0 = format!("::std::result::Result<{}, ::sscanf::Error>", c.result_ty());
    let probe = format!("{items}{extra}{}{}{rt0}", c.args_src(), c.fmt.text());
    // a conversion that measures the Debug text of a value depends on the names
    let measured = probe.contains("format!(\"{:?}\", x).len()");
    for u in &all {
        if s.chance(1, 4) && !measured {
            let n = *s.pick(TYPE_NAMES);
            let hidden = matches!(&u.kind, Kind::Opaque { .. });
            if !hidden && words(&probe, n, false).is_empty() && !rename.iter().any(|r| r.1 == n) {
                rename.push((u.name.clone(), n.to_string()));
                tags.push("renamed types".into());
            }
        }
    }
    let sub = |t: &str| rename.iter().fold(t.to_string(), |t, (a, b)| replace_word(&t, a, b));
    for p in &mut c.fmt.parts {
        if let Part::Ph(p) = p {
            p.ident = sub(&p.ident);
        }
    }
    items = sub(&items);
    extra = sub(&extra);
    let rt = sub(&rt0);
    let lit = str_lit(s, &c.fmt.text());
    let mut input = s.pick(LOCALS).to_string();
    if s.chance(1, 2) {
        input = "input".into();
    } else {
        tags.push("name of the input".into());
    }
    let mut pieces = Pieces { mac: "sscanf", input: input.clone(), lit, args: c.args.iter().map(|a| sub(a)).collect() };
    match s.weighted(&[8, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => pieces.input = format!("&{input}[..]"),
        2 => pieces.input = format!("{{ let a = {input}; a }}"),
        3 => pieces.input = format!("if {input}.is_empty() {{ \"\" }} else {{ {input} }}"),
        4 => pieces.input = format!("::sscanf::sscanf!({input}, r\"{{:/[\\s\\S]*/}}\", str).unwrap()"),
        _ => pieces.input = format!("{{ {DECOY} {input} }}"),
    }
    let mut defs = String::new();
    let mut call = pieces.call();
    if s.chance(1, 2) {
        let l = s.range(1, 3);
        let (d, k) = through_macro(s, &pieces, "mx", l);
        // the input may only be named by the caller of the macro
        defs = d;
        call = k;
        tags.push("called by a macro".into());
    }
    let (expr, pos) = place(s, &call, &rt, &input);
    if pos != "plain" {
        tags.push("position of the call".into());

    }
    // names bound by the place where the macro is defined
    let sh = sub(&show(c.fmt.phs().count(), "{:?}"));
    let mut body = if input == "input" { String::new() } else { format!("let {input} = input;\n") };
    let local_items = s.chance(1, 8) && !items.is_empty();
    // macros see the variables of where they are defined
    let expr = if defs.is_empty() { expr } else { place_defs(&expr, &call, &defs) };
    body.push_str(&format!("let r: {rt} = {expr};\n::vrt::fin(r, {sh})"));
    let whole = format!("{items}{extra}{body}");
    let mut pollution = String::new();
    let mut used: Vec<&str> = vec!["input", "run", "mx", "mk", "g", "Tx", "W"];
    used.extend(rename.iter().map(|r| r.1.as_str()));
    if s.chance(1, 2) {
        for _ in 0..s.range(1, 5) {
            let (names, text) = s.pick(ITEMS);
            let clash = names.iter().any(|n| used.contains(n) || (!PRIMS.contains(n) && !words(&whole, n, false).is_empty()));
            if !clash {
                used.extend(names.iter());
                pollution.push_str(text);
                pollution.push('\n');
                tags.push("rival names".into());
            }
        }
    }
    let noisy = all.iter().any(|u| u.noise != 0);
    let (items, body) = if local_items {
        tags.push("declared in the function".into());
        (format!("{pollution}"), format!("{items}{extra}{body}"))
    } else if s.chance(1, 8) && !noisy && !items.is_empty() {
        tags.push("declared in another module".into());
        // the modules of all cases import a few spellings (Cow)
        let named: String = rename.iter().filter(|r| r.1 == "Cow").map(|r| format!("use self::deep::{};\n", r.1)).collect();
        (format!("pub mod deep {{\n{items}{extra}}}\nuse self::deep::*;\n{named}{pollution}"), body)
    } else {
        (format!("{pollution}{items}{extra}"), body)
    };
    tags.sort();
    tags.dedup();
    let desc = format!("{items}{body}");
    let class = if tags.is_empty() { "plain".into() } else { tags.join(", ") };
    let fmt = Rc::new(c.fmt);
    let f2 = fmt.clone();
    let judge = move |input: &str, actual: &str| {
        let out = f2.eval(input);
        let exp = rename.iter().fold(out.line(), |t, (a, b)| replace_word(&t, a, b));
        Verdict::cmp(out.label(), !input.is_empty() && out != Out::NoMatch, &exp, brief(actual))
    };
    let f3 = fmt.clone();
    let inp = move |s: &mut Src| gen_input(s, &[9, 3, 0, 1], &f3.alpha, &|s| f3.sample(s));
    let oracle = Box::new(FnOracle { inp: Box::new(inp), fixed: vec![String::new()], judge: Box::new(judge), mode: (0, 1) });
    Case { items, body, oracle, desc, class }
}

/// puts the macro definitions next to the call
fn place_defs(expr: &str, call: &str, defs: &str) -> String {
    expr.replace(call, &format!("{{ {defs} {call} }}"))
}

//! Generated user types: derived structs and enums, manual impls, FromStr types. Each carries its
//! Rust source and a reference parser.
use crate::fmt::*;
use crate::rx::{self, Rx, RxCfg};
use crate::src::Src;
use crate::types::*;
use regex::Regex;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    Named,
    Tuple,
    Unit,
}

#[derive(Clone)]
pub struct Conv {
    /// attribute text without #[sscanf( )]
    pub attr: String,
    /// the type that is matched
    pub from: Ty,
    pub apply: Rc<dyn Fn(&Val) -> Result<Val, String>>,
    /// id that the generated closure records when it runs
    pub tick: Option<u32>,
}

thread_local! {
    /// ids of the counted conversions the reference evaluation applied
    pub static TRACE: RefCell<Vec<u32>> = const { RefCell::new(vec![]) };
}

#[derive(Clone)]
pub enum FAttr {
    None,
    /// attribute text, Debug text of the value
    Default(String, String),
    Conv(Conv),
}

#[derive(Clone)]
pub struct Field {
    pub name: String,
    pub decl: String,
    pub attr: FAttr,
}

pub enum Source {
    /// attribute text; format; field index of each placeholder
    Fmt(String, Fmt, Vec<usize>),
    /// no attribute, texts accepted via autogen (text, any ASCII case)
    Auto(String, bool),
    None,
    Skip,
}

pub struct Variant {
    pub name: String,
    pub style: Style,
    pub fields: Vec<Field>,
    pub source: Source,
}

pub enum Kind {
    Struct(Variant),
    Enum(Vec<Variant>, Option<String>),
    Opaque {
        items: String,
        regex: String,
        re: Regex,
        parse: Rc<dyn Fn(&str) -> Result<Val, EInfo>>,
        sample: Rc<dyn Fn(&mut Src) -> String>,
    },
}

pub struct User {
    pub name: String,
    /// has a lifetime parameter
    pub lt: bool,
    /// generics in the declaration, e.g. "<'a, T: Default>" and where clause
    pub generics: (String, String),
    /// generic arguments where the type is used (without lifetime)
    pub args: String,
    pub kind: Kind,
    /// user types it mentions
    pub deps: Vec<Rc<User>>,
    pub derives: &'static str,
    /// gets FromScanf from FromStr
    pub fromstr: bool,
    /// seed of unrelated attributes, comments and visibilities in the declaration (0: none)
    pub noise: u64,
}

struct Noise(u64);

impl Noise {
    fn next(&mut self, n: u64) -> u64 {
        if self.0 == 0 {
            return 0;
        }
        self.0 = crate::src::mix(self.0, 77) | 1;
        (self.0 >> 20) % n
    }
    fn pick<'a>(&mut self, v: &[&'a str]) -> &'a str {
        v[self.next(v.len() as u64) as usize]
    }
    /// the sscanf attribute `a` with unrelated attributes around it
    fn around(&mut self, a: &str, extra: &'static str) -> String {
        let v: &[&str] = &["", "", "", "/// documented {a} \"text\"\n", "#[allow(dead_code)] ", "#[doc = \"sscanf(skip)\"] ", "#[cfg(all())] ", "/** block {} */ ", extra];
        let before = self.pick(v);
        let after = if a.is_empty() { "" } else { self.pick(v) };
        let a = match a.strip_suffix(")] ").or_else(|| a.strip_suffix(")]\n")) {
            Some(x) if !x.contains('@') && self.next(6) == 5 => format!("{},)] ", x),
            Some(x) if !x.contains('@') && self.next(8) == 7 => format!("#[sscanf()] {})] #[sscanf()] ", x),
            _ => a.to_string(),
        };
        format!("{}{}{}", before, a, after)
    }
}

/// parts of a declaration that a wrapping macro passes as fragments
pub struct Frags {
    pub seed: u64,
    /// (fragment specifier, tokens)
    pub params: Vec<(&'static str, String)>,
}

thread_local! {
    pub static FRAGS: RefCell<Option<Frags>> = const { RefCell::new(None) };
}

/// `text`, or the fragment `$pN` that stands for it
fn frag(kinds: &[&'static str], text: &str) -> String {
    FRAGS.with(|f| {
        let mut f = f.borrow_mut();
        let Some(f) = f.as_mut() else { return text.to_string() };
        f.seed = crate::src::mix(f.seed, 91);
        // lifetimes are subject to hygiene: they have to come from where they are declared
        if text.is_empty() || text.contains("'a") || text.contains("'b") || (f.seed >> 13) % 3 == 0 {
            return text.to_string();
        }
        let single = text.chars().all(|c| c.is_alphanumeric() || c == '_') || (text.starts_with('"') && !text.contains('\\') && text.matches('"').count() == 2);
        let kinds: Vec<&'static str> = kinds.iter().copied().filter(|k| *k != "tt" || single).collect();
        f.params.push((kinds[(f.seed >> 33) as usize % kinds.len()], text.to_string()));
        format!("$p{}", f.params.len() - 1)
    })
}

/// the same for the value of an attribute `name = value`
fn frag_attr(a: &str) -> String {
    match a.split_once(" = ") {
        Some((n, v)) if matches!(n, "format" | "format_unescaped") => format!("{} = {}", n, frag(&["literal", "expr", "tt"], v)),
        Some((n, v)) if matches!(n, "default" | "map" | "filter_map") => format!("{} = {}", n, frag(&["expr"], v)),
        Some((n, v)) if matches!(n, "from" | "try_from") => format!("{} = {}", n, frag(&["ty", "tt"], v)),
        None if a.starts_with('"') => frag(&["literal", "expr", "tt"], a),
        _ => a.to_string(),
    }
}

/// the letters of the generated names that have exactly one other case (ASCII, Latin-1, omega)
pub fn low(c: char) -> char {
    match c {
        'À'..='Ö' | 'Ø'..='Þ' | 'Ω' => c.to_lowercase().next().unwrap(),
        _ => c.to_ascii_lowercase(),
    }
}
pub fn up(c: char) -> char {
    match c {
        'à'..='ö' | 'ø'..='þ' | 'ω' => c.to_uppercase().next().unwrap(),
        _ => c.to_ascii_uppercase(),
    }
}
/// whether the case of the text is simple
pub fn cased(t: &str) -> bool {
    t.chars().all(|c| c.is_ascii() || low(c) != up(c) || "ß日本語".contains(c))
}

impl Variant {
    fn eval(&self, t: &str) -> Option<Result<Vec<Val>, EInfo>> {
        match &self.source {
            Source::Fmt(_, fmt, map) => {
                let texts = fmt.run(t)?;
                let mut vals: Vec<Option<Val>> = vec![None; self.fields.len()];
                for ((ph, text), &fi) in fmt.phs().zip(texts).zip(map) {
                    let v = match ph.parse(text) {
                        Ok(v) => v,
                        Err(e) => return Some(Err(e)),
                    };
                    let v = match &self.fields[fi].attr {
                        FAttr::Conv(c) => match {
                            if let Some(t) = c.tick {
                                TRACE.with(|x| x.borrow_mut().push(t));
                            }
                            (c.apply)(&v)
                        } {
                            Ok(v) => v,
                            Err(e) => {
                                let leaf = if e == "\u{0}none" { format!("\u{0}none:{}", self.fields[fi].name) } else { e };
                                return Some(Err(EInfo { wrap: vec![], leaf }));
                            }
                        },
                        _ => v,
                    };
                    vals[fi] = Some(v);
                }
                for (f, v) in self.fields.iter().zip(vals.iter_mut()) {
                    if let FAttr::Default(_, d) = &f.attr {
                        *v = Some(Val::D(d.clone()));
                    }
                }
                Some(Ok(vals.into_iter().map(|v| v.expect("field without source")).collect()))
            }
            Source::Auto(text, ci) => {
                let hit = if *ci { t.chars().map(low).eq(text.chars().map(low)) } else { t == text };
                hit.then(|| Ok(vec![]))
            }
            _ => None,
        }
    }
    fn regex(&self) -> Option<String> {
        match &self.source {
            Source::Fmt(_, f, _) => Some(f.regex()),
            Source::Auto(t, false) => Some(lit_regex(t)),
            Source::Auto(t, true) => Some(
                t.chars()
                    .map(|c| {
                        if low(c) != up(c) {
                            format!("[{}{}]", low(c), up(c))
                        } else {
                            lit_regex(&c.to_string())
                        }
                    })
                    .collect(),
            ),
            _ => None,
        }
    }
    pub fn usable(&self) -> bool {
        !matches!(self.source, Source::None | Source::Skip)
    }
    fn show(&self, vals: &[Val]) -> String {
        let name = self.name.trim_start_matches("r#");
        if vals.is_empty() {
            return name.to_string();
        }
        match self.style {
            Style::Named => format!(
                "{} {{ {} }}",
                name,
                self.fields.iter().zip(vals).map(|(f, v)| format!("{}: {}", f.name.trim_start_matches("r#"), v.dbg())).collect::<Vec<_>>().join(", ")
            ),
            _ => format!("{}({})", name, vals.iter().map(|v| v.dbg()).collect::<Vec<_>>().join(", ")),
        }
    }
    fn sample(&self, s: &mut Src, alpha: &[char]) -> String {
        match &self.source {
            Source::Fmt(_, f, _) => f.sample_with(s, alpha),
            Source::Auto(t, ci) => {
                if *ci || s.chance(1, 6) {
                    t.chars().map(|c| if s.chance(1, 2) { up(c) } else { low(c) }).collect()
                } else {
                    t.clone()
                }
            }
            _ => self.name.clone(),
        }
    }
    fn body(&self, is_struct: bool, nz: &mut Noise) -> String {
        let fs: Vec<String> = self
            .fields
            .iter()
            .map(|f| {
                let a = match &f.attr {
                    FAttr::None => String::new(),
                    FAttr::Default(a, _) => format!("#[sscanf({})] ", frag_attr(a)),
                    FAttr::Conv(c) => format!("#[sscanf({})] ", frag_attr(&c.attr)),
                };
                let vis = if is_struct { nz.pick(&["pub ", "", "pub(crate) ", "pub(super) "]) } else { "" };
                let a = nz.around(&a, "#[rustfmt::skip] ");
                let decl = frag(&["ty", "tt"], &f.decl);
                if self.style == Style::Named {
                    format!("{}{}{}: {}", a, vis, frag(&["ident", "tt"], &f.name), decl)
                } else {
                    format!("{}{}{}", a, vis, decl)
                }
            })
            .collect();
        match self.style {
            Style::Named => format!("{{ {} }}", fs.join(", ")),
            Style::Tuple => format!("({})", fs.join(", ")),
            Style::Unit => String::new(),
        }
    }
    fn attr(&self) -> String {
        match &self.source {
            Source::Fmt(a, ..) => format!("#[sscanf({})]\n", frag_attr(a)),
            Source::Skip => "#[sscanf(skip)]\n".into(),
            _ => String::new(),
        }
    }
}

impl User {
    pub fn rust(&self, lt: &str) -> String {
        let lt = lt.trim();
        match (self.lt && !lt.is_empty(), self.args.is_empty()) {
            (true, true) => format!("{}<{}>", self.name, lt),
            (true, false) => format!("{}<{}, {}>", self.name, lt, self.args),
            (false, true) => self.name.clone(),
            (false, false) => format!("{}<{}>", self.name, self.args),
        }
    }
    pub fn regex(&self) -> String {
        match &self.kind {
            Kind::Struct(v) => v.regex().unwrap(),
            // a capture group per variant: the regex crate factors a common lazy prefix out of a plain
            // alternation, which changes the order of preference
            Kind::Enum(vs, _) => vs.iter().filter_map(|v| v.regex()).map(|r| format!("({})", r)).collect::<Vec<_>>().join("|"),
            Kind::Opaque { regex, .. } => regex.clone(),
        }
    }
    /// reference parse of exactly the text `t`, which the type's pattern matched
    pub fn parse(&self, t: &str) -> Result<Val, EInfo> {
        if let Kind::Opaque { parse, .. } = &self.kind {
            return parse(t); // a custom regex may have replaced the type's own
        }
        self.try_parse(t).unwrap_or_else(|| panic!("reference: {:?} does not match {}", t, self.name))
    }
    /// None: the text does not match the type's pattern
    pub fn try_parse(&self, t: &str) -> Option<Result<Val, EInfo>> {
        let wrap = |mut e: EInfo| {
            e.wrap.insert(0, self.name.clone());
            e
        };
        match &self.kind {
            Kind::Struct(v) => Some(v.eval(t)?.map(|vals| Val::D(v.show(&vals))).map_err(wrap)),
            Kind::Enum(vs, _) => {
                for v in vs {
                    if let Some(r) = v.eval(t) {
                        return Some(r.map(|vals| Val::D(v.show(&vals))).map_err(wrap));
                    }
                }
                None
            }
            Kind::Opaque { parse, re, .. } => re.is_match(t).then(|| parse(t)),
        }
    }
    /// index of the variant a text selects
    pub fn variant_of(&self, t: &str) -> Option<usize> {
        match &self.kind {
            Kind::Enum(vs, _) => vs.iter().position(|v| v.eval(t).is_some()),
            _ => None,
        }
    }
    pub fn sample(&self, s: &mut Src, alpha: &[char]) -> String {
        match &self.kind {
            Kind::Struct(v) => v.sample(s, alpha),
            Kind::Enum(vs, _) => {
                let use_all = s.chance(1, 10);
                let c: Vec<&Variant> = vs.iter().filter(|v| use_all || v.usable()).collect();
                let v = c[s.idx(c.len())];
                v.sample(s, alpha)
            }
            Kind::Opaque { sample, .. } => sample(s),
        }
    }
    fn own_items(&self) -> String {
        let mut nz = Noise(self.noise);
        let ty = |nz: &mut Noise, a: &str| {
            let d = format!("#[derive({})]\n", self.derives);
            let a = nz.around(a, "#[must_use] ");
            // helper attributes may also stand in front of the derive attribute, with a future
            // incompatibility warning; keep to the usual order
            (d, a)
        };
        match &self.kind {
            Kind::Opaque { items, .. } => items.clone(),
            Kind::Struct(v) => {
                let semi = if v.style == Style::Named { "" } else { ";" };
                let (d, a) = ty(&mut nz, &v.attr());
                let vis = nz.pick(&["pub ", "pub ", "pub(crate) ", ""]);
                let (body, wh) = (v.body(true, &mut nz), &self.generics.1);
                let name = frag(&["ident", "tt"], &self.name);
                if v.style == Style::Named {
                    format!("{}{}{}struct {}{} {} {}\n", d, a, vis, name, self.generics.0, wh, body)
                } else {
                    format!("{}{}{}struct {}{}{} {}{}\n", d, a, vis, name, self.generics.0, body, wh, semi)
                }
            }
            Kind::Enum(vs, ag) => {
                let a = ag.as_ref().map(|a| format!("#[sscanf({})]\n", a)).unwrap_or_default();
                let (d, a) = ty(&mut nz, &a);
                let vis = nz.pick(&["pub ", "pub ", "pub(crate) ", ""]);
                let body: String = vs
                    .iter()
                    .map(|v| {
                        let a = nz.around(&v.attr(), "#[rustfmt::skip] ");
                        format!("{}{}{},\n", a, frag(&["ident", "tt"], &v.name), v.body(false, &mut nz))
                    })
                    .collect();
                format!("{}{}{}enum {}{} {} {{\n{}}}\n", d, a, vis, self.name, self.generics.0, self.generics.1, body)
            }
        }
    }
    pub fn items(self: &Rc<Self>) -> String {
        let mut seen = vec![];
        let mut out = String::new();
        collect(self, &mut seen, &mut out);
        out
    }
    pub fn depth(&self) -> usize {
        1 + self.deps.iter().map(|d| d.depth()).max().unwrap_or(0)
    }
}

pub fn items_of(users: &[Rc<User>]) -> String {
    let mut seen = vec![];
    let mut out = String::new();
    for u in users {
        collect(u, &mut seen, &mut out);
    }
    out
}

fn collect(u: &Rc<User>, seen: &mut Vec<String>, out: &mut String) {
    if seen.contains(&u.name) {
        return;
    }
    seen.push(u.name.clone());
    for d in &u.deps {
        collect(d, seen, out);
    }
    for n in ["NUM_CAPTURES", "LAZY", "COUNT"] {
        if u.args.split(", ").any(|a| a == n) && !seen.iter().any(|x| x == n) {
            seen.push(n.into());
            out.push_str(&format!("pub const {n}: usize = 3;\n"));
        }
    }
    out.push_str(&u.own_items());
}

// ---------------------------------------------------------------------------------------------
// generators

pub struct Ucfg {
    /// depth of nested user types still allowed
    pub depth: usize,
    pub max_fields: usize,
    pub max_variants: usize,
    pub attrs: bool,
    pub opts: bool,
    /// literal text between placeholders may be missing
    pub tight: bool,
    /// out of 6: text is a regex
    pub unescaped: u64,
    pub lifetimes: bool,
    /// literals and types whose texts overlap
    pub overlap: bool,
    /// map closures record that they ran (the items need `tick`)
    pub ticks: bool,
    /// prefer fields that can get a type parameter as their type
    pub generic: bool,
}

impl Default for Ucfg {
    fn default() -> Self {
        Ucfg { depth: 0, max_fields: 8, max_variants: 6, attrs: true, opts: true, tight: true, unescaped: 1, lifetimes: true, overlap: false, ticks: false, generic: false }
    }
}

/// names and shared sub-types of one case
pub struct Ctx {
    /// prefix of the names
    pub pre: &'static str,
    pub n: usize,
    pub pool: Vec<Rc<User>>,
}

impl Ctx {
    pub fn new() -> Ctx {
        Ctx { pre: "", n: 0, pool: vec![] }
    }
    pub fn name(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{}{}{}", self.pre, p, self.n)
    }
}

const FIELD_NAMES: &[&str] = &[
    "a", "b", "c", "aa", "ab", "a1", "value", "src", "input", "len", "_x", "n", "start_len", "größe", "remaining", "expected", "res", "f", "name", "x_y",
    "catcher", "matcher", "cap", "self_", "T", "R2", "foo_bar_baz", "i", "u8_", "str_",
];

const LITS: &[&str] = &[
    ",", " ", "-", ":", ", ", "x", "(", ")", "->", "=", "; ", "a", "1", "0", ".", "..", "+", "|", "[", "]", "{", "}", "{}", "\\", "/", "\"", "'", "é", "日本", "\n", "\t", "$", "^", "#", "&", "~", "*",
    "?", "0x", "e", "E", "true", "inf", "A", " and ", "\u{301}", "😀", "%", "@", "!", "<", ">", "_", "`", "\\d", ".*", "(?:", "{{", "r", "//", "\u{0}", "ſ", "K",
];

pub fn gen_lit(s: &mut Src) -> String {
    let n = match s.weighted(&[6, 3, 1]) {
        0 => 1,
        1 => 2,
        _ => s.range(3, 8),
    };
    (0..n).map(|_| *s.pick(LITS)).collect()
}

pub fn gen_sc(s: &mut Src, borrow_ok: bool) -> Sc {
    let sc = match s.weighted(&[6, 5, 2, 2, 3, 2, 2, 3, 3, 2, 1]) {
        0 => Sc::U(*s.pick(&INT_WIDTHS)),
        1 => Sc::I(*s.pick(&INT_WIDTHS)),
        2 => Sc::NzU(*s.pick(&INT_WIDTHS)),
        3 => Sc::NzI(*s.pick(&INT_WIDTHS)),
        4 => *s.pick(&[Sc::F64, Sc::F32]),
        5 => Sc::Bool,
        6 => Sc::Char,
        7 => Sc::String,
        8 => Sc::Str,
        9 => Sc::Cow,
        _ => Sc::Path,
    };
    if sc.borrows() && !borrow_ok {
        Sc::String
    } else {
        sc
    }
}

/// an option for a placeholder of that type
pub fn gen_opt(s: &mut Src, ty: &Ty) -> Opt {
    gen_opt_look(s, ty, true)
}

fn gen_opt_look(s: &mut Src, ty: &Ty, look: bool) -> Opt {
    match ty {
        Ty::Sc(sc) if sc.is_plain_int() => match s.weighted(&[6, 4, 1]) {
            0 => Opt::None,
            1 => Opt::Radix(Radix::gen(s)),
            _ => Opt::Re(int_rx(s)),
        },
        Ty::Sc(sc) if sc.is_text() => match s.weighted(&[6, 3]) {
            0 => Opt::None,
            _ => Opt::Re(rx::gen_opt(s, look)),
        },
        Ty::Sc(_) => match s.weighted(&[8, 1]) {
            0 => Opt::None,
            _ => Opt::Re(rx::gen_opt(s, look)),
        },
        Ty::User(u) if u.fromstr => match s.weighted(&[2, 1]) {
            0 => Opt::None,
            _ => Opt::Re(rx::gen_opt(s, look)),
        },
        _ => Opt::None,
    }
}

/// digit-like regexes, so that the conversion usually succeeds
pub fn int_rx(s: &mut Src) -> Rx {
    let d = || Rx::Class(r"\d".into(), "0123456789".chars().collect());
    match s.idx(5) {
        0 => Rx::Rep(Box::new(d()), 1, None, false, 0),
        1 => {
            let n = s.range(1, 4);
            Rx::Rep(Box::new(d()), n, Some(n), false, 1)
        }
        2 => Rx::Rep(Box::new(Rx::Class("[0-9-]".into(), "0129-".chars().collect())), 1, Some(s.range(2, 5)), false, 1),
        3 => Rx::Alt(vec![Rx::Lit('7'), Rx::Cat(vec![Rx::Lit('1'), d()]), Rx::Lit('x')]),
        _ => Rx::Rep(Box::new(Rx::Group(Box::new(Rx::Alt(vec![d(), Rx::Lit('-')])), false)), 1, Some(3), true, 1),
    }
}

/// a conversion for a field: declared type, attribute
fn gen_conv(s: &mut Src, inner: Option<Ty>, lt: &str) -> (String, Conv) {
    use Sc::*;
    let sc = |x: Sc| Ty::Sc(x);
    macro_rules! conv {
        ($decl:expr, $attr:expr, $from:expr, $f:expr) => {
            ($decl.to_string(), Conv { attr: $attr.to_string(), from: $from, apply: Rc::new($f), tick: None })
        };
    }
    fn u(v: &Val) -> u128 {
        match v {
            Val::U(x) => *x,
            _ => panic!(),
        }
    }
    fn i(v: &Val) -> i128 {
        match v {
            Val::I(x) => *x,
            _ => panic!(),
        }
    }
    fn st(v: &Val) -> &str {
        match v {
            Val::S(x) => x,
            _ => panic!(),
        }
    }
    // generic wrappers around any type
    if let Some(t) = inner {
        let r = t.rust(lt);
        // a `from` attribute accepts `&str` only without a lifetime: not for borrowing fields
        let k = s.idx(8);
        return match if r.starts_with('&') && (k == 1 || k == 6) { 0 } else { k } {
            0 => conv!(format!("Vec<{}>", r), format!("map = |x: {}| vec![x]", r), t, |v: &Val| Ok(Val::D(format!("[{}]", v.dbg())))),
            1 => conv!(format!("Option<{}>", r), format!("from = {}", r), t, |v: &Val| Ok(Val::D(format!("Some({})", v.dbg())))),
            2 => conv!(format!("({}, u8)", r), format!("map = |x: {}| (x, 1u8)", r), t, |v: &Val| Ok(Val::D(format!("({}, 1)", v.dbg())))),
            3 => conv!(r.clone(), format!("filter_map = |x: {}| Some(x)", r), t, |v: &Val| Ok(v.clone())),
            4 => conv!(format!("Option<{}>", r), format!("filter_map = |x: {}| Some(Some(x))", r), t, |v: &Val| Ok(Val::D(format!("Some({})", v.dbg())))),
            5 => conv!(r.clone(), format!("filter_map = |_: {}| None", r), t, |_: &Val| Err("\u{0}none".into())),
            6 => conv!(format!("Box<{}>", r), format!("from = {}", r), t, |v: &Val| Ok(v.clone())),
            _ => conv!("usize", format!("map = |x: {}| format!(\"{{:?}}\", x).len()", t.rust("")), t, |v: &Val| Ok(Val::U(v.dbg().len() as u128))),
        };
    }
    match s.idx(28) {
        0 => conv!("u32", "map = |x: u8| x as u32 + 1", sc(U(8)), |v: &Val| Ok(Val::U(u(v) + 1))),
        1 => conv!("usize", "map = |x: &str| x.len()", sc(Str), |v: &Val| Ok(Val::U(st(v).len() as u128))),
        2 => conv!("String", "map = |x: String| {\n    let mut t = x; t.push('!'); t }", sc(String), |v: &Val| Ok(Val::S(format!("{}!", st(v))))),
        3 => conv!("bool", "map = |x: bool| !x", sc(Bool), |v: &Val| Ok(Val::B(matches!(v, Val::B(false))))),
        4 => conv!("u32", "map = |x: char| x as u32", sc(Char), |v: &Val| match v {
            Val::C(c) => Ok(Val::U(*c as u128)),
            _ => panic!(),
        }),
        5 => conv!("i64", "map = |x: i32| (x as i64) * 2", sc(I(32)), |v: &Val| Ok(Val::I(i(v) * 2))),
        6 => conv!("u8", "filter_map = |x: u8| if x > 99 { None } else { Some(x) }", sc(U(8)), |v: &Val| if u(v) > 99 {
            Err("\u{0}none".into())
        } else {
            Ok(v.clone())
        }),
        7 => conv!("u64", "filter_map = |x: u64| x.checked_sub(10)", sc(U(64)), |v: &Val| u(v).checked_sub(10).map(Val::U).ok_or("\u{0}none".into())),
        8 => conv!("String", "filter_map = |x: String| if x.len() % 2 == 0 { Some(x) } else { None }", sc(String), |v: &Val| if st(v).len() % 2 == 0 {
            Ok(v.clone())
        } else {
            Err("\u{0}none".into())
        }),
        9 => conv!("usize", "filter_map = |x: &str| x.find('a')", sc(Str), |v: &Val| st(v).find('a').map(|x| Val::U(x as u128)).ok_or("\u{0}none".into())),
        10 => conv!("u32", "from = u8", sc(U(8)), |v: &Val| Ok(v.clone())),
        11 => conv!("u128", "from = u64", sc(U(64)), |v: &Val| Ok(v.clone())),
        12 => conv!("i64", "from = u32", sc(U(32)), |v: &Val| Ok(Val::I(u(v) as i128))),
        13 => conv!("u32", "from = char", sc(Char), |v: &Val| match v {
            Val::C(c) => Ok(Val::U(*c as u128)),
            _ => panic!(),
        }),
        14 => conv!("i32", "from = bool", sc(Bool), |v: &Val| Ok(Val::I(matches!(v, Val::B(true)) as i128))),
        15 => conv!("f64", "from = f32", sc(F32), |v: &Val| match v {
            Val::F32(x) => Ok(Val::F64(*x as f64)),
            _ => panic!(),
        }),
        16 => conv!("Box<str>", "from = String", sc(String), |v: &Val| Ok(v.clone())),
        17 => conv!("::std::path::PathBuf", "from = String", sc(String), |v: &Val| Ok(Val::D(format!("{:?}", std::path::PathBuf::from(st(v)))))),
        18 => conv!("u8", "try_from = i32", sc(I(32)), |v: &Val| u8::try_from(i(v)).map(|x| Val::U(x as u128)).map_err(|e| e.to_string())),
        19 => conv!("u16", "try_from = u64", sc(U(64)), |v: &Val| u16::try_from(u(v)).map(|x| Val::U(x as u128)).map_err(|e| e.to_string())),
        20 => conv!("i8", "try_from = i64", sc(I(64)), |v: &Val| i8::try_from(i(v)).map(|x| Val::I(x as i128)).map_err(|e| e.to_string())),
        21 => conv!("char", "try_from = u32", sc(U(32)), |v: &Val| match char::try_from(u(v) as u32) {
            Ok(c) => Ok(Val::C(c)),
            Err(e) => Err(e.to_string()),
        }),
        22 => conv!("::std::num::NonZeroU16", "try_from = u16", sc(U(16)), |v: &Val| match std::num::NonZeroU16::try_from(u(v) as u16) {
            Ok(_) => Ok(v.clone()),
            Err(e) => Err(e.to_string()),
        }),
        23 => conv!("i128", "map = |x: i128| -> i128 { x.wrapping_add(1) }", sc(I(128)), |v: &Val| Ok(Val::I(i(v).wrapping_add(1)))),
        24 => conv!("String", "map = |mut x: String| { x.insert(0, '<'); x }", sc(String), |v: &Val| Ok(Val::S(format!("<{}", st(v))))),
        25 => conv!("String", "from = &str", sc(Str), |v: &Val| Ok(v.clone())),
        26 => conv!("Box<str>", "try_from = &str", sc(Str), |v: &Val| Ok(v.clone())),
        _ => conv!("u8", "try_from = u8", sc(U(8)), |v: &Val| Ok(v.clone())),
    }
}

/// makes a closure of a map / filter_map attribute call `tick(id)` first
fn add_tick(c: &mut Conv, id: u32) {
    let a = c.attr.clone();
    let (Some(i), true) = (a.find('|'), a.contains("map = |")) else { return };
    let Some(j) = a[i + 1..].find('|').map(|j| i + 1 + j) else { return };
    let rest = a[j + 1..].trim();
    if rest.starts_with("->") {
        return;
    }
    c.attr = format!("{} {{ tick({}); {} }}", &a[..=j], id, rest);
    c.tick = Some(id);
}

fn gen_default(s: &mut Src) -> (String, FAttr) {
    let opts: &[(&str, &str, &str)] = &[
        ("u8", "default", "0"),
        ("String", "default", "\"\""),
        ("Option<u8>", "default", "None"),
        ("Vec<String>", "default", "[]"),
        ("i32", "default = -5", "-5"),
        ("u8", "default = 200", "200"),
        ("String", "default = String::from(\"d,é\")", "\"d,é\""),
        ("f64", "default = 1.5", "1.5"),
        ("(u8, char)", "default = (1, 'x')", "(1, 'x')"),
        ("usize", "default = { let v = vec![1, 2]; v.len() + 1 }", "3"),
        ("Option<i64>", "default = Some(7)", "Some(7)"),
        ("&'static str", "default = \"st\"", "\"st\""),
        ("Result<u8, u8>", "default = if 1 > 2 { Ok(1) } else { Err(2) }", "Err(2)"),
        ("bool", "default", "false"),
        ("u64", "default = u64::MAX", "18446744073709551615"),
        ("[u8; 2]", "default = [1; 2]", "[1, 1]"),
        ("char", "default = \"xyz\".chars().last().unwrap()", "'z'"),
        ("()", "default", "()"),
    ];
    let (d, a, v) = s.pick(opts);
    (d.to_string(), FAttr::Default(a.to_string(), v.to_string()))
}

fn gen_field_ty(s: &mut Src, cfg: &Ucfg, ctx: &mut Ctx, lt: &mut bool) -> Ty {
    if cfg.depth > 0 && s.chance(1, 2) {
        let u = gen_user(s, &Ucfg { depth: cfg.depth - 1, max_fields: cfg.max_fields.min(4), max_variants: cfg.max_variants.min(4), lifetimes: false, ..*cfg }, ctx);
        return Ty::User(u);
    }
    let sc = if cfg.overlap && s.chance(3, 4) { *s.pick(&[Sc::U(8), Sc::I(16), Sc::String, Sc::F32, Sc::Char, Sc::NzU(8), Sc::Bool]) } else { gen_sc(s, cfg.lifetimes) };
    if sc.borrows() {
        *lt = true;
    }
    Ty::Sc(sc)
}

/// fields + format; `cfg.depth` nested types
pub fn gen_variant(s: &mut Src, cfg: &Ucfg, ctx: &mut Ctx, name: String, lt: &mut bool, deps: &mut Vec<Rc<User>>, is_enum: bool) -> Variant {
    let style = match s.weighted(&[5, 4, 1]) {
        0 => Style::Named,
        1 => Style::Tuple,
        _ => Style::Unit,
    };
    // transparent
    if style != Style::Unit && s.chance(1, 10) {
        let ty = gen_field_ty(s, cfg, ctx, lt);
        if let Ty::User(u) = &ty {
            deps.push(u.clone());
        }
        let f = Field { name: if style == Style::Named { "inner".into() } else { "0".into() }, decl: ty.decl(s), attr: FAttr::None };
        let fmt = Fmt::new(vec![Part::Ph(Ph::new("", ty))]);
        return Variant { name, style, fields: vec![f], source: Source::Fmt("transparent".into(), fmt, vec![0]) };
    }
    let n = match style {
        Style::Unit => 0,
        _ => s.small(cfg.max_fields),
    };
    let mut names: Vec<&str> = FIELD_NAMES.to_vec();
    s.shuffle(&mut names);
    let mut fields = vec![];
    let mut srcs: Vec<Option<Ty>> = vec![];
    for i in 0..n {
        let name = if style == Style::Named { names[i % names.len()].to_string() } else { i.to_string() };
        let k = if cfg.attrs { s.weighted(&[6, 2, 3]) } else { 0 };
        let (decl, attr, from) = match k {
            0 => {
                let t = gen_field_ty(s, cfg, ctx, lt);
                (t.decl(s), FAttr::None, Some(t))
            }
            1 => {
                let (d, a) = gen_default(s);
                (d, a, None)
            }
            _ => {
                let inner = if s.chance(1, 2) { Some(gen_field_ty(s, cfg, ctx, lt)) } else { None };
                let (d, mut c) = gen_conv(s, inner, "'a ");
                if cfg.ticks && s.chance(3, 4) {
                    ctx.n += 1;
                    add_tick(&mut c, ctx.n as u32);
                }
                let t = c.from.clone();
                if d.contains("'a") {
                    if !cfg.lifetimes {
                        // keep the type free of lifetimes: use a plain field instead
                        let t = Ty::Sc(Sc::String);
                        fields.push(Field { name, decl: "String".into(), attr: FAttr::None });
                        srcs.push(Some(t));
                        continue;
                    }
                    *lt = true;
                }
                (d, FAttr::Conv(c), Some(t))
            }
        };
        if let Some(Ty::User(u)) = &from {
            deps.push(u.clone());
        }
        fields.push(Field { name, decl, attr });
        srcs.push(from);
    }
    // placeholders: explicit ones in any order, automatic ones in declaration order
    let needed: Vec<usize> = (0..n).filter(|&i| srcs[i].is_some()).collect();
    let mode = s.weighted(&[3, 2, 3]);
    let mut auto = vec![];
    let mut explicit = vec![];
    for &i in &needed {
        let a = match mode {
            0 => false,
            1 => true,
            _ => s.chance(1, 2),
        };
        if a {
            auto.push(i)
        } else {
            explicit.push(i)
        }
    }
    s.shuffle(&mut explicit);
    let total = needed.len();
    let mut phs: Vec<(usize, bool)> = vec![];
    let (mut ai, mut ei) = (0, 0);
    for _ in 0..total {
        let take_auto = if ai == auto.len() {
            false
        } else if ei == explicit.len() {
            true
        } else {
            s.chance(1, 2)
        };
        if take_auto {
            phs.push((auto[ai], true));
            ai += 1;
        } else {
            phs.push((explicit[ei], false));
            ei += 1;
        }
    }
    let unescaped = cfg.unescaped > 0 && s.chance(cfg.unescaped, 6);
    let mut parts = vec![];
    let mut map = vec![];
    let lit = |s: &mut Src, parts: &mut Vec<Part>, opt: u64| {
        if s.below(10) >= opt {
            if unescaped {
                let r = rx::gen_top(s, &RxCfg { allow_alt_top: total == 0, ..RxCfg::default() });
                parts.push(Part::Rx(r));
            } else if cfg.overlap {
                parts.push(Part::Lit(s.pick(&["a", "1", "-", "ab", "0", "a1", "true", "A", ".", "b"]).to_string()));
            } else {
                parts.push(Part::Lit(gen_lit(s)));
            }
        }
    };
    lit(s, &mut parts, if total == 0 && is_enum { 0 } else { 5 });
    for (k, &(fi, is_auto)) in phs.iter().enumerate() {
        if k > 0 {
            lit(s, &mut parts, if cfg.tight { 2 } else { 0 });
        }
        let ty = srcs[fi].clone().unwrap();
        let ident = if is_auto {
            String::new()
        } else if style == Style::Named && s.chance(3, 4) {
            fields[fi].name.clone()
        } else {
            fi.to_string()
        };
        let mut opt = if cfg.opts && s.chance(1, 3) { gen_opt_look(s, &ty, false) } else { Opt::None };
        for _ in 0..6 {
            if cfg.generic && matches!(&fields[fi].attr, FAttr::None) && OWNED.contains(&fields[fi].decl.as_str()) && !matches!(opt, Opt::Re(_)) {
                opt = gen_opt_look(s, &ty, false);
            }
        }
        parts.push(Part::Ph(Ph { ident, ty, opt }));
        map.push(fi);
    }
    // alternatives at the top level of a text without placeholders are the whole text
    if !matches!(&parts[..], [Part::Rx(rx::Rx::Alt(_))]) {
        lit(s, &mut parts, if total == 0 { 2 } else { 5 });
        if total == 0 && parts.len() > 1 {
            for p in &mut parts {
                if let Part::Rx(r @ rx::Rx::Alt(_)) = p {
                    *r = rx::Rx::Group(Box::new(r.clone()), false);
                }
            }
        }
    }
    let fmt = Fmt::new(parts);
    let text = fmt.text();
    let attr = if unescaped {
        if s.chance(1, 2) {
            raw_lit(s, &text)
        } else {
            format!("format_unescaped = {}", str_lit(s, &text))
        }
    } else {
        let w = s.chance(1, 2);
        match s.idx(2) {
            0 => esc_lit(s, &text, w),
            _ => format!("format = {}", str_lit(s, &text)),
        }
    };
    let attr = if attr.starts_with("r") && (attr.contains('\r')) { format!("format_unescaped = {}", esc_lit(s, &text, false)) } else { attr };
    Variant { name, style, fields, source: Source::Fmt(attr, fmt, map) }
}

pub fn gen_noise(s: &mut Src) -> u64 {
    if s.chance(1, 3) {
        s.bits() | 1
    } else {
        0
    }
}

fn finish(s: &mut Src, name: String, lt: bool, kind: Kind, deps: Vec<Rc<User>>) -> Rc<User> {
    let noise = gen_noise(s);
    let generics = if lt { ("<'a>".to_string(), String::new()) } else { (String::new(), String::new()) };
    Rc::new(User { name, lt, generics, args: String::new(), kind, deps, derives: "Debug, ::sscanf::FromScanf", fromstr: false, noise })
}

pub fn gen_struct(s: &mut Src, cfg: &Ucfg, ctx: &mut Ctx) -> Rc<User> {
    let name = ctx.name("S");
    let (mut lt, mut deps) = (false, vec![]);
    let mut v = gen_variant(s, cfg, ctx, name.clone(), &mut lt, &mut deps, false);
    let mut params: Vec<String> = vec![];
    let mut wh = String::new();
    let mut args = String::new();
    let uses = uses_lt(&v);
    if uses {
        params.push("'a".into());
        // a second lifetime for some of the fields
        if s.chance(1, 3) {
            let mut second = false;
            let idx: Vec<usize> = v.fields.iter().enumerate().filter(|(_, f)| f.decl.contains("'a")).map(|(i, _)| i).collect();
            for &i in idx.iter().skip(1) {
                if s.chance(1, 2) {
                    let f = &mut v.fields[i];
                    f.decl = f.decl.replace("'a", "'b");
                    if let FAttr::Conv(c) = &mut f.attr {
                        c.attr = c.attr.replace("'a", "'b");
                    }
                    second = true;
                }
            }
            if second {
                params.push("'b".into());
            }
        }
    }
    if cfg.generic || s.chance(1, 3) {
        if let Some((p, w, a)) = make_generic(s, &mut v) {
            params.push(p);
            wh = w;
            args = a;
        }
    }
    if s.chance(1, if cfg.generic { 3 } else { 12 }) {
        // a const parameter, before a type parameter that may have a default
        let (p, a) = const_param(s);
        let at = params.iter().position(|p| !p.starts_with('\'')).unwrap_or(params.len());
        params.insert(at, p);
        args = if args.is_empty() { a } else { format!("{}, {}", a, args) };
    }
    let generics = if params.is_empty() { String::new() } else { format!("<{}>", params.join(", ")) };
    Rc::new(User { name, lt: uses, generics: (generics, wh), args, kind: Kind::Struct(v), deps, derives: "Debug, ::sscanf::FromScanf", fromstr: false, noise: gen_noise(s) })
}

const OWNED: &[&str] = &["u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize", "String", "bool", "char", "f32", "f64"];

/// an unused const parameter and its argument
fn const_param(s: &mut Src) -> (String, String) {
    let (p, a) = *s.pick(&[("const N: usize", "3"), ("const N: usize", "0"), ("const N: usize", "NUM_CAPTURES"), ("const N: usize", "LAZY"), ("const N: usize", "COUNT"), ("const T_: bool", "true"), ("const C: char", "','"), ("const NUM_CAPTURES: i8", "-1")]);
    (p.to_string(), a.to_string())
}

/// turns the type of one field into a type parameter: (declaration, where clause, argument)
fn make_generic(s: &mut Src, v: &mut Variant) -> Option<(String, String, String)> {
    let Source::Fmt(_, fmt, map) = &v.source else { return None };
    let mut cand = vec![];
    for (i, f) in v.fields.iter().enumerate() {
        match &f.attr {
            FAttr::Default(a, _) if a == "default" && f.decl != "()" => cand.push((i, true)),
            FAttr::None if OWNED.contains(&f.decl.as_str()) => {
                let ph = fmt.phs().zip(map).find(|(_, &m)| m == i).map(|(p, _)| p)?;
                if matches!(ph.opt, Opt::Re(_)) {
                    cand.push((i, false));
                }
            }
            _ => {}
        }
    }
    if cand.is_empty() {
        return None;
    }
    let (i, is_default) = *s.pick(&cand);
    let arg = std::mem::replace(&mut v.fields[i].decl, "T".into());
    if is_default {
        return Some(match s.idx(2) {
            0 => ("T: Default".into(), String::new(), arg),
            _ => ("T".into(), "where T: ::std::default::Default".into(), arg),
        });
    }
    let from_str = "where T: ::std::str::FromStr + 'static, <T as ::std::str::FromStr>::Err: ::std::error::Error + 'static".to_string();
    Some(match s.idx(3) {
        0 => ("T".into(), "where T: for<'x> ::sscanf::FromScanf<'x>".into(), arg),
        1 => ("T = usize".into(), "where T: for<'x> ::sscanf::FromScanf<'x>".into(), arg),
        _ => ("T".into(), from_str, arg),
    })
}

/// whether 'a appears in a declared field type
fn uses_lt(v: &Variant) -> bool {
    v.fields.iter().any(|f| f.decl.contains("'a"))
}

const VARIANT_NAMES: &[&str] = &["A", "B", "Foo", "Bar", "None", "Some", "Ok", "Err", "Zed", "Unit", "X1", "Self_", "Match", "Str", "U8"];

pub fn gen_enum(s: &mut Src, cfg: &Ucfg, ctx: &mut Ctx) -> Rc<User> {
    let name = ctx.name("E");
    let n = if cfg.max_variants > 20 { s.range(20, cfg.max_variants) } else { s.range(1, cfg.max_variants.max(1)) };
    let (mut lt, mut deps, mut vs) = (false, vec![], vec![]);
    let mut names: Vec<&str> = VARIANT_NAMES.to_vec();
    s.shuffle(&mut names);
    let sub = Ucfg { max_fields: cfg.max_fields.min(5), ..*cfg };
    for i in 0..n {
        let vname = names.get(i).map_or_else(|| format!("Nr{}", i), |n| n.to_string());
        let v = gen_variant(s, &sub, ctx, vname, &mut lt, &mut deps, true);
        vs.push(v);
    }
    // some variants without a format
    if n > 1 {
        let keep = s.idx(n);
        for (i, v) in vs.iter_mut().enumerate() {
            if i != keep && s.chance(1, 8) {
                v.source = if s.chance(1, 2) { Source::None } else { Source::Skip };
                for f in &mut v.fields {
                    f.attr = FAttr::None;
                }
            }
        }
    }
    let lt = vs.iter().any(uses_lt);
    if cfg.generic {
        let i = s.idx(vs.len());
        if let Some((mut p, w, mut a)) = make_generic(s, &mut vs[i]) {
            if s.chance(1, 4) {
                let (cp, ca) = const_param(s);
                p = format!("{}, {}", cp, p);
                a = format!("{}, {}", ca, a);
            }
            let u = finish(s, name, lt, Kind::Enum(vs, None), deps);
            let mut u = Rc::try_unwrap(u).ok().unwrap();
            u.generics = (if lt { format!("<'a, {}>", p) } else { format!("<{}>", p) }, w);
            u.args = a;
            return Rc::new(u);
        }
    }
    finish(s, name, lt, Kind::Enum(vs, None), deps)
}

/// manual FromScanf with inner capture groups, or FromStr + RegexRepresentation
pub fn gen_opaque(s: &mut Src, ctx: &mut Ctx) -> Rc<User> {
    let name = ctx.name("M");
    let n = name.clone();
    let k = *s.pick(&[0usize, 1, 2, 3, 4, 5, 0, 1, 2, 3, 4, 5, 6, 7, 8]);
    let ok = |n: &str, v: String| -> Result<Val, EInfo> { Ok(Val::D(format!("{}{}", n, v))) };
    // texts of own errors: several lines, blanks at the ends, nothing but the argument, odd characters
    let own: &'static str = if s.chance(1, 2) { "own error <{}>" } else { *s.pick(&["own error\n<{}>", "{}", " \t{} ", "\n{}\n\n", "{}: a \"quoted\" text: with: colons", "\u{1F600}{}\r\nnext", "no\u{0}ne {} \u{1b}[31m"]) };
    let own_dbg = format!("{:?}", own);
    let unb: &'static str = if s.chance(2, 3) { "unbalanced" } else { *s.pick(&["", "\n", "line 1\nline 2", "  unbalanced  ", "unbalanced\n"]) };
    let (items, regex, parse, sample): (String, String, Rc<dyn Fn(&str) -> Result<Val, EInfo>>, Rc<dyn Fn(&mut Src) -> String>) = match k {
        0 => (
            // two mandatory groups
            format!(
                "#[derive(Debug)] pub struct {n}(String, String);
impl ::sscanf::RegexRepresentation for {n} {{ const REGEX: &'static str = r\"<([a-z]*)\\.([0-9]+)>\"; }}
impl<'t> ::sscanf::FromScanf<'t> for {n} {{ type Err = ::std::convert::Infallible; const NUM_CAPTURES: usize = 3;
fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> {{
 src.next().unwrap().unwrap(); let a = src.next().unwrap().unwrap().as_str().to_string(); let b = src.next().unwrap().unwrap().as_str().to_string(); Ok({n}(a, b)) }} }}\n"
            ),
            r"<[a-z]*\.[0-9]+>".to_string(),
            Rc::new(move |t: &str| {
                let (a, b) = t[1..t.len() - 1].split_once('.').unwrap();
                ok(&n, format!("({:?}, {:?})", a, b))
            }),
            Rc::new(|s: &mut Src| {
                let a: String = (0..s.range(0, 3)).map(|_| *s.pick(&['a', 'z', 'q'])).collect();
                format!("<{}.{}>", a, digits(s, 1, 3))
            }),
        ),
        1 => (
            // an optional group and a nested one
            format!(
                "#[derive(Debug)] pub struct {n}(Option<String>, Option<String>);
impl ::sscanf::RegexRepresentation for {n} {{ const REGEX: &'static str = r\"\\[(?:(-)|(\\+(x)))?\\]\"; }}
impl<'t> ::sscanf::FromScanf<'t> for {n} {{ type Err = ::std::convert::Infallible; const NUM_CAPTURES: usize = 4;
fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> {{
 src.next().unwrap().unwrap(); let a = src.next().unwrap().map(|m| m.as_str().to_string()); src.next().unwrap(); let b = src.next().unwrap().map(|m| m.as_str().to_string()); Ok({n}(a, b)) }} }}\n"
            ),
            r"\[(?:-|\+x)?\]".to_string(),
            Rc::new(move |t: &str| {
                let v = match &t[1..t.len() - 1] {
                    "-" => "(Some(\"-\"), None)",
                    "+x" => "(None, Some(\"x\"))",
                    _ => "(None, None)",
                };
                ok(&n, v.into())
            }),
            Rc::new(|s: &mut Src| format!("[{}]", s.pick(&["", "-", "+x"]))),
        ),
        2 => (
            // FromStr that can fail with its own error
            format!(
                "#[derive(Debug)] pub struct {n}(u8);
#[derive(Debug)] pub struct Er{n}(String);
impl ::std::fmt::Display for Er{n} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ write!(f, {own_dbg}, self.0) }} }}
impl ::std::error::Error for Er{n} {{}}
impl ::std::str::FromStr for {n} {{ type Err = Er{n}; fn from_str(s: &str) -> Result<Self, Er{n}> {{ if s.contains('7') {{ Err(Er{n}(s.to_string())) }} else {{ Ok({n}(s.len() as u8)) }} }} }}
impl ::sscanf::RegexRepresentation for {n} {{ const REGEX: &'static str = r\"q[0-9]*|Q[0-9]{{2}}\"; }}\n"
            ),
            r"q[0-9]*|Q[0-9]{2}".to_string(),
            Rc::new(move |t: &str| {
                if t.contains('7') {
                    Err(EInfo { wrap: vec![n.clone()], leaf: own.replace("{}", t) })
                } else {
                    ok(&n, format!("({})", t.len() as u8))
                }
            }),
            Rc::new(|s: &mut Src| if s.chance(1, 3) { format!("Q{}", digits(s, 2, 2)) } else { format!("q{}", digits(s, 0, 3)) }),
        ),
        3 => (
            // FromStr with an empty match possible
            format!(
                "#[derive(Debug)] pub struct {n}(String);
impl ::std::str::FromStr for {n} {{ type Err = ::std::convert::Infallible; fn from_str(s: &str) -> Result<Self, Self::Err> {{ Ok({n}(s.chars().rev().collect())) }} }}
impl ::sscanf::RegexRepresentation for {n} {{ const REGEX: &'static str = \"[ab]*\"; }}\n"
            ),
            "[ab]*".to_string(),
            Rc::new(move |t: &str| ok(&n, format!("({:?})", t.chars().rev().collect::<String>()))),
            Rc::new(|s: &mut Src| (0..s.range(0, 4)).map(|_| *s.pick(&['a', 'b'])).collect()),
        ),
        4 => (
            // manual, fails in from_matches after taking everything
            format!(
                "#[derive(Debug)] pub struct {n}(u8);
impl ::sscanf::RegexRepresentation for {n} {{ const REGEX: &'static str = r\"#([0-9]{{1,4}})(;)?\"; }}
impl<'t> ::sscanf::FromScanf<'t> for {n} {{ type Err = ::std::num::ParseIntError; const NUM_CAPTURES: usize = 3;
fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> {{
 src.next().unwrap().unwrap(); let a = src.next().unwrap().unwrap().as_str(); src.next().unwrap(); Ok({n}(a.parse::<u8>()?)) }} }}\n"
            ),
            "#[0-9]{1,4};?".to_string(),
            Rc::new(move |t: &str| match t.trim_matches(|c| c == '#' || c == ';').parse::<u8>() {
                Ok(v) => ok(&n, format!("({})", v)),
                Err(e) => Err(EInfo { wrap: vec![], leaf: e.to_string() }),
            }),
            Rc::new(|s: &mut Src| format!("#{}{}", digits(s, 1, 4), s.pick(&["", ";"]))),
        ),
        6 => (
            // FromStr that itself calls sscanf!() and from_str() of another derived type
            format!(
                "#[derive(Debug)] pub struct {n}(u8, u16);
#[derive(Debug)] pub struct Er{n}(String);
impl ::std::fmt::Display for Er{n} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ write!(f, \"nested error <{{}}>\", self.0) }} }}
impl ::std::error::Error for Er{n} {{}}
#[derive(::sscanf::FromScanf)] #[sscanf(\"{{}}x{{:x}}\")] struct In{n}(u8, u16);
impl ::std::str::FromStr for {n} {{ type Err = Er{n}; fn from_str(s: &str) -> ::std::result::Result<Self, Er{n}> {{
 let shape = s.split_once('x').map_or(false, |(a, b)| (1..4).contains(&a.len()) && a.bytes().all(|c| c.is_ascii_digit()) && (1..5).contains(&b.len()) && b.bytes().all(|c| c.is_ascii_digit() || (b'a'..=b'f').contains(&c)));
 if !shape {{ return ::std::result::Result::Err(Er{n}(::std::string::ToString::to_string(s))); }}
 let er = |_| Er{n}(::std::string::ToString::to_string(s));
 let (a, b) = ::sscanf::sscanf!(s, \"{{u8}}x{{u16:x}}\").map_err(er)?;
 let c = <In{n} as ::sscanf::FromScanf>::from_str(s).map_err(|_| Er{n}(::std::string::ToString::to_string(s)))?;
 assert_eq!((a, b), (c.0, c.1)); ::std::result::Result::Ok({n}(a, b)) }} }}
impl ::sscanf::RegexRepresentation for {n} {{ const REGEX: &'static str = r\"[0-9]{{1,3}}x[0-9a-f]{{1,4}}\"; }}\n"
            ),
            "[0-9]{1,3}x[0-9a-f]{1,4}".to_string(),
            Rc::new(move |t: &str| {
                let own = Regex::new(r"\A[0-9]{1,3}x[0-9a-f]{1,4}\z").unwrap();
                let (a, b) = t.split_once('x').filter(|_| own.is_match(t)).unwrap_or(("", ""));
                match a.parse::<u8>() {
                    Ok(a) => ok(&n, format!("({}, {})", a, u16::from_str_radix(b, 16).unwrap())),
                    Err(_) => Err(EInfo { wrap: vec![n.clone()], leaf: format!("nested error <{}>", t) }),
                }
            }),
            Rc::new(|s: &mut Src| format!("{}x{}", digits(s, 1, 3), s.pick(&["0", "f", "a0", "ffff", "7"]))),
        ),
        7 => (
            // recursive: parses what is inside the brackets with the same call
            format!(
                "#[derive(Debug)] pub struct {n}(usize);
#[derive(Debug)] pub struct Er{n};
impl ::std::fmt::Display for Er{n} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ f.write_str({unb:?}) }} }}
impl ::std::error::Error for Er{n} {{}}
impl ::std::str::FromStr for {n} {{ type Err = Er{n}; fn from_str(s: &str) -> ::std::result::Result<Self, Er{n}> {{
 if s == \"z\" {{ return ::std::result::Result::Ok({n}(0)); }}
 let inner = ::sscanf::sscanf!(s, \"({{}})\", {n}).map_err(|_| Er{n})?;
 ::std::result::Result::Ok({n}(inner.0 + 1)) }} }}
impl ::sscanf::RegexRepresentation for {n} {{ const REGEX: &'static str = r\"\\(*z\\)*\"; }}\n"
            ),
            r"\(*z\)*".to_string(),
            Rc::new(move |t: &str| {
                let (a, b) = t.split_once('z').unwrap_or(("x", "y"));
                if a.len() == b.len() && a.bytes().all(|c| c == b'(') && b.bytes().all(|c| c == b')') {
                    ok(&n, format!("({})", a.len()))
                } else {
                    Err(EInfo { wrap: vec![n.clone()], leaf: unb.into() })
                }
            }),
            Rc::new(|s: &mut Src| {
                let k = s.range(0, 4);
                let j = if s.chance(1, 5) { s.range(0, 3) } else { k };
                format!("{}z{}", "(".repeat(k), ")".repeat(j))
            }),
        ),
        8 => (
            // FromStr that fails with one of the error types of the crate
            format!(
                "#[derive(Debug)] pub struct {n}(char);
impl ::std::str::FromStr for {n} {{ type Err = ::sscanf::errors::MissingPrefixError; fn from_str(s: &str) -> ::std::result::Result<Self, Self::Err> {{ match s {{
 \"0?x\" => ::std::result::Result::Err(::sscanf::errors::MissingPrefixError::Hex), \"0?o\" => ::std::result::Result::Err(::sscanf::errors::MissingPrefixError::Octal), \"0?b\" => ::std::result::Result::Err(::sscanf::errors::MissingPrefixError::Binary),
 _ => ::std::result::Result::Ok({n}(s.chars().last().unwrap_or('-'))) }} }} }}
impl ::sscanf::RegexRepresentation for {n} {{ const REGEX: &'static str = r\"0\\??[xobz]\"; }}\n"
            ),
            r"0\??[xobz]".to_string(),
            Rc::new(move |t: &str| {
                if let Some(c) = t.strip_prefix("0?").filter(|c| ["x", "o", "b"].contains(c)) {
                    return Err(EInfo { wrap: vec![n.clone()], leaf: format!("Missing prefix: 0{}", c) });
                }
                ok(&n, format!("({:?})", t.chars().last().unwrap_or('-')))
            }),
            Rc::new(|s: &mut Src| format!("0{}{}", s.pick(&["", "?"]), s.pick(&["x", "o", "b", "z"]))),
        ),
        _ => (
            // top-level alternation with groups in both arms
            format!(
                "#[derive(Debug)] pub struct {n}(String);
impl ::sscanf::RegexRepresentation for {n} {{ const REGEX: &'static str = r\"(x+)|y(.)\"; }}
impl<'t> ::sscanf::FromScanf<'t> for {n} {{ type Err = ::std::convert::Infallible; const NUM_CAPTURES: usize = 3;
fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> Result<Self, Self::Err> {{
 src.next().unwrap().unwrap(); let a = src.next().unwrap(); let b = src.next().unwrap(); Ok({n}(a.or(b).unwrap().as_str().to_string())) }} }}\n"
            ),
            "x+|y.".to_string(),
            Rc::new(move |t: &str| ok(&n, format!("({:?})", t.strip_prefix('y').unwrap_or(t)))),
            Rc::new(|s: &mut Src| if s.chance(1, 2) { format!("y{}", s.pick(&['x', 'a', 'é', '1'])) } else { "x".repeat(s.range(1, 3)) }),
        ),
    };
    let re = Regex::new(&format!(r"\A(?:{})\z", regex)).unwrap();
    Rc::new(User { name, lt: false, generics: Default::default(), args: String::new(), kind: Kind::Opaque { items, regex, re, parse, sample }, deps: vec![], derives: "", fromstr: matches!(k, 2 | 3 | 6 | 7 | 8), noise: 0 })
}

/// a hand-written FromScanf that builds on the associated items of the types it contains
pub fn gen_container(s: &mut Src, cfg: &Ucfg, ctx: &mut Ctx) -> Rc<User> {
    let n = ctx.name("W");
    let mut deps: Vec<Rc<User>> = vec![];
    let mut item = |s: &mut Src, ctx: &mut Ctx| {
        if cfg.depth > 0 && s.chance(1, 2) {
            let u = gen_user(s, &Ucfg { depth: cfg.depth - 1, max_fields: cfg.max_fields.min(4), max_variants: cfg.max_variants.min(4), lifetimes: false, ..*cfg }, ctx);
            deps.push(u.clone());
            Ty::User(u)
        } else {
            Ty::Sc(gen_sc(s, false))
        }
    };
    let k = s.idx(4);
    let a = item(s, ctx);
    let b = if k == 1 || k == 3 { item(s, ctx) } else { a.clone() };
    let (ta, tb) = (a.rust(""), b.rust(""));
    let rx = |t: &str| format!("<{t} as ::sscanf::RegexRepresentation>::REGEX");
    let nc = |t: &str| format!("<{t} as ::sscanf::FromScanf<'t>>::NUM_CAPTURES");
    let fm = |t: &str| format!("<{t} as ::sscanf::FromScanf>::from_matches(src).map_err(|e| ::std::boxed::Box::new(e) as ::std::boxed::Box<dyn (::std::error::Error)>)");
    let err = format!("#[derive(Debug)] struct Er{n}(::std::boxed::Box<dyn (::std::error::Error)>);
impl ::std::fmt::Display for Er{n} {{ fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {{ ::std::fmt::Display::fmt(&self.0, f) }} }}
impl ::std::error::Error for Er{n} {{ fn source(&self) -> ::std::option::Option<&(dyn (::std::error::Error) + 'static)> {{ self.0.source() }} }}\n");
    let own = |decl: String, e: &str, regex: String, caps: String, body: String| {
        format!(
            "{}#[derive(Debug)] struct {n}({decl});
impl ::sscanf::RegexRepresentation for {n} {{ const REGEX: &'static str = {regex}; }}
impl<'t> ::sscanf::FromScanf<'t> for {n} {{ type Err = {e}; const NUM_CAPTURES: usize = {caps};
fn from_matches(src: &mut ::sscanf::regex::SubCaptureMatches<'_, 't>) -> ::std::result::Result<Self, Self::Err> {{ {body} }} }}\n",
            if e.starts_with("Er") { err.as_str() } else { "" }
        )
    };
    let (n1, n2) = (n.clone(), n.clone());
    let ph = |t: &Ty| Part::Ph(Ph::new("", t.clone()));
    type Parse = Rc<dyn Fn(&str) -> Result<Val, EInfo>>;
    let (items, regex, parse, sample): (String, String, Parse, Rc<dyn Fn(&mut Src) -> String>) = match k {
        // the same groups under another name
        0 => {
            let fmt = Rc::new(Fmt::new(vec![ph(&a)]));
            let (f1, f2) = (fmt.clone(), fmt.clone());
            (
                own(ta.clone(), &format!("<{ta} as ::sscanf::FromScanf<'t>>::Err"), rx(&ta), nc(&ta), format!("<{ta} as ::sscanf::FromScanf>::from_matches(src).map({n})")),
                fmt.regex(),
                Rc::new(move |t: &str| match f1.eval(t) {
                    Out::Ok(v) => Ok(Val::D(format!("{}({})", n1, v[0].dbg()))),
                    Out::Parse(e) => Err(e),
                    Out::NoMatch => panic!("reference: container"),
                }),
                Rc::new(move |s: &mut Src| f2.sample(s)),
            )
        }
        // one after the other
        1 => {
            let sep = gen_lit(s);
            let fmt = Rc::new(Fmt::new(vec![ph(&a), Part::Lit(sep.clone()), ph(&b)]));
            let (f1, f2) = (fmt.clone(), fmt.clone());
            (
                own(
                    format!("{ta}, {tb}"),
                    &format!("Er{n}"),
                    format!("::vrt::cat!(\"(\", {}, \"){}(\", {}, \")\")", rx(&ta), lit_regex(&sep).replace('\\', "\\\\"), rx(&tb)),
                    format!("1 + {} + {}", nc(&ta), nc(&tb)),
                    format!("src.next().unwrap().unwrap(); let a = {}.map_err(Er{n})?; let b = {}.map_err(Er{n})?; Ok({n}(a, b))", fm(&ta), fm(&tb)),
                ),
                fmt.regex(),
                Rc::new(move |t: &str| match f1.eval(t) {
                    Out::Ok(v) => Ok(Val::D(format!("{}({}, {})", n1, v[0].dbg(), v[1].dbg()))),
                    Out::Parse(e) => Err(e),
                    Out::NoMatch => panic!("reference: container"),
                }),
                Rc::new(move |s: &mut Src| f2.sample(s)),
            )
        }
        // in brackets, or not there
        2 => {
            let fmt = Rc::new(Fmt::new(vec![Part::Lit("[".into()), ph(&a), Part::Lit("]".into())]));
            let (f1, f2) = (fmt.clone(), fmt.clone());
            (
                own(
                    format!("::std::option::Option<{ta}>"),
                    &format!("Er{n}"),
                    format!("::vrt::cat!(r\"\\[(\", {}, r\")\\]|-\")", rx(&ta)),
                    format!("1 + {}", nc(&ta)),
                    format!(
                        "src.next().unwrap().unwrap(); if src.clone().next().unwrap().is_some() {{ Ok({n}(::std::option::Option::Some({}.map_err(Er{n})?))) }} else {{ for _ in 0..{} {{ ::std::assert!(src.next().unwrap().is_none()); }} Ok({n}(::std::option::Option::None)) }}",
                        fm(&ta),
                        nc(&ta)
                    ),
                ),
                format!("({})|-", fmt.regex()),
                Rc::new(move |t: &str| match f1.eval(t) {
                    Out::Ok(v) => Ok(Val::D(format!("{}(Some({}))", n1, v[0].dbg()))),
                    Out::Parse(e) => Err(e),
                    Out::NoMatch => Ok(Val::D(format!("{}(None)", n1))),
                }),
                Rc::new(move |s: &mut Src| if s.chance(1, 3) { "-".into() } else { f2.sample(s) }),
            )
        }
        // the first that matches
        _ => {
            let (fa, fb) = (Rc::new(Fmt::new(vec![ph(&a)])), Rc::new(Fmt::new(vec![ph(&b)])));
            let (f1, f2, f3, f4) = (fa.clone(), fa.clone(), fb.clone(), fb.clone());
            (
                own(
                    format!("::std::result::Result<{ta}, {tb}>"),
                    &format!("Er{n}"),
                    format!("::vrt::cat!(\"(\", {}, \")|(\", {}, \")\")", rx(&ta), rx(&tb)),
                    format!("1 + {} + {}", nc(&ta), nc(&tb)),
                    format!(
                        "src.next().unwrap().unwrap(); if src.clone().next().unwrap().is_some() {{ let a = {}.map_err(Er{n})?; for _ in 0..{} {{ ::std::assert!(src.next().unwrap().is_none()); }} Ok({n}(::std::result::Result::Ok(a))) }} else {{ for _ in 0..{} {{ ::std::assert!(src.next().unwrap().is_none()); }} Ok({n}(::std::result::Result::Err({}.map_err(Er{n})?))) }}",
                        fm(&ta),
                        nc(&tb),
                        nc(&ta),
                        fm(&tb)
                    ),
                ),
                format!("({})|({})", fa.regex(), fb.regex()),
                Rc::new(move |t: &str| match (f1.eval(t), f3.eval(t)) {
                    (Out::Ok(v), _) => Ok(Val::D(format!("{}(Ok({}))", n1, v[0].dbg()))),
                    (Out::Parse(e), _) => Err(e),
                    (_, Out::Ok(v)) => Ok(Val::D(format!("{}(Err({}))", n1, v[0].dbg()))),
                    (_, Out::Parse(e)) => Err(e),
                    _ => panic!("reference: container"),
                }),
                Rc::new(move |s: &mut Src| if s.chance(1, 2) { f2.sample(s) } else { f4.sample(s) }),
            )
        }
    };
    let re = Regex::new(&format!(r"\A(?:{})\z", regex)).unwrap();
    Rc::new(User { name: n2, lt: false, generics: Default::default(), args: String::new(), kind: Kind::Opaque { items, regex, re, parse, sample }, deps, derives: "", fromstr: false, noise: 0 })
}

pub fn gen_user(s: &mut Src, cfg: &Ucfg, ctx: &mut Ctx) -> Rc<User> {
    if !ctx.pool.is_empty() && s.chance(1, 4) {
        let u = s.pick(&ctx.pool.clone()).clone();
        if (!u.lt || cfg.lifetimes) && u.depth() <= cfg.depth + 1 {
            return u;
        }
    }
    let u = match s.weighted(&[4, 4, 2, 2]) {
        0 => gen_struct(s, cfg, ctx),
        1 => gen_enum(s, cfg, ctx),
        2 => gen_opaque(s, ctx),
        _ => gen_container(s, cfg, ctx),
    };
    ctx.pool.push(u.clone());
    u
}


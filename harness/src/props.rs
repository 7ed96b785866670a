//! The generators of the properties about formats over std types.
use crate::engine::*;
use crate::fmt::*;
use crate::rx::{self, RxCfg};
use crate::src::Src;
use crate::types::*;
use crate::user::*;
use std::rc::Rc;

// ---------------------------------------------------------------------------------------------
// formats with type arguments

pub struct Call1 {
    /// type arguments after the format string
    pub args: Vec<String>,
    pub fmt: Fmt,
}

impl Call1 {
    pub fn result_ty(&self) -> String {
        let t: Vec<String> = self.fmt.phs().map(|p| p.ty.rust("")).collect();
        if t.len() == 1 {
            t[0].clone()
        } else {
            format!("({})", t.join(", "))
        }
    }
    pub fn args_src(&self) -> String {
        self.args.iter().map(|a| format!(", {}", a)).collect()
    }
}

/// pattern and expression showing every element
pub fn show(n: usize, each: &str) -> String {
    let names: Vec<String> = (0..n).map(|i| format!("a{}", i)).collect();
    let pat = match n {
        1 => names[0].clone(),
        _ => format!("({})", names.join(", ")),
    };
    let fmts: Vec<String> = names.iter().map(|a| format!("format!(\"{}\", {})", each, a)).collect();
    let list = if n == 0 { "[\"\"; 0]".to_string() } else { format!("[{}]", fmts.join(", ")) };
    format!("|{}| {}.join(\"\\u{{1e}}\")", pat, list)
}

pub fn body(mac: &str, c: &Call1, lit: &str) -> String {
    format!(
        "let r: Result<{}, ::sscanf::Error> = ::sscanf::{}!(input, {}{});\n::vrt::fin(r, {})",
        c.result_ty(),
        mac,
        lit,
        c.args_src(),
        show(c.fmt.phs().count(), "{:?}")
    )
}

/// how types are attached to placeholders
#[derive(Clone, Copy, PartialEq)]
pub enum Bind {
    Inline,
    Auto,
    Index,
    Mix,
}

/// assigns the types to placeholders, producing idents and type arguments
pub fn bind(s: &mut Src, tys: &[(Ty, Opt)], mode: Bind) -> (Vec<String>, Vec<Ph>) {
    // every argument has to be used
    let mut args: Vec<(String, Ty)> = vec![];
    let mut idents: Vec<String> = vec![];
    let mut kinds = vec![];
    for (t, o) in tys {
        let k = match mode {
            Bind::Inline => 0,
            Bind::Auto => 1,
            Bind::Index => 2,
            Bind::Mix => s.weighted(&[3, 3, 3]),
        };
        kinds.push((k, t.clone(), o.clone()));
    }
    // auto placeholders use arguments 0, 1, ... in order
    for (k, t, o) in &kinds {
        if *k == 1 {
            args.push((spell_ty(s, t, o), t.clone()));
        }
    }
    let n_auto = args.len();
    // indexed ones: reuse an argument of the same type or add one; added ones are shuffled
    let mut extra: Vec<(String, Ty)> = vec![];
    let mut pend: Vec<Option<(bool, usize)>> = vec![];
    for (k, t, o) in &kinds {
        if *k != 2 {
            pend.push(None);
            continue;
        }
        let name = t.rust("");
        let mut cand: Vec<(bool, usize)> = vec![];
        for (i, a) in args.iter().take(n_auto).enumerate() {
            if a.1.rust("") == name && (a.0 == name || !matches!(o, Opt::Radix(_))) {
                cand.push((false, i));
            }
        }
        for (i, a) in extra.iter().enumerate() {
            if a.1.rust("") == name && (a.0 == name || !matches!(o, Opt::Radix(_))) {
                cand.push((true, i));
            }
        }
        if !cand.is_empty() && s.chance(1, 2) {
            pend.push(Some(*s.pick(&cand)));
        } else {
            extra.push((spell_ty(s, t, o), t.clone()));
            pend.push(Some((true, extra.len() - 1)));
        }
    }
    let mut perm: Vec<usize> = (0..extra.len()).collect();
    s.shuffle(&mut perm);
    // perm[j] = index of the extra placed at position j
    let mut pos = vec![0; extra.len()];
    for (j, &e) in perm.iter().enumerate() {
        pos[e] = n_auto + j;
        args.push(extra[e].clone());
    }
    for (i, (k, t, o)) in kinds.iter().enumerate() {
        idents.push(match k {
            0 => spell_ty(s, t, o),
            1 => String::new(),
            _ => match pend[i].unwrap() {
                (false, a) => a.to_string(),
                (true, e) => pos[e].to_string(),
            },
        });
    }
    let phs = kinds.into_iter().zip(idents).map(|((_, ty, opt), ident)| Ph { ident, ty, opt }).collect();
    (args.into_iter().map(|a| a.0).collect(), phs)
}

fn spell_ty(s: &mut Src, t: &Ty, o: &Opt) -> String {
    match (t, o) {
        (Ty::Sc(sc), Opt::Radix(_)) => sc.rust(""),
        (Ty::Sc(sc), _) => sc.spell(s),
        (Ty::User(u), _) => u.rust(""),
    }
}

pub struct FmtCfg {
    pub min: usize,
    pub max: usize,
    pub opts: u64, // out of 10
    /// probability (of 10) of text between two placeholders
    pub sep: u64,
    pub big_lits: bool,
}

pub fn gen_call(s: &mut Src, cfg: &FmtCfg, ty: &mut dyn FnMut(&mut Src) -> Ty) -> Call1 {
    let n = cfg.min + s.small(cfg.max - cfg.min);
    let tys: Vec<(Ty, Opt)> = (0..n)
        .map(|_| {
            let t = ty(s);
            let o = if s.below(10) + cfg.opts >= 10 { gen_opt(s, &t) } else { Opt::None };
            (t, o)
        })
        .collect();
    let mode = *s.pick(&[Bind::Inline, Bind::Auto, Bind::Index, Bind::Mix, Bind::Mix]);
    let (args, phs) = bind(s, &tys, mode);
    let mut parts = vec![];
    let lit = |s: &mut Src, parts: &mut Vec<Part>, p: u64| {
        if s.below(10) < p {
            let t = if cfg.big_lits { big_lit(s) } else { gen_lit(s) };
            parts.push(Part::Lit(t));
        }
    };
    lit(s, &mut parts, 5);
    for (i, p) in phs.into_iter().enumerate() {
        if i > 0 {
            lit(s, &mut parts, cfg.sep);
        }
        parts.push(Part::Ph(p));
    }
    lit(s, &mut parts, 5);
    Call1 { args, fmt: Fmt::new(parts) }
}

const WIDE: &str = "aAzZ09 \t\n\r.+*?()|[]{}^$\\/#&-~\"'`,;:!@%=<>_éßñ日本語😀\u{301}\u{0}\u{1}\u{7f}\u{85}\u{a0}\u{2028}\u{fffd}ıİſKΩ\u{10ffff}x0u{}nrtDdwWsSbBpP";

pub fn big_lit(s: &mut Src) -> String {
    let n = match s.weighted(&[5, 4, 2, 1]) {
        0 => s.range(1, 3),
        1 => s.range(1, 10),
        2 => s.range(5, 40),
        _ => s.range(30, 200),
    };
    let wide: Vec<char> = WIDE.chars().collect();
    let mut t = String::new();
    while t.chars().count() < n {
        match s.weighted(&[6, 1, 1]) {
            0 => t.push(wide[s.idx(wide.len())]),
            1 => t.push((0x20 + s.below(0x5f) as u8) as char),
            _ => t.push_str(*s.pick(LOOKALIKE)),
        }
    }
    t
}

/// texts that mean something to a regex or format parser when not taken literally
const LOOKALIKE: &[&str] = &[
    ".*", "a|b", "[a-z]", "(x)", "(?:y)", "\\d+", "\\", "\\\\", "{}", "{{}}", "{0}", "{u8}", "{:x}", "x{2}", "^", "$", "\\n", "\\x41", "\\u{41}", "\\/", "(?i)A", "#c", "\\p{L}", "a?", "+", "\\b", "}{", "}}", "{{", "\\Q", "&&", "--",
    "~~", "[^a]", "/{:/", ":",
];

// ---------------------------------------------------------------------------------------------
// generic oracle: reference evaluation of the format

pub struct FmtOracle {
    pub fmt: Rc<Fmt>,
    pub fixed: Vec<String>,
    /// probability weights: sample, mutated sample, random, special
    pub w: [u64; 4],
    pub expect: fn(&Out) -> String,
    /// what makes a call non-trivial
    pub trivial_empty: bool,
}

pub fn random_text(s: &mut Src, alpha: &[char], max: usize) -> String {
    let n = s.small(max);
    (0..n).map(|_| alpha[s.idx(alpha.len())]).collect()
}

pub fn gen_input(s: &mut Src, w: &[u64; 4], alpha: &[char], sample: &dyn Fn(&mut Src) -> String) -> String {
    match s.weighted(w) {
        0 => sample(s),
        1 => {
            let t = sample(s);
            mutate(s, &t, alpha)
        }
        2 => random_text(s, alpha, 30),
        _ => {
            let t = sample(s);
            match s.idx(8) {
                0 => String::new(),
                1 => format!("{}\n", t),
                2 => format!("\n{}", t),
                3 => format!("{}{}", t, t),
                4 => format!(" {}", t),
                5 => format!("{} ", t),
                6 => format!("x\n{}\ny", t),
                _ => t.to_uppercase(),
            }
        }
    }
}

impl Oracle for FmtOracle {
    fn input(&self, s: &mut Src) -> String {
        gen_input(s, &self.w, &self.fmt.alpha, &|s| self.fmt.sample(s))
    }
    fn fixed_inputs(&self) -> Vec<String> {
        self.fixed.clone()
    }
    fn judge(&self, input: &str, actual: &str) -> Verdict {
        let out = self.fmt.eval(input);
        let exp = (self.expect)(&out);
        let nontrivial = !input.is_empty() && (out != Out::NoMatch || !self.trivial_empty);
        Verdict::cmp(out.label(), nontrivial, &exp, brief(actual))
    }
}

pub fn fmt_oracle(fmt: Rc<Fmt>, w: [u64; 4]) -> Box<FmtOracle> {
    Box::new(FmtOracle { fmt, fixed: vec![String::new()], w, expect: |o| o.line(), trivial_empty: false })
}

fn simple_case(s: &mut Src, c: Call1, class: String, w: [u64; 4], mac: &str) -> Case {
    let lit = str_lit(s, &c.fmt.text());
    let b = body(mac, &c, &lit);
    let desc = format!("{}!(input, {}{})", mac, lit, c.args_src());
    Case { items: String::new(), body: b, oracle: fmt_oracle(Rc::new(c.fmt), w), desc, class }
}

// ---------------------------------------------------------------------------------------------
// C01

struct LitOracle {
    text: String,
}
impl Oracle for LitOracle {
    fn input(&self, s: &mut Src) -> String {
        let alpha: Vec<char> = WIDE.chars().chain(self.text.chars()).collect();
        gen_input(s, &[3, 8, 1, 3], &alpha, &|_| self.text.clone())
    }
    fn fixed_inputs(&self) -> Vec<String> {
        // every single deletion and a few replacements
        let cs: Vec<char> = self.text.chars().collect();
        let mut v = vec![self.text.clone(), String::new()];
        for i in 0..cs.len().min(24) {
            let mut d = cs.clone();
            let c = d.remove(i);
            v.push(d.iter().collect());
            let mut d = cs.clone();
            d[i] = if c == 'q' { 'r' } else { 'q' };
            v.push(d.iter().collect());
            let mut d = cs.clone();
            d.insert(i, c);
            v.push(d.iter().collect());
        }
        v
    }
    fn judge(&self, input: &str, actual: &str) -> Verdict {
        let exp = if input == self.text { "O:" } else { "M" };
        Verdict::cmp(if exp == "M" { "match_failed" } else { "ok" }, !self.text.is_empty() && !input.is_empty(), exp, brief(actual))
    }
}

struct UnitOracle {
    lit: LitOracle,
    show: String,
}
impl Oracle for UnitOracle {
    fn input(&self, s: &mut Src) -> String {
        self.lit.input(s)
    }
    fn fixed_inputs(&self) -> Vec<String> {
        self.lit.fixed_inputs()
    }
    fn judge(&self, input: &str, actual: &str) -> Verdict {
        let exp = if input == self.lit.text { self.show.as_str() } else { "M" };
        Verdict::cmp(if exp == "M" { "match_failed" } else { "ok" }, !input.is_empty(), exp, brief(actual))
    }
}

pub fn c01(s: &mut Src) -> Case {
    match s.weighted(&[4, 4, 2]) {
        0 => {
            let t = if s.chance(1, 40) { String::new() } else { big_lit(s) };
            let fmt = Fmt::new(vec![Part::Lit(t.clone())]);
            let c = Call1 { args: vec![], fmt };
            let lit = str_lit(s, &c.fmt.text());
            let b = body("sscanf", &c, &lit);
            let class = if lit.starts_with('r') { "text only, raw" } else { "text only, escapes" };
            Case { items: String::new(), body: b, desc: format!("sscanf!(input, {})", lit), oracle: Box::new(LitOracle { text: t }), class: class.into() }
        }
        1 => {
            let (min, max) = if s.chance(1, 4) { (4, 9) } else { (1, 3) };
            let c = gen_call(s, &FmtCfg { min, max, opts: 1, sep: 9, big_lits: true }, &mut |s| Ty::Sc(*s.pick(&[Sc::U(8), Sc::String, Sc::Char, Sc::I(32), Sc::Str, Sc::Bool])));
            simple_case(s, c, "text and placeholders".into(), [4, 8, 1, 3], "sscanf")
        }
        _ => {
            // derive attributes
            let t = big_lit(s);
            let text = dbl(&t);
            let k = s.idx(3);
            let attr = match k {
                0 => {
                    let w = s.chance(2, 3);
                    esc_lit(s, &text, w)
                }
                _ => format!("format = {}", str_lit(s, &text)),
            };
            let (items, show) = if s.chance(1, 2) {
                (format!("#[derive(Debug, ::sscanf::FromScanf)]\n#[sscanf({})]\npub struct S;\n", attr), "O:S")
            } else {
                (format!("#[derive(Debug, ::sscanf::FromScanf)]\npub enum S {{ #[sscanf({})] A }}\n", attr), "O:A")
            };
            let b = "::vrt::fin(::sscanf::sscanf!(input, \"{S}\"), |v: S| format!(\"{:?}\", v))".to_string();
            Case { desc: items.clone(), items, body: b, oracle: Box::new(UnitOracle { lit: LitOracle { text: t }, show: show.into() }), class: "derive attribute".into() }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// C02 round trip

struct RtOracle {
    tys: Vec<(Sc, bool)>, // (type, printed in a radix)
    empty_ok: bool,
}

const RT_SEPS: &[&str] = &[";", "|", " <> ", "(", ")", ", ", " = ", "[", "]", "{", "}", "\\", "/", "$", "^", "*", "?", "#", "&", "~", "@", "!", "\"", "'", "\n", "\t", "日", "...;", "->", "%", "<", ">", "=", "`"];

fn rt_value(s: &mut Src, sc: Sc, radix: bool) -> String {
    match sc {
        Sc::U(w) | Sc::NzU(w) => {
            let v = rt_mag(s, umax(w), bits(w));
            let v = if matches!(sc, Sc::NzU(_)) && v == 0 { 1 } else { v };
            v.to_string()
        }
        Sc::I(w) | Sc::NzI(w) => {
            let v = rt_mag(s, imax(w) as u128, bits(w) - 1) as i128;
            let v = if !radix && s.chance(1, 2) {
                if s.chance(1, 6) {
                    imin(w)
                } else {
                    -v
                }
            } else {
                v
            };
            let v = if matches!(sc, Sc::NzI(_)) && v == 0 { 1 } else { v };
            v.to_string()
        }
        Sc::F32 => {
            let b = match s.weighted(&[4, 2, 2]) {
                0 => s.bits() as u32,
                1 => ((s.below(2000) as f32 - 1000.0) / 8.0).to_bits(),
                _ => s.pick(&[0f32, -0f32, f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1e-45, 0.1, 1e10]).to_bits(),
            };
            b.to_string()
        }
        Sc::F64 => {
            let b = match s.weighted(&[4, 2, 2]) {
                0 => s.bits(),
                1 => ((s.below(200000) as f64 - 100000.0) / 64.0).to_bits(),
                _ => s.pick(&[0f64, -0f64, f64::MAX, f64::MIN, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 5e-324, 0.1, 1e300]).to_bits(),
            };
            b.to_string()
        }
        Sc::Bool => s.pick(&["true", "false"]).to_string(),
        Sc::Char => s.pick(&["a", "Z", "0", "é", "ß", "字", "\u{1F600}", "_", "\u{301}", "Ω", "\u{10FFFF}", "-", "+", "."]).to_string(),
        _ => {
            let n = 1 + s.small(30);
            (0..n).map(|_| *s.pick(&['a', 'b', 'Z', '0', '9', 'é', 'ß', '_', '-', '.', ' ', '字', '\u{1F600}', '+', 'e', 'x'])).collect()
        }
    }
}

fn rt_mag(s: &mut Src, max: u128, bits: u32) -> u128 {
    match s.weighted(&[5, 2, 2]) {
        0 => {
            let b = s.below(bits as u64 + 1) as u32;
            let v = ((s.bits() as u128) << 64) | s.bits() as u128;
            if b == 0 {
                0
            } else {
                v & (u128::MAX >> (128 - b)) & max
            }
        }
        1 => *s.pick(&[max, max - 1, max / 2, 0, 1]),
        _ => s.below(300) as u128 & max,
    }
}

impl Oracle for RtOracle {
    fn input(&self, s: &mut Src) -> String {
        self.tys.iter().map(|&(t, r)| rt_value(s, t, r)).collect::<Vec<_>>().join("\u{1f}")
    }
    fn judge(&self, input: &str, actual: &str) -> Verdict {
        Verdict::cmp("round_trip", !input.is_empty() || self.empty_ok, "O:same", actual)
    }
    fn shrink_inputs(&self) -> bool {
        false
    }
}

pub fn c02(s: &mut Src) -> Case {
    let n = 1 + s.small(9);
    let mut tys = vec![];
    let mut parts_fmt = String::new(); // for format!
    let mut parts_scan = String::new(); // for sscanf!
    let mut args_scan: Vec<String> = vec![];
    let shared = s.chance(1, 2); // literally the same format string
    let mut body = String::from("let mut it = input.split('\\u{1f}');\n");
    let mut cmp = vec![];
    let sep0 = s.chance(1, 2);
    let mut used = vec![];
    let push = |a: &mut String, b: &mut String, t: &str| {
        a.push_str(&dbl(t));
        b.push_str(&dbl(t));
    };
    if sep0 {
        let t: String = (0..s.range(1, 3)).map(|_| *s.pick(RT_SEPS)).collect();
        push(&mut parts_fmt, &mut parts_scan, &t);
    }
    for i in 0..n {
        let sc = match gen_sc(s, true) {
            Sc::Path => Sc::String,
            x => x,
        };
        let mut radix = false;
        let mut opt = String::new();
        if sc.is_plain_int() && s.chance(1, 2) {
            radix = true;
            opt = format!(":{}", s.pick(&["x", "#x", "o", "#o", "b", "#b"]));
        }
        let (disp, parse) = match sc {
            Sc::F32 => ("f32".to_string(), "f32::from_bits(it.next().unwrap().parse().unwrap())".to_string()),
            Sc::F64 => ("f64".to_string(), "f64::from_bits(it.next().unwrap().parse().unwrap())".to_string()),
            Sc::Str => ("&str".into(), "it.next().unwrap()".into()),
            Sc::Cow => (sc.rust(""), "::std::borrow::Cow::from(it.next().unwrap())".into()),
            _ => (sc.rust(""), format!("it.next().unwrap().parse::<{}>().unwrap()", sc.rust(""))),
        };
        body.push_str(&format!("let v{}: {} = {};\n", i, disp, parse));
        parts_fmt.push_str(&format!("{{{}}}", opt));
        if shared {
            parts_scan.push_str(&format!("{{{}}}", opt));
            args_scan.push(sc.rust(""));
        } else {
            parts_scan.push_str(&format!("{{{}{}}}", sc.rust(""), opt));
        }
        cmp.push(match sc {
            Sc::F32 | Sc::F64 => format!("(a{0}.to_bits() == v{0}.to_bits() || a{0}.is_nan() && v{0}.is_nan())", i),
            _ => format!("a{0} == v{0}", i),
        });
        tys.push((sc, radix));
        used.push(sc);
        if i + 1 < n || s.chance(1, 2) {
            let t: String = (0..s.range(1, 3)).map(|_| *s.pick(RT_SEPS)).collect();
            push(&mut parts_fmt, &mut parts_scan, &t);
        }
    }
    let lf = if shared { str_lit(s, &parts_fmt) } else { esc_lit(s, &parts_fmt, false) };
    let ls = if shared { lf.clone() } else { str_lit(s, &parts_scan) };
    let vs: Vec<String> = (0..n).map(|i| format!("v{}", i)).collect();
    let pat = if n == 1 { "a0".to_string() } else { format!("({})", (0..n).map(|i| format!("a{}", i)).collect::<Vec<_>>().join(", ")) };
    body.push_str(&format!("let text: String = format!({}, {});\n", lf, vs.join(", ")));
    let args: String = args_scan.iter().map(|a| format!(", {}", a)).collect();
    body.push_str(&format!(
        "match ::sscanf::sscanf!(text, {}{}) {{\nOk({}) => if {} {{ \"O:same\".to_string() }} else {{ format!(\"different value from {{:?}}\", text) }},\nErr(e) => format!(\"{{}} on {{:?}}\", ::vrt::show_err(&e), text),\n}}",
        ls,
        args,
        pat,
        cmp.join(" && ")
    ));
    let class = format!("{} placeholders{}", n, if tys.iter().any(|t| t.1) { ", radix" } else { "" });
    Case { items: String::new(), body, desc: format!("format!({}) then sscanf!({}{})", lf, ls, args), oracle: Box::new(RtOracle { tys, empty_ok: false }), class }
}

// ---------------------------------------------------------------------------------------------
// C03 .. C08

pub fn nph(n: usize) -> String {
    match n {
        0..=1 => n.to_string(),
        2..=4 => "2-4".into(),
        5..=8 => "5-8".into(),
        _ => "9+".into(),
    }
}

pub fn c03(s: &mut Src) -> Case {
    let sep = *s.pick(&[8, 4, 0, 10]);
    let c = gen_call(s, &FmtCfg { min: 1, max: 10, opts: 1, sep, big_lits: false }, &mut |s| Ty::Sc(gen_sc(s, true)));
    let class = format!("{} placeholders, separators {}/10", nph(c.fmt.phs().count()), sep);
    simple_case(s, c, class, [5, 5, 2, 1], "sscanf")
}

pub fn c04(s: &mut Src) -> Case {
    let many = s.chance(1, 3);
    let cfg = FmtCfg { min: if many { 9 } else { 1 }, max: if many { 26 } else { 8 }, opts: 2, sep: 9, big_lits: false };
    // few distinct types, so that indices are reused
    let pool: Vec<Sc> = (0..s.range(1, 5)).map(|_| gen_sc(s, true)).collect();
    let c = gen_call(s, &cfg, &mut |s| Ty::Sc(*s.pick(&pool)));
    let idx = c.fmt.phs().filter(|p| p.ident.parse::<usize>().is_ok()).count();
    let auto = c.fmt.phs().filter(|p| p.ident.is_empty()).count();
    let n = c.fmt.phs().count();
    let class = format!(
        "{} placeholders{}{}{}",
        nph(n),
        if idx > 0 { ", indexed" } else { "" },
        if auto > 0 { ", auto" } else { "" },
        if idx + auto < n { ", inline" } else { "" }
    );
    simple_case(s, c, class, [8, 3, 0, 1], "sscanf")
}

pub fn c05(s: &mut Src) -> Case {
    let n = s.weighted(&[0, 8, 2, 1]);
    let mut names = vec![];
    let tys: Vec<(Ty, Opt)> = (0..n)
        .map(|_| {
            let w = *s.pick(&INT_WIDTHS);
            let sc = match s.weighted(&[4, 4, 3, 3]) {
                0 => Sc::U(w),
                1 => Sc::I(w),
                2 => Sc::NzU(w),
                _ => Sc::NzI(w),
            };
            names.push(sc.rust("").rsplit("::").next().unwrap().to_string());
            (Ty::Sc(sc), Opt::None)
        })
        .collect();
    let (args, phs) = bind(s, &tys, if n == 1 { Bind::Inline } else { Bind::Auto });
    let mut parts = vec![];
    for p in phs {
        if s.chance(1, 3) {
            parts.push(Part::Lit(s.pick(&[",", " ", "x", "-", "+", "0", "1"]).to_string()));
        }
        parts.push(Part::Ph(p));
    }
    let c = Call1 { args, fmt: Fmt::new(parts) };
    let class = if n == 1 { names[0].clone() } else { "several adjacent integers".into() };
    let lit = str_lit(s, &c.fmt.text());
    let b = body("sscanf", &c, &lit);
    let desc = format!("sscanf!(input, {}{})", lit, c.args_src());
    let mut o = fmt_oracle(Rc::new(c.fmt), [12, 3, 1, 1]);
    if n == 1 && o.fmt.parts.len() == 1 {
        // the limits, exhaustively, in every run
        let sc = tys[0].0.sc().unwrap();
        let (w, signed) = match sc {
            Sc::U(w) | Sc::NzU(w) => (w, false),
            Sc::I(w) | Sc::NzI(w) => (w, true),
            _ => unreachable!(),
        };
        let hi = if signed { imax(w) as u128 } else { umax(w) }.to_string();
        let lo = dec_plus1(&(imax(w) as u128).to_string());
        for m in ["0", "1", "00", "01", "7", "10", &hi, &dec_plus1(&hi), &lo, &dec_plus1(&lo), &format!("0{}", hi), &format!("1{}", hi), &"9".repeat(hi.len()), &"9".repeat(hi.len() + 1)] {
            for sg in ["", "+", "-"] {
                o.fixed.push(format!("{}{}", sg, m));
            }
        }
        if bits(w) == 8 {
            for v in 0..1100 {
                o.fixed.push(v.to_string());
                o.fixed.push(format!("-{}", v));
            }
        }
    }
    Case { items: String::new(), body: b, desc, oracle: o, class }
}

pub fn c06(s: &mut Src) -> Case {
    let n = match s.weighted(&[6, 3, 1]) {
        0 => 1,
        1 => 2,
        _ => s.range(3, 5),
    };
    let tys: Vec<(Ty, Opt)> = (0..n)
        .map(|_| {
            let w = *s.pick(&INT_WIDTHS);
            let sc = if s.chance(1, 2) { Sc::I(w) } else { Sc::U(w) };
            (Ty::Sc(sc), Opt::Radix(Radix::gen(s)))
        })
        .collect();
    let mode = *s.pick(&[Bind::Inline, Bind::Auto, Bind::Mix]);
    let (args, phs) = bind(s, &tys, mode);
    let mut parts = vec![];
    let sep = s.idx(3);
    for (i, p) in phs.into_iter().enumerate() {
        if i > 0 && sep == 0 || s.chance(1, 6) {
            parts.push(Part::Lit(s.pick(&[",", " ", "x", "-", "+", "0", "a", "0x", "z", "{"]).to_string()));
        }
        parts.push(Part::Ph(p));
    }
    let class = match &tys[0].1 {
        Opt::Radix(r) if n == 1 => format!("{}{}", if r.letter == 'r' { "rN".to_string() } else { r.letter.to_string() }, if r.forced { "#" } else { "" }),
        _ => format!("{} placeholders", nph(n)),
    };
    let c = Call1 { args, fmt: Fmt::new(parts) };
    let mut fixed = vec![String::new()];
    if n == 1 && c.fmt.parts.len() == 1 {
        if let (Some(sc), Opt::Radix(r)) = (tys[0].0.sc(), &tys[0].1) {
            let (w, signed) = int_of(sc);
            // all single characters around the digits, and the limits
            for b in 0x2a..0x7f_u8 {
                fixed.push((b as char).to_string());
            }
            let pre = if r.letter == 'r' { String::new() } else { format!("0{}", r.letter) };
            let hi = if signed { imax(w) as u128 } else { umax(w) };
            let mut mags = vec![r.print(0), r.print(1), r.print(hi), r.print(hi - 1), r.print(umax(w)), "0".repeat(r.ndigits(w)), "0".repeat(r.ndigits(w) + 1)];
            if hi < u128::MAX {
                mags.push(r.print(hi + 1));
            }
            if hi < u128::MAX - 1 {
                mags.push(r.print(hi + 2));
            }
            let top = std::char::from_digit(r.radix - 1, r.radix).unwrap().to_string();
            mags.push(top.repeat(r.ndigits(w)));
            mags.push(top.repeat(r.ndigits(w) + 1));
            for m in mags {
                for sg in ["", "+", "-"] {
                    for p in ["", &pre, &pre.to_ascii_uppercase()] {
                        fixed.push(format!("{}{}{}", sg, p, m));
                        fixed.push(format!("{}{}{}", sg, p, m.to_ascii_uppercase()));
                    }
                }
            }
        }
    }
    let lit = str_lit(s, &c.fmt.text());
    let b = body("sscanf", &c, &lit);
    let desc = format!("sscanf!(input, {}{})", lit, c.args_src());
    let mut o = fmt_oracle(Rc::new(c.fmt), [10, 4, 1, 1]);
    fixed.sort();
    fixed.dedup();
    o.fixed = fixed;
    Case { items: String::new(), body: b, desc, oracle: o, class }
}

struct FloatOracle {
    inner: FmtOracle,
}
impl Oracle for FloatOracle {
    fn input(&self, s: &mut Src) -> String {
        self.inner.input(s)
    }
    fn fixed_inputs(&self) -> Vec<String> {
        self.inner.fixed.clone()
    }
    fn judge(&self, input: &str, actual: &str) -> Verdict {
        let out = self.inner.fmt.eval(input);
        let exp = match &out {
            Out::Ok(v) => format!(
                "O:{}",
                v.iter()
                    .map(|v| match v {
                        Val::F32(x) => format!("{:x}", x.to_bits()),
                        Val::F64(x) => format!("{:x}", x.to_bits()),
                        _ => unreachable!(),
                    })
                    .collect::<Vec<_>>()
                    .join("\u{1e}")
            ),
            o => o.line(),
        };
        Verdict::cmp(out.label(), !input.is_empty(), &exp, brief(actual))
    }
}

pub fn c07(s: &mut Src) -> Case {
    let n = s.weighted(&[0, 6, 3, 1]);
    let tys: Vec<(Ty, Opt)> = (0..n).map(|_| (Ty::Sc(*s.pick(&[Sc::F64, Sc::F32])), Opt::None)).collect();
    let (args, phs) = bind(s, &tys, if n == 1 { Bind::Inline } else { Bind::Auto });
    let mut parts = vec![];
    for p in phs {
        if s.chance(1, 3) {
            parts.push(Part::Lit(s.pick(&[",", " ", "x", "-", "+", "0", "e", ".", "inf"]).to_string()));
        }
        parts.push(Part::Ph(p));
    }
    let c = Call1 { args, fmt: Fmt::new(parts) };
    let lit = str_lit(s, &c.fmt.text());
    let b = format!(
        "let r: Result<{}, ::sscanf::Error> = ::sscanf::sscanf!(input, {}{});\n::vrt::fin(r, {})",
        c.result_ty(),
        lit,
        c.args_src(),
        show(n, "{:x}").replace("\", a", "\", a").replace("a0)", "a0.to_bits())").replace("a1)", "a1.to_bits())").replace("a2)", "a2.to_bits())").replace("|(a0, a1.to_bits())|", "|(a0, a1)|").replace("|(a0, a1, a2.to_bits())|", "|(a0, a1, a2)|")
    );
    let desc = format!("sscanf!(input, {}{})", lit, c.args_src());
    let class = format!("{} floats", n);
    let mut o = *fmt_oracle(Rc::new(c.fmt), [12, 4, 1, 1]);
    if o.fmt.parts.len() == 1 {
        for m in ["0", "0.", ".0", ".", "1e1", "1E+1", "1e-1", "1e", "e1", "inf", "INF", "Infinity", "infinit", "nan", "NaN", "nAN", "1.5", "1.5.", "1_0", "0x1", "1f32", "1.5e3.2", ".5e1", "5.e1", "+.e1", "9".repeat(400).as_str(), "1e99999", "0.1e-99999", "infinityy", "in", "nan1"] {
            for sg in ["", "+", "-", "--", " "] {
                o.fixed.push(format!("{}{}", sg, m));
            }
        }
    }
    Case { items: String::new(), body: b, desc, oracle: Box::new(FloatOracle { inner: o }), class }
}

pub fn c08(s: &mut Src) -> Case {
    let n = match s.weighted(&[5, 3, 2]) {
        0 => 1,
        1 => 2,
        _ => s.range(3, 6),
    };
    let mut toplevel_alt = false;
    let tys: Vec<(Ty, Opt)> = (0..n)
        .map(|_| {
            let t = match s.weighted(&[8, 3, 1]) {
                0 => Ty::Sc(*s.pick(&[Sc::String, Sc::Str, Sc::Cow, Sc::Path])),
                1 => {
                    let t = Ty::Sc(gen_sc(s, true));
                    return if matches!(t.sc(), Some(sc) if sc.is_plain_int()) && s.chance(2, 3) { (t, Opt::Re(int_rx(s))) } else { (t, Opt::Re(rx::gen_opt(s, true))) };
                }
                _ => {
                    let t = Ty::Sc(gen_sc(s, true));
                    return (t, Opt::None);
                }
            };
            let r = rx::gen_opt(s, true);
            if matches!(r, rx::Rx::Alt(_)) {
                toplevel_alt = true;
            }
            (t, Opt::Re(r))
        })
        .collect();
    let mode = *s.pick(&[Bind::Inline, Bind::Auto, Bind::Mix]);
    let (args, phs) = bind(s, &tys, mode);
    let mut parts = vec![];
    for (i, p) in phs.into_iter().enumerate() {
        if i > 0 && s.chance(1, 2) || s.chance(1, 4) {
            parts.push(Part::Lit(gen_lit(s)));
        }
        parts.push(Part::Ph(p));
    }
    if s.chance(1, 3) {
        parts.push(Part::Lit(gen_lit(s)));
    }
    let class = format!("{} placeholders{}", nph(n), if toplevel_alt { ", top-level alternation" } else { "" });
    simple_case(s, Call1 { args, fmt: Fmt::new(parts) }, class, [8, 4, 1, 1], "sscanf")
}

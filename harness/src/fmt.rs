//! Format strings: AST, source spelling, reference matcher, samplers.
use crate::rx::{self, Rx};
use crate::src::Src;
use crate::types::*;
use crate::user::User;
use regex::Regex;
use std::rc::Rc;

#[derive(Clone)]
pub enum Ty {
    Sc(Sc),
    User(Rc<User>),
}

impl Ty {
    pub fn rust(&self, lt: &str) -> String {
        match self {
            Ty::Sc(s) => s.rust(lt),
            Ty::User(u) => u.rust(lt),
        }
    }
    pub fn decl(&self, s: &mut Src) -> String {
        match self {
            Ty::Sc(c) => c.decl(s),
            Ty::User(u) => u.rust("'a "),
        }
    }
    pub fn regex(&self) -> String {
        match self {
            Ty::Sc(s) => s.regex(),
            Ty::User(u) => u.regex(),
        }
    }
    pub fn parse(&self, t: &str) -> Result<Val, EInfo> {
        match self {
            Ty::Sc(s) => s.parse(t).map_err(|e| EInfo { wrap: if matches!(s, Sc::NzU(_) | Sc::NzI(_)) { vec![] } else { vec![s.rust("").rsplit("::").next().unwrap().to_string()] }, leaf: e }),
            Ty::User(u) => u.parse(t),
        }
    }
    pub fn sample(&self, s: &mut Src, alpha: &[char]) -> String {
        match self {
            Ty::Sc(sc) => sc.sample(s, alpha),
            Ty::User(u) => u.sample(s, alpha),
        }
    }
    pub fn sc(&self) -> Option<Sc> {
        match self {
            Ty::Sc(s) => Some(*s),
            _ => None,
        }
    }
    pub fn borrows(&self) -> bool {
        match self {
            Ty::Sc(s) => s.borrows(),
            Ty::User(u) => u.lt,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Radix {
    pub radix: u32,
    /// 'x', 'o', 'b' or 'r'
    pub letter: char,
    pub forced: bool,
    pub text: String,
}

impl Radix {
    pub fn gen(s: &mut Src) -> Radix {
        match s.weighted(&[3, 2, 2, 6]) {
            0 => Radix::letter('x', s),
            1 => Radix::letter('o', s),
            2 => Radix::letter('b', s),
            _ => {
                let r = s.range(2, 36) as u32;
                Radix { radix: r, letter: 'r', forced: false, text: format!("r{}", r) }
            }
        }
    }
    pub fn r(r: u32) -> Radix {
        Radix { radix: r, letter: 'r', forced: false, text: format!("r{}", r) }
    }
    pub fn letter(c: char, s: &mut Src) -> Radix {
        let forced = s.chance(1, 3);
        let text = if !forced {
            c.to_string()
        } else if s.chance(1, 2) {
            format!("{}#", c)
        } else {
            format!("#{}", c)
        };
        let radix = match c {
            'x' => 16,
            'o' => 8,
            _ => 2,
        };
        Radix { radix, letter: c, forced, text }
    }
    pub fn ndigits(&self, w: u16) -> usize {
        let mut v = umax(w);
        let mut n = 0;
        while v > 0 {
            v /= self.radix as u128;
            n += 1;
        }
        n
    }
    /// the documented pattern, spelled without case-insensitive groups
    pub fn regex(&self, w: u16, signed: bool) -> String {
        let sign = if signed { "[-+]?" } else { r"\+?" };
        let mut cls = String::new();
        for d in 0..self.radix {
            let c = std::char::from_digit(d, self.radix).unwrap();
            cls.push(c);
            if c.is_ascii_alphabetic() {
                cls.push(c.to_ascii_uppercase());
            }
        }
        let pre = match (self.letter, self.forced) {
            ('r', _) => String::new(),
            (c, true) => format!("0[{}{}]", c, c.to_ascii_uppercase()),
            (c, false) => format!("(?:0[{}{}])?", c, c.to_ascii_uppercase()),
        };
        format!("{}{}[{}]{{1,{}}}", sign, pre, cls, self.ndigits(w))
    }
    pub fn parse(&self, w: u16, signed: bool, t: &str) -> Result<Val, String> {
        let (neg, rest) = match t.as_bytes().first() {
            Some(b'-') => (true, &t[1..]),
            Some(b'+') => (false, &t[1..]),
            _ => (false, t),
        };
        let b = rest.as_bytes();
        let rest = if self.letter != 'r' && b.len() >= 2 && b[0] == b'0' && (b[1] as char).to_ascii_lowercase() == self.letter {
            &rest[2..]
        } else {
            rest
        };
        let mut v: Option<u128> = Some(0);
        for c in rest.chars() {
            let d = c.to_digit(self.radix).ok_or("invalid digit found in string")? as u128;
            v = v.and_then(|v| v.checked_mul(self.radix as u128)).and_then(|v| v.checked_add(d));
        }
        if rest.is_empty() {
            return Err("cannot parse integer from empty string".into());
        }
        if !signed {
            match v {
                Some(v) if v <= umax(w) => Ok(Val::U(v)),
                _ => Err("number too large to fit in target type".into()),
            }
        } else if neg {
            match v {
                Some(v) if v <= imax(w) as u128 + 1 => Ok(Val::I((v as i128).wrapping_neg())),
                _ => Err("number too small to fit in target type".into()),
            }
        } else {
            match v {
                Some(v) if v <= imax(w) as u128 => Ok(Val::I(v as i128)),
                _ => Err("number too large to fit in target type".into()),
            }
        }
    }
    pub fn print(&self, mut v: u128) -> String {
        let mut out = vec![];
        loop {
            out.push(std::char::from_digit((v % self.radix as u128) as u32, self.radix).unwrap());
            v /= self.radix as u128;
            if v == 0 {
                break;
            }
        }
        out.iter().rev().collect()
    }
    pub fn sample(&self, w: u16, signed: bool, s: &mut Src) -> String {
        let n = self.ndigits(w);
        let mut mag = match s.weighted(&[5, 5, 4, 2]) {
            0 => {
                let b = s.below(bits(w) as u64 + 1) as u32;
                let v = ((s.bits() as u128) << 64 | s.bits() as u128) & if b == 0 { 0 } else { u128::MAX >> (128 - b) };
                self.print(v)
            }
            1 => {
                let lim = if signed { imax(w) as u128 } else { umax(w) };
                let v = match s.below(5) {
                    0 => lim,
                    1 => lim.saturating_add(1),
                    2 => lim - 1,
                    3 => lim.saturating_add(2),
                    _ => umax(w),
                };
                self.print(v)
            }
            2 => {
                let k = match s.weighted(&[2, 2, 2]) {
                    0 => s.range(1, n),
                    1 => n,
                    _ => n + s.range(1, 2),
                };
                let hi = s.chance(1, 3);
                (0..k)
                    .map(|_| {
                        let d = if hi { self.radix - 1 } else { s.below(self.radix as u64) as u32 };
                        std::char::from_digit(d, self.radix).unwrap()
                    })
                    .collect()
            }
            _ => {
                // one digit that does not belong to the radix
                let k = s.range(1, n.min(6));
                let mut t: Vec<char> = (0..k).map(|_| std::char::from_digit(s.below(self.radix as u64) as u32, self.radix).unwrap()).collect();
                let bad = match self.radix {
                    36 => *s.pick(&['{', '@', '/', ':', '`', '[', 'K', 'ſ', '_', '٣']),
                    r => {
                        let c = std::char::from_digit(r, 36).unwrap();
                        *s.pick(&[c, c.to_ascii_uppercase(), '@', '/', ':', '`', 'K', 'ſ', '_', '٣'])
                    }
                };
                let i = s.idx(t.len() + 1);
                t.insert(i, bad);
                t.into_iter().collect()
            }
        };
        match s.weighted(&[4, 2, 2]) {
            0 => {}
            1 => mag = mag.to_ascii_uppercase(),
            _ => mag = mag.chars().map(|c| if s.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect(),
        }
        if s.chance(1, 8) {
            let z = s.range(1, 3);
            mag = format!("{}{}", "0".repeat(z), mag);
        }
        let pre = match self.letter {
            'r' => s.pick(&["", "", "", "", "", "0x", "0b", "0o"]).to_string(),
            c => {
                let p = format!("0{}", c);
                let up = p.to_ascii_uppercase();
                let none = if self.forced { 1 } else { 4 };
                match s.weighted(&[none, 4, 2, 1]) {
                    0 => String::new(),
                    1 => p,
                    2 => up,
                    _ => s.pick(&["0", "0x", "0b", "0o", "x", "00x", "0x0x", "0b0b", "0o0o"]).to_string(),
                }
            }
        };
        let sign = match s.weighted(&[6, 2, 3, 1]) {
            0 => "",
            1 => "+",
            2 => "-",
            _ => *s.pick(&["--", "+-", "-+", "- "]),
        };
        let sign = if sign == "-" && !signed && s.chance(2, 3) { "" } else { sign };
        if s.chance(1, 30) {
            return format!("{}{}{}", pre, sign, mag);
        }
        format!("{}{}{}", sign, pre, mag)
    }
}

#[derive(Clone)]
pub enum Opt {
    None,
    Radix(Radix),
    Re(Rx),
}

#[derive(Clone)]
pub struct Ph {
    /// the text before the ':'
    pub ident: String,
    pub ty: Ty,
    pub opt: Opt,
}

impl Ph {
    pub fn new(ident: &str, ty: Ty) -> Ph {
        Ph { ident: ident.into(), ty, opt: Opt::None }
    }
    pub fn text(&self) -> String {
        match &self.opt {
            Opt::None => format!("{{{}}}", self.ident),
            Opt::Radix(r) => format!("{{{}:{}}}", self.ident, r.text),
            Opt::Re(r) => format!("{{{}:/{}/}}", self.ident, rx::slash_escape(&r.text())),
        }
    }
    pub fn regex(&self) -> String {
        match &self.opt {
            Opt::None => self.ty.regex(),
            Opt::Radix(r) => {
                let (w, sg) = int_of(self.ty.sc().unwrap());
                r.regex(w, sg)
            }
            Opt::Re(r) => r.src(),
        }
    }
    pub fn parse(&self, t: &str) -> Result<Val, EInfo> {
        match &self.opt {
            Opt::Radix(r) => {
                let (w, sg) = int_of(self.ty.sc().unwrap());
                r.parse(w, sg, t).map_err(|e| EInfo { wrap: vec![], leaf: e })
            }
            _ => self.ty.parse(t),
        }
    }
    pub fn sample(&self, s: &mut Src, alpha: &[char]) -> String {
        match &self.opt {
            Opt::None => self.ty.sample(s, alpha),
            Opt::Radix(r) => {
                let (w, sg) = int_of(self.ty.sc().unwrap());
                r.sample(w, sg, s)
            }
            Opt::Re(r) => r.sample(s),
        }
    }
}

pub fn int_of(sc: Sc) -> (u16, bool) {
    match sc {
        Sc::U(w) => (w, false),
        Sc::I(w) => (w, true),
        _ => panic!("radix on a non-integer"),
    }
}

#[derive(Clone)]
pub enum Part {
    Lit(String),
    /// unescaped formats only
    Rx(Rx),
    Ph(Ph),
}

pub struct Fmt {
    pub parts: Vec<Part>,
    pub alpha: Vec<char>,
    re: Regex,
}

pub fn dbl(t: &str) -> String {
    t.replace('{', "{{").replace('}', "}}")
}

/// a regex for a literal text that does not rely on escaping rules
pub fn lit_regex(t: &str) -> String {
    t.chars().map(|c| format!("\\x{{{:x}}}", c as u32)).collect()
}

pub const BASE_ALPHA: &str = "a1 -+.0xb{}e,é日/\\:\n\r";

impl Fmt {
    pub fn new(parts: Vec<Part>) -> Fmt {
        let mut alpha: Vec<char> = BASE_ALPHA.chars().collect();
        for p in &parts {
            if let Part::Lit(t) = p {
                alpha.extend(t.chars().take(12));
            }
        }
        let re = Regex::new(&format!(r"\A(?:{})\z", Fmt::regex_of(&parts, true)))
            .unwrap_or_else(|e| panic!("reference regex: {}", e));
        Fmt { parts, alpha, re }
    }

    pub fn phs(&self) -> impl Iterator<Item = &Ph> {
        self.parts.iter().filter_map(|p| match p {
            Part::Ph(p) => Some(p),
            _ => None,
        })
    }

    /// the value of the format string literal
    pub fn text(&self) -> String {
        self.parts
            .iter()
            .map(|p| match p {
                Part::Lit(t) => dbl(t),
                Part::Rx(r) => dbl(&r.src()),
                Part::Ph(p) => p.text(),
            })
            .collect()
    }

    fn regex_of(parts: &[Part], named: bool) -> String {
        let mut n = 0;
        parts
            .iter()
            .map(|p| match p {
                Part::Lit(t) => lit_regex(t),
                Part::Rx(r) => match r {
                    Rx::Alt(_) => format!("(?:{})", r.src()),
                    _ => r.src(),
                },
                Part::Ph(p) if named => {
                    n += 1;
                    format!("(?P<p{}>{})", n - 1, p.regex())
                }
                Part::Ph(p) => format!("(?:{})", p.regex()),
            })
            .collect()
    }

    pub fn regex(&self) -> String {
        Fmt::regex_of(&self.parts, false)
    }

    /// texts of the placeholders
    pub fn run<'t>(&self, input: &'t str) -> Option<Vec<&'t str>> {
        let c = self.re.captures(input)?;
        Some(self.phs().enumerate().map(|(i, _)| c.name(&format!("p{}", i)).expect("mandatory group").as_str()).collect())
    }

    pub fn sample(&self, s: &mut Src) -> String {
        self.sample_with(s, &self.alpha)
    }
    pub fn sample_with(&self, s: &mut Src, alpha: &[char]) -> String {
        self.parts
            .iter()
            .map(|p| match p {
                Part::Lit(t) => t.clone(),
                Part::Rx(r) => r.sample(s),
                Part::Ph(p) => p.sample(s, alpha),
            })
            .collect()
    }

    /// reference result of sscanf!() with this format
    pub fn eval(&self, input: &str) -> Out {
        match self.run(input) {
            None => Out::NoMatch,
            Some(ts) => {
                let mut vals = vec![];
                for (p, t) in self.phs().zip(ts) {
                    match p.parse(t) {
                        Ok(v) => vals.push(v),
                        Err(e) => return Out::Parse(e),
                    }
                }
                Out::Ok(vals)
            }
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Ok(Vec<Val>),
    NoMatch,
    Parse(EInfo),
}

impl Out {
    /// what the generated program prints (error details left out)
    pub fn line(&self) -> String {
        match self {
            Out::Ok(v) => format!("O:{}", v.iter().map(|v| v.dbg()).collect::<Vec<_>>().join("\u{1e}")),
            Out::NoMatch => "M".into(),
            Out::Parse(_) => "P".into(),
        }
    }
    pub fn label(&self) -> &'static str {
        match self {
            Out::Ok(_) => "ok",
            Out::NoMatch => "match_failed",
            Out::Parse(_) => "parsing_failed",
        }
    }
}

/// Rust source of a string literal with value `t`: raw, plain or with random escape spellings
pub fn str_lit(s: &mut Src, t: &str) -> String {
    let raw_ok = !t.contains('\r');
    let mode = s.weighted(&[3, 3, 4]);
    if mode == 1 && raw_ok {
        return raw_lit(s, t);
    }
    esc_lit(s, t, mode == 2)
}

pub fn raw_lit(s: &mut Src, t: &str) -> String {
    let mut h = 0;
    while t.contains(&format!("\"{}", "#".repeat(h))) {
        h += 1;
    }
    if s.chance(1, 3) {
        h += 1;
    }
    format!("r{0}\"{1}\"{0}", "#".repeat(h), t)
}

/// non-raw literal; `wild` uses escapes for characters that do not need them (outside placeholders
/// only, where `t` is inside braces everything is spelled plainly)
pub fn esc_lit(s: &mut Src, t: &str, wild: bool) -> String {
    let mut out = String::from("\"");
    let mut depth = 0usize; // inside a placeholder
    let cs: Vec<char> = t.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let mut esc_ok = wild && depth == 0;
        if depth == 0 && (c == '{' || c == '}') {
            if cs.get(i + 1) == Some(&c) {
                // doubled brace: sometimes written with an escape
                for _ in 0..2 {
                    if wild && s.chance(1, 6) {
                        out.push_str(&format!("\\x{:02x}", c as u32));
                    } else {
                        out.push(c);
                    }
                }
                i += 2;
                continue;
            } else if c == '{' {
                depth = 1;
                esc_ok = false;
            }
        } else if depth > 0 && c == '}' && placeholder_ends(&cs, i) {
            depth = 0;
            esc_ok = false;
        }
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\r' => out.push_str(if wild && s.chance(1, 3) { *s.pick(&["\\x0d", "\\x0D", "\\u{d}", "\\u{00_0D}"]) } else { "\\r" }),
            '\n' if !wild || s.chance(1, 2) => out.push_str("\\n"),
            c if esc_ok && s.chance(1, 4) => {
                let u = c as u32;
                match s.idx(3) {
                    0 if u < 0x80 => out.push_str(&format!("\\x{:02x}", u)),
                    1 => out.push_str(&format!("\\u{{{:04X}}}", u)),
                    2 if c == '\t' => out.push_str("\\t"),
                    2 if c == '\'' => out.push_str("\\'"),
                    2 if c == '\0' => out.push_str("\\0"),
                    _ => out.push_str(&format!("\\u{{{:x}}}", u)),
                }
            }
            c => out.push(c),
        }
        // a line continuation is dropped together with the blanks that follow it
        if wild && depth == 0 && s.chance(1, 40) {
            match cs.get(i + 1) {
                Some(n) if n.is_whitespace() => {}
                Some('{') | Some('}') => {}
                _ => out.push_str("\\\n   "),
            }
        }
        i += 1;
    }
    out.push('"');
    out
}

/// whether the '}' at `i` ends the placeholder (it does not inside `:/.../`)
fn placeholder_ends(cs: &[char], i: usize) -> bool {
    // find the start of the placeholder by scanning the whole text again
    let mut j = 0;
    while j < cs.len() {
        if cs[j] == '{' && cs.get(j + 1) == Some(&'{') || cs[j] == '}' {
            j += 2;
            continue;
        }
        if cs[j] == '{' {
            let mut k = j + 1;
            let mut end = None;
            while k < cs.len() {
                if cs[k] == '}' {
                    end = Some(k);
                    break;
                }
                if cs[k] == ':' && cs.get(k + 1) == Some(&':') {
                    k += 2;
                    continue;
                }
                if cs[k] == ':' && cs.get(k + 1) == Some(&'/') {
                    k += 2;
                    while k < cs.len() && cs[k] != '/' {
                        k += if cs[k] == '\\' { 2 } else { 1 };
                    }
                    end = Some(k + 1);
                    break;
                }
                k += 1;
            }
            match end {
                Some(e) if e == i => return true,
                Some(e) if e > i => return false,
                Some(e) => j = e + 1,
                None => return false,
            }
            continue;
        }
        j += 1;
    }
    false
}

/// a few random edits of an input
pub fn mutate(s: &mut Src, t: &str, alpha: &[char]) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let n = s.range(1, 3);
    for _ in 0..n {
        let c = alpha[s.idx(alpha.len())];
        let i = s.idx(v.len() + 1);
        match s.weighted(&[4, 4, 4, 2, 1, 2, 1, 1, 1]) {
            0 => v.insert(i, c),
            1 if i < v.len() => {
                v.remove(i);
            }
            2 if i < v.len() => v[i] = c,
            3 if i < v.len() => {
                let d = v[i];
                v[i] = if d.is_uppercase() { d.to_lowercase().next().unwrap() } else { d.to_uppercase().next().unwrap() };
            }
            4 if i + 1 < v.len() => v.swap(i, i + 1),
            5 => {
                let c = *s.pick(&['\n', ' ', '\0', '\r', '\t', '\u{a0}', '\u{feff}', '^', '$']);
                match s.idx(3) {
                    0 => v.push(c),
                    1 => v.insert(0, c),
                    _ => v.insert(i, c),
                }
            }
            6 => {
                v.truncate(i);
            }
            7 => {
                v.drain(..i);
            }
            8 => {
                let copy = v.clone();
                v.extend(copy);
            }
            _ => v.push(c),
        }
    }
    v.into_iter().collect()
}

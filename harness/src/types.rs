//! Reference model of the std types: documented pattern, conversion by std's FromStr, samplers.
use crate::src::Src;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Sc {
    U(u16), // 8..128, 0 = usize
    I(u16),
    NzU(u16),
    NzI(u16),
    F32,
    F64,
    Bool,
    Char,
    String,
    Str,
    Cow,
    Path,
    FullF32,
    FullF64,
    Hex,
}

/// A parsed value.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    I(i128),
    U(u128),
    F32(f32),
    F64(f64),
    B(bool),
    C(char),
    S(String),
    /// anything else, by its Debug text
    D(String),
}

impl Val {
    pub fn dbg(&self) -> String {
        match self {
            Val::I(x) => format!("{:?}", x),
            Val::U(x) => format!("{:?}", x),
            Val::F32(x) => format!("{:?}", x),
            Val::F64(x) => format!("{:?}", x),
            Val::B(x) => format!("{:?}", x),
            Val::C(x) => format!("{:?}", x),
            Val::S(x) => format!("{:?}", x),
            Val::D(x) => x.clone(),
        }
    }
}

/// A failed conversion: type names from the outside in, then the original error text.
#[derive(Clone, Debug, PartialEq)]
pub struct EInfo {
    /// for each wrapping level, from the outside in: text its Display must contain
    pub wrap: Vec<String>,
    /// Display of the original error
    pub leaf: String,
}

pub const INT_WIDTHS: [u16; 6] = [8, 16, 32, 64, 128, 0];

pub fn bits(w: u16) -> u32 {
    if w == 0 {
        usize::BITS
    } else {
        w as u32
    }
}

fn wname(w: u16) -> String {
    if w == 0 {
        "size".into()
    } else {
        w.to_string()
    }
}

pub fn umax(w: u16) -> u128 {
    u128::MAX >> (128 - bits(w))
}
pub fn imax(w: u16) -> i128 {
    (umax(w) >> 1) as i128
}
pub fn imin(w: u16) -> i128 {
    -imax(w) - 1
}

/// documented maximum number of decimal digits
fn dec_digits(w: u16, signed: bool) -> usize {
    match (bits(w), signed) {
        (8, _) => 3,
        (16, _) => 5,
        (32, _) => 10,
        (64, _) => 20,
        (128, _) => 39,
        _ => unreachable!(),
    }
}

const FLOAT: &str = r"[+-]?(?i:inf|infinity|nan|(?:\d+|\d+\.\d*|\d*\.\d+)(?:e[+-]?\d+)?)";

macro_rules! parse_int {
    ($t:ty, $s:expr, $v:ident) => {
        $s.parse::<$t>().map(|x| Val::$v(x.into())).map_err(|e| e.to_string())
    };
}
macro_rules! parse_nz {
    ($t:ty, $s:expr, $v:ident, $w:ty) => {
        $s.parse::<$t>().map(|x| Val::$v(x.get() as $w)).map_err(|e| e.to_string())
    };
}

impl Sc {
    pub fn all() -> Vec<Sc> {
        let mut v = vec![];
        for w in INT_WIDTHS {
            v.push(Sc::U(w));
            v.push(Sc::I(w));
        }
        for w in INT_WIDTHS {
            v.push(Sc::NzU(w));
            v.push(Sc::NzI(w));
        }
        v.extend([Sc::F32, Sc::F64, Sc::Bool, Sc::Char, Sc::String, Sc::Str, Sc::Cow, Sc::Path]);
        v
    }

    pub fn is_plain_int(self) -> bool {
        matches!(self, Sc::U(_) | Sc::I(_))
    }
    pub fn is_text(self) -> bool {
        matches!(self, Sc::String | Sc::Str | Sc::Cow | Sc::Path)
    }
    pub fn borrows(self) -> bool {
        matches!(self, Sc::Str | Sc::Cow)
    }

    /// Rust spelling; `lt` is "" or a lifetime with trailing blank such as "'a "
    pub fn rust(self, lt: &str) -> String {
        match self {
            Sc::U(w) => format!("u{}", wname(w)),
            Sc::I(w) => format!("i{}", wname(w)),
            Sc::NzU(0) => "::std::num::NonZeroUsize".into(),
            Sc::NzI(0) => "::std::num::NonZeroIsize".into(),
            Sc::NzU(w) => format!("::std::num::NonZeroU{}", w),
            Sc::NzI(w) => format!("::std::num::NonZeroI{}", w),
            Sc::F32 => "f32".into(),
            Sc::F64 => "f64".into(),
            Sc::Bool => "bool".into(),
            Sc::Char => "char".into(),
            Sc::String => "String".into(),
            Sc::Str => format!("&{}str", lt),
            Sc::Cow if lt.is_empty() => "::std::borrow::Cow<str>".into(),
            Sc::Cow => format!("::std::borrow::Cow<{}, str>", lt.trim()),
            Sc::Path => "::std::path::PathBuf".into(),
            Sc::FullF32 => "::sscanf::FullF32".into(),
            Sc::FullF64 => "::sscanf::FullF64".into(),
            Sc::Hex => "::sscanf::HexNumber".into(),
        }
    }

    /// alternative spellings of the type, equivalent to `rust("")`
    pub fn spell(self, s: &mut Src) -> String {
        let base = self.rust("");
        match self {
            Sc::U(_) | Sc::I(_) | Sc::F32 | Sc::F64 | Sc::Bool | Sc::Char => {
                let i = s.weighted(&[8, 1, 1]);
                match i {
                    0 => base,
                    1 => format!("std::primitive::{}", base),
                    _ => format!("::core::primitive::{}", base),
                }
            }
            Sc::NzU(_) | Sc::NzI(_) | Sc::Path => match s.idx(2) {
                0 => base,
                _ => base.trim_start_matches("::").to_string(),
            },
            Sc::String => s.pick(&["String", "std::string::String", "::std::string::String"]).to_string(),
            Sc::Str => s.pick(&["&str", "& str", "str", "&std::primitive::str", "::core::primitive::str", "primitive::str", "&core::primitive::str", "::std::primitive::str"]).to_string(),
            Sc::Cow => s
                .pick(&["::std::borrow::Cow<str>", "std::borrow::Cow<'_, str>", "std::borrow::Cow < str >", "Cow<str>", "borrow::Cow<str>", "::alloc::borrow::Cow<str>", "alloc::borrow::Cow<'_, str>", "Cow<'_, std::primitive::str>"])
                .to_string(),
            _ => base,
        }
    }

    /// alternative spellings in a declaration, equivalent to `rust("'a ")`
    pub fn decl(self, s: &mut Src) -> String {
        match self {
            Sc::Str => s.pick(&["&'a str", "&'a str", "&'a str", "&'a std::primitive::str", "&'a ::core::primitive::str"]).to_string(),
            Sc::Cow => s.pick(&["::std::borrow::Cow<'a, str>", "std::borrow::Cow<'a, str>", "::alloc::borrow::Cow<'a, str>", "alloc::borrow::Cow<'a, str>", "::std::borrow::Cow<'a, ::std::primitive::str>"]).to_string(),
            Sc::NzU(_) | Sc::NzI(_) | Sc::Path if s.chance(1, 4) => self.rust("").trim_start_matches("::").to_string(),
            Sc::String if s.chance(1, 4) => "std::string::String".into(),
            _ => self.rust("'a "),
        }
    }

    pub fn regex(self) -> String {
        match self {
            Sc::U(w) => format!(r"\+?\d{{1,{}}}", dec_digits(w, false)),
            Sc::I(w) => format!(r"[-+]?\d{{1,{}}}", dec_digits(w, true)),
            Sc::NzU(w) => format!(r"\+?[1-9]\d{{0,{}}}", dec_digits(w, false) - 1),
            Sc::NzI(w) => format!(r"[-+]?[1-9]\d{{0,{}}}", dec_digits(w, true) - 1),
            Sc::F32 | Sc::F64 | Sc::FullF32 | Sc::FullF64 => FLOAT.into(),
            Sc::Bool => "true|false".into(),
            Sc::Char => ".".into(),
            Sc::String | Sc::Str | Sc::Cow => ".+?".into(),
            Sc::Path => ".+".into(),
            Sc::Hex => "0[xX][0-9a-fA-F]+|[0-9a-fA-F]+".into(),
        }
    }

    pub fn parse(self, t: &str) -> Result<Val, String> {
        match self {
            Sc::U(8) => parse_int!(u8, t, U),
            Sc::U(16) => parse_int!(u16, t, U),
            Sc::U(32) => parse_int!(u32, t, U),
            Sc::U(64) => parse_int!(u64, t, U),
            Sc::U(128) => parse_int!(u128, t, U),
            Sc::U(_) => t.parse::<usize>().map(|x| Val::U(x as u128)).map_err(|e| e.to_string()),
            Sc::I(8) => parse_int!(i8, t, I),
            Sc::I(16) => parse_int!(i16, t, I),
            Sc::I(32) => parse_int!(i32, t, I),
            Sc::I(64) => parse_int!(i64, t, I),
            Sc::I(128) => parse_int!(i128, t, I),
            Sc::I(_) => t.parse::<isize>().map(|x| Val::I(x as i128)).map_err(|e| e.to_string()),
            Sc::NzU(8) => parse_nz!(std::num::NonZeroU8, t, U, u128),
            Sc::NzU(16) => parse_nz!(std::num::NonZeroU16, t, U, u128),
            Sc::NzU(32) => parse_nz!(std::num::NonZeroU32, t, U, u128),
            Sc::NzU(64) => parse_nz!(std::num::NonZeroU64, t, U, u128),
            Sc::NzU(128) => parse_nz!(std::num::NonZeroU128, t, U, u128),
            Sc::NzU(_) => parse_nz!(std::num::NonZeroUsize, t, U, u128),
            Sc::NzI(8) => parse_nz!(std::num::NonZeroI8, t, I, i128),
            Sc::NzI(16) => parse_nz!(std::num::NonZeroI16, t, I, i128),
            Sc::NzI(32) => parse_nz!(std::num::NonZeroI32, t, I, i128),
            Sc::NzI(64) => parse_nz!(std::num::NonZeroI64, t, I, i128),
            Sc::NzI(128) => parse_nz!(std::num::NonZeroI128, t, I, i128),
            Sc::NzI(_) => parse_nz!(std::num::NonZeroIsize, t, I, i128),
            Sc::F32 => t.parse::<f32>().map(Val::F32).map_err(|e| e.to_string()),
            Sc::F64 => t.parse::<f64>().map(Val::F64).map_err(|e| e.to_string()),
            Sc::Bool => t.parse::<bool>().map(Val::B).map_err(|e| e.to_string()),
            Sc::Char => t.parse::<char>().map(Val::C).map_err(|e| e.to_string()),
            Sc::String | Sc::Str | Sc::Cow => Ok(Val::S(t.to_string())),
            Sc::Path => Ok(Val::D(format!("{:?}", std::path::PathBuf::from(t)))),
            Sc::FullF32 => t.parse::<f32>().map(|x| Val::D(format!("FullF32({:?})", x))).map_err(|e| e.to_string()),
            Sc::FullF64 => t.parse::<f64>().map(|x| Val::D(format!("FullF64({:?})", x))).map_err(|e| e.to_string()),
            Sc::Hex => {
                let d = t.strip_prefix("0x").or_else(|| t.strip_prefix("0X")).unwrap_or(t);
                usize::from_str_radix(d, 16)
                    .map(|x| Val::D(format!("HexNumber({:?})", x)))
                    .map_err(|e| e.to_string())
            }
        }
    }

    /// a text for this type: mostly accepted, sometimes with the right shape but no value
    pub fn sample(self, s: &mut Src, alpha: &[char]) -> String {
        match self {
            Sc::U(w) => dec_text(s, w, false, false),
            Sc::I(w) => dec_text(s, w, true, false),
            Sc::NzU(w) => dec_text(s, w, false, true),
            Sc::NzI(w) => dec_text(s, w, true, true),
            Sc::F32 | Sc::F64 | Sc::FullF32 | Sc::FullF64 => float_text(s),
            Sc::Bool => s.pick(&["true", "false", "true", "false", "True", "tru"]).to_string(),
            Sc::Char => match s.weighted(&[4, 1]) {
                0 => alpha[s.idx(alpha.len())].to_string(),
                _ => s.pick(&['\u{0}', '\u{1F600}', '\u{301}', '"', '\\', '\'', '\r', '\n', '\u{2028}']).to_string(),
            },
            Sc::String | Sc::Str | Sc::Cow | Sc::Path => {
                let n = s.small(24);
                (0..n.max(1)).map(|_| alpha[s.idx(alpha.len())]).collect()
            }
            Sc::Hex => {
                let n = s.range(1, 17);
                let p = *s.pick(&["", "0x", "0X", ""]);
                let d: String = (0..n).map(|_| *s.pick(&['0', '1', '9', 'a', 'f', 'A', 'F', 'c'])).collect();
                format!("{}{}", p, d)
            }
        }
    }
}

/// all-digit text near a boundary of the type
fn dec_text(s: &mut Src, w: u16, signed: bool, nz: bool) -> String {
    let maxd = dec_digits(w, signed);
    let mag: String = match s.weighted(&[6, 4, 3, 2, 1]) {
        0 => {
            // small or random value within the width
            let b = s.below(bits(w) as u64 + 1) as u32;
            let v = ((s.bits() as u128) << 64 | s.bits() as u128) & if b == 0 { 0 } else { u128::MAX >> (128 - b) };
            let v = if nz && v == 0 { 1 } else { v };
            v.to_string()
        }
        1 => {
            // exactly around the limits
            let lim = if signed { imax(w) as u128 } else { umax(w) };
            let k = s.below(6) as u128;
            match k {
                0 => lim.to_string(),
                1 => lim.checked_add(1).map(|x| x.to_string()).unwrap_or_else(|| dec_plus1(&lim.to_string())),
                2 => (lim - 1).to_string(),
                3 => dec_plus1(&dec_plus1(&lim.to_string())),
                4 => dec_plus1(&umax(w).to_string()),
                _ => umax(w).to_string(),
            }
        }
        2 => {
            // random digits with a length near the cap
            let n = match s.weighted(&[3, 3, 2, 2]) {
                0 => s.range(1, maxd),
                1 => maxd,
                2 => maxd + 1,
                _ => maxd + s.range(1, 4),
            };
            (0..n).map(|i| if nz && i == 0 { (b'1' + s.below(9) as u8) as char } else { (b'0' + s.below(10) as u8) as char }).collect()
        }
        3 => {
            // leading zeros
            let z = s.range(1, maxd);
            let d = s.below(1000).to_string();
            format!("{}{}", "0".repeat(z), d)
        }
        _ => s.pick(&["0", "", "٣", "१2", "1_0", "1 ", "½", "0x1", "1e3", "１"]).to_string(),
    };
    let sign = match s.weighted(&[6, 2, 3, 1]) {
        0 => "",
        1 => "+",
        2 => "-",
        _ => *s.pick(&["--", "+-", "−", "- ", "++"]),
    };
    let sign = if sign == "-" && !signed && s.chance(2, 3) { "" } else { sign };
    format!("{}{}", sign, mag)
}

pub fn dec_plus1(d: &str) -> String {
    let mut v: Vec<u8> = d.bytes().collect();
    let mut i = v.len();
    loop {
        if i == 0 {
            v.insert(0, b'1');
            break;
        }
        i -= 1;
        if v[i] == b'9' {
            v[i] = b'0';
        } else {
            v[i] += 1;
            break;
        }
    }
    String::from_utf8(v).unwrap()
}

pub fn float_text(s: &mut Src) -> String {
    let sign = *s.pick(&["", "-", "+", ""]);
    let body = match s.weighted(&[6, 3, 2, 2, 1, 2]) {
        0 => {
            let (mut int, mut frac) = (digits(s, 0, 6), digits(s, 0, 8));
            match s.weighted(&[20, 1, 1, 1]) {
                1 => int = digits(s, 15, 420),
                2 => frac = digits(s, 15, 800),
                3 => int = format!("{}{}", "0".repeat(s.range(1, 400)), int),
                _ => {}
            }
            let mut t = match s.idx(4) {
                0 => format!("{}.{}", int, frac),
                1 => int.clone(),
                2 => format!("{}.", int),
                _ => format!(".{}", frac),
            };
            if s.chance(1, 3) {
                t.push(*s.pick(&['e', 'E']));
                t.push_str(*s.pick(&["", "+", "-"]));
                let n = if s.chance(1, 5) { 12 } else { 3 };
                if n > 3 {
                    t.push_str(&"0".repeat(s.idx(6)));
                }
                t.push_str(&digits(s, 0, n));
            }
            t
        }
        1 => {
            let b = s.bits();
            let v = f64::from_bits(b);
            match s.idx(3) {
                0 => format!("{}", v),
                1 => format!("{:?}", v),
                _ => format!("{:e}", v),
            }
            .trim_start_matches('-')
            .to_string()
        }
        2 => {
            let b = s.bits() as u32;
            let v = f32::from_bits(b);
            match s.idx(3) {
                0 => format!("{}", v),
                1 => format!("{:?}", v),
                _ => format!("{:E}", v),
            }
            .trim_start_matches('-')
            .to_string()
        }
        3 => {
            let w = s.pick(&["inf", "infinity", "nan", "infi", "na", "infinit", "INF", "NaN", "Infinity"]).to_string();
            w.chars().map(|c| if s.chance(1, 4) { c.to_ascii_uppercase() } else { c }).collect()
        }
        5 => {
            // halfway between two neighbours of f32 (or of f64), or a hair off: rounding twice shows
            let (mid, digits) = if s.chance(2, 3) {
                let b = (s.bits() as u32 & 0x7fff_ffff).min(0x7f7f_fffe);
                let b = if s.chance(2, 3) { 0x3000_0000 | (b & 0x1fff_ffff) } else { b };
                ((f64::from(f32::from_bits(b)) + f64::from(f32::from_bits(b + 1))) / 2.0, 160)
            } else {
                (f64::from_bits(0x3ff0_0000_0000_0000 | (s.bits() >> 12)), 60)
            };
            let mut t = format!("{:.*}", digits, mid);
            if t.contains('.') {
                t.truncate(t.trim_end_matches('0').len());
            }
            let hair = s.idx(3);
            if hair == 1 {
                t.push_str(&"0".repeat(s.range(0, 30)));
                t.push('1');
            } else if hair == 2 {
                if let Some(l) = t.pop() {
                    if ('1'..='9').contains(&l) {
                        t.push((l as u8 - 1) as char);
                        t.push_str(&"9".repeat(s.range(1, 30)));
                    } else {
                        t.push(l);
                    }
                }
            }
            t
        }
        _ => s
            .pick(&["", ".", "e5", ".e1", "1e", "1e+", "1.5f", "0x1p3", "1,5", "1e400", "1e-400", "4.9e-324", "3.5e38", "1..2", "٣.5", "ﬁ", "ınf", "1e٣", "00001.0", "1e5.0"])
            .to_string(),
    };
    format!("{}{}", sign, body)
}

pub fn digits(s: &mut Src, lo: usize, hi: usize) -> String {
    let n = s.range(lo, hi);
    (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect()
}

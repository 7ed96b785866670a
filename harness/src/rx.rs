//! Generated capture-free regular expressions with a sampler of matching texts.
use crate::src::Src;

#[derive(Clone, Debug)]
pub enum Rx {
    Lit(char),
    /// class source and some members
    Class(String, Vec<char>),
    Dot,
    Cat(Vec<Rx>),
    Alt(Vec<Rx>),
    Rep(Box<Rx>, usize, Option<usize>, bool, u8),
    /// group with flags text ("" or "i")
    Group(Box<Rx>, bool),
    /// source and all members
    Fixed(String, Vec<String>),
    /// another spelling of the regex (flag x)
    Verbose(Box<Rx>, String),
}

pub const META: &str = r"\.+*?()|[]{}^$#&-~/";

pub fn lit_src(c: char) -> String {
    match c {
        '\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '[' | ']' | '{' | '}' | '^' | '$' => format!("\\{}", c),
        '\n' => "\\n".into(),
        '\r' => "\\r".into(),
        '\t' => "\\t".into(),
        c => c.to_string(),
    }
}

impl Rx {
    pub fn src(&self) -> String {
        match self {
            Rx::Lit(c) => lit_src(*c),
            Rx::Class(s, _) | Rx::Fixed(s, _) => s.clone(),
            Rx::Dot => ".".into(),
            Rx::Cat(v) => v
                .iter()
                .map(|r| match r {
                    Rx::Alt(_) => format!("(?:{})", r.src()),
                    _ => r.src(),
                })
                .collect(),
            Rx::Alt(v) => v.iter().map(|r| r.src()).collect::<Vec<_>>().join("|"),
            Rx::Rep(r, lo, hi, lazy, style) => {
                let inner = match **r {
                    Rx::Lit(_) | Rx::Class(..) | Rx::Dot | Rx::Group(..) => r.src(),
                    // a capture group
                    Rx::Fixed(ref t, ref m) if m.is_empty() => t.clone(),
                    _ => format!("(?:{})", r.src()),
                };
                let q = match (lo, hi, style) {
                    (0, None, _) => "*".to_string(),
                    (1, None, _) => "+".to_string(),
                    (0, Some(1), 0) => "?".to_string(),
                    (lo, Some(hi), _) if lo == hi => format!("{{{}}}", lo),
                    (lo, Some(hi), _) => format!("{{{},{}}}", lo, hi),
                    (lo, None, _) => format!("{{{},}}", lo),
                };
                format!("{}{}{}", inner, q, if *lazy { "?" } else { "" })
            }
            Rx::Group(r, ci) => format!("(?{}:{})", if *ci { "i" } else { "" }, r.src()),
            Rx::Verbose(r, _) => r.src(),
        }
    }

    /// the source as written in the program
    pub fn text(&self) -> String {
        match self {
            Rx::Verbose(_, t) => t.clone(),
            _ => self.src(),
        }
    }

    /// the source for the flag x, with blanks and comments
    fn spaced(&self, s: &mut Src) -> String {
        let sep = |s: &mut Src| s.pick(&["", " ", "", "  ", "\n", "\t", " # (note\n", " #/}\n"]).to_string();
        match self {
            Rx::Lit(c @ (' ' | '#')) => format!("\\x{:02x}", *c as u32),
            Rx::Cat(v) => v
                .iter()
                .map(|r| {
                    let t = r.spaced(s);
                    let t = if matches!(r, Rx::Alt(_)) { format!("(?:{})", t) } else { t };
                    format!("{}{}", t, sep(s))
                })
                .collect(),
            Rx::Alt(v) => v.iter().map(|r| format!("{}{}", r.spaced(s), sep(s))).collect::<Vec<_>>().join("|"),
            Rx::Group(r, ci) => format!("(?{}:{}{})", if *ci { "i" } else { "" }, r.spaced(s), sep(s)),
            Rx::Rep(r, lo, hi, lazy, style) => {
                let inner = r.spaced(s);
                let src = Rx::Rep(Box::new(Rx::Dot), *lo, *hi, *lazy, *style).src();
                format!("(?:{}{}){}", inner, sep(s), &src[1..])
            }
            _ => self.src(),
        }
    }

    /// number of sub-expressions, including the whole
    pub fn nodes(&self) -> usize {
        1 + match self {
            Rx::Cat(v) | Rx::Alt(v) => v.iter().map(|r| r.nodes()).sum(),
            Rx::Rep(r, ..) | Rx::Group(r, _) | Rx::Verbose(r, _) => r.nodes(),
            _ => 0,
        }
    }

    /// replaces the sub-expression with the given number (in prefix order)
    pub fn replace(&mut self, at: &mut usize, f: &dyn Fn(&Rx) -> Rx) -> bool {
        if *at == 0 {
            *self = f(self);
            return true;
        }
        *at -= 1;
        match self {
            Rx::Cat(v) | Rx::Alt(v) => v.iter_mut().any(|r| r.replace(at, f)),
            Rx::Rep(r, ..) | Rx::Group(r, _) | Rx::Verbose(r, _) => r.replace(at, f),
            _ => false,
        }
    }

    pub fn sample(&self, s: &mut Src) -> String {
        match self {
            Rx::Lit(c) => c.to_string(),
            Rx::Class(_, m) => s.pick(m).to_string(),
            Rx::Fixed(_, m) => s.pick(m).to_string(),
            Rx::Verbose(r, _) => r.sample(s),
            Rx::Dot => s.pick(&['a', '7', ' ', ',', 'é', '/', '-', '(']).to_string(),
            Rx::Cat(v) => v.iter().map(|r| r.sample(s)).collect(),
            Rx::Alt(v) => {
                let i = s.idx(v.len());
                v[i].sample(s)
            }
            Rx::Rep(r, lo, hi, _, _) => {
                let max = hi.unwrap_or(lo + 4).min(lo + 6);
                let n = s.range(*lo, max);
                (0..n).map(|_| r.sample(s)).collect()
            }
            Rx::Group(r, ci) => {
                let t = r.sample(s);
                if *ci && s.chance(1, 2) {
                    if t.chars().all(|c| c.is_ascii_lowercase() || !c.is_alphabetic()) {
                        t.to_ascii_uppercase()
                    } else {
                        t.to_ascii_lowercase()
                    }
                } else {
                    t
                }
            }
        }
    }
}

pub struct RxCfg {
    /// never matches the empty string
    pub allow_alt_top: bool,
    pub chars: Vec<char>,
    pub assertions: bool,
    /// with assertions that look at the text around the placeholder
    pub look: bool,
}

impl Default for RxCfg {
    fn default() -> Self {
        RxCfg {
            allow_alt_top: true,
            assertions: false,
            look: false,
            chars: "ab0,/-x.9 :\\(){}[]|\"'#^$*+?_é日Z;=@%&~<>\n\t".chars().collect(),
        }
    }
}

fn class(s: &mut Src) -> Rx {
    let opts: &[(&str, &str)] = &[
        ("[a-c]", "abc"),
        (r"\d", "0193"),
        ("[^,]", "ab0 /é"),
        (r"\w", "aZ0_é"),
        ("[0-9a-f]", "09af"),
        (r"\s", " \t\n"),
        (r"\S", "a9/é"),
        (r"\D", "a /-"),
        (r"[/\\]", "/\\"),
        (r"[{}]", "{}"),
        (r"[()|]", "()|"),
        (r"[\]\[]", "[]"),
        (r#"["']"#, "\"'"),
        ("[[:alpha:]]", "aZq"),
        (r"[[:^alpha:]0]", "0 9,"),
        (r"\p{Greek}", "αβΩ"),
        (r"\pL", "aßλ"),
        (r"[^\d\s]", "a-/"),
        ("[-+]", "-+"),
        ("[a-z&&[^b-y]]", "az"),
        (r"\x41", "A"),
        (r"\x{e9}", "é"),
        (r"\u00e9", "é"),
        (r"\.", "."),
        (r"\W", " ,/"),
    ];
    let (src, m) = s.pick(opts);
    Rx::Class(src.to_string(), m.chars().collect())
}

/// assertions and flags: match nothing themselves
fn zero_width(s: &mut Src, look: bool) -> Rx {
    let all = ["(?i)", "(?s)", "(?U)", "(?-i)", "(?:)", r"\b", r"\B", "^", "$", r"\A", r"\z", r"(?-u:\b)", "(?m:^)", "(?m:$)"];
    let src = *s.pick(&all[..if look { 14 } else { 5 }]);
    Rx::Fixed(src.to_string(), vec![String::new()])
}

pub fn gen(s: &mut Src, cfg: &RxCfg, depth: usize) -> Rx {
    if depth == 0 {
        return match s.weighted(if cfg.assertions { &[12, 12, 3, 3, 2] } else { &[4, 4, 1, 1, 0] }) {
            4 => zero_width(s, cfg.look),
            0 => Rx::Lit(*s.pick(&cfg.chars)),
            1 => class(s),
            2 => Rx::Dot,
            _ => {
                // a sequence in which escapes meet each other
                let n = s.range(2, 4);
                Rx::Cat((0..n).map(|_| Rx::Lit(*s.pick(&['\\', '/', '\\', 'd', '1', 'n', '{', '(', '\n', '"', '\'']))).collect())
            }
        };
    }
    match s.weighted(&[3, 4, 4, 3, 2]) {
        0 => gen(s, cfg, 0),
        1 => {
            let n = s.range(1, 4);
            Rx::Cat((0..n).map(|_| gen(s, cfg, depth - 1)).collect())
        }
        2 => {
            let inner = gen(s, cfg, depth - 1);
            let (lo, hi) = match s.weighted(&[3, 3, 2, 2, 2, 1]) {
                0 => (1, None),
                1 => (0, None),
                2 => (0, Some(1)),
                3 => {
                    let a = s.range(0, 3);
                    let b = a + s.range(0, 3);
                    (a, Some(b.max(1)))
                }
                4 => {
                    let a = s.range(1, 4);
                    (a, Some(a))
                }
                _ => (s.range(2, 3), None),
            };
            let lazy = s.chance(1, 4);
            let style = s.idx(2) as u8;
            Rx::Rep(Box::new(inner), lo, hi, lazy, style)
        }
        3 => {
            let n = s.range(2, 3);
            Rx::Alt((0..n).map(|_| gen(s, cfg, depth - 1)).collect())
        }
        _ => {
            let ci = s.chance(1, 3);
            Rx::Group(Box::new(gen(s, cfg, depth - 1)), ci)
        }
    }
}

/// a regex for a placeholder or for unescaped text
pub fn gen_top(s: &mut Src, cfg: &RxCfg) -> Rx {
    let d = s.range(0, 3);
    let r = gen(s, cfg, d);
    match r {
        Rx::Alt(_) if !cfg.allow_alt_top => Rx::Group(Box::new(r), false),
        r => r,
    }
}

/// the regex of an option: also with assertions, flags, blanks and comments
///
/// `look`: also such that look at the text around the placeholder. Not in types: the reference takes
/// the text of a value out of the input and parses it on its own.
pub fn gen_opt(s: &mut Src, look: bool) -> Rx {
    let cfg = RxCfg { assertions: s.chance(1, 4), look, ..RxCfg::default() };
    let r = gen_top(s, &cfg);
    // flags without a group end with the group around them: not known to spaced()
    if cfg.assertions || !s.chance(1, 8) {
        return r;
    }
    let t = r.spaced(s);
    let t = match s.weighted(&[6, 1, 1]) {
        0 => format!("(?x){}{}", t, s.pick(&["", " ", " # note", "#(", "\n", " # a) b\n", "#"])),
        1 => format!("(?x:{}# end\n)", t),
        _ => format!("(?-sx-i)(?x)\n{}\n # {{}}", t).replace("(?-sx-i)", ""),
    };
    Rx::Verbose(Box::new(r), t)
}

/// the text of a `{:/.../}` option for a regex source: `/` becomes `\/`
pub fn slash_escape(re: &str) -> String {
    let mut out = String::new();
    let mut it = re.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            out.push(c);
            if let Some(d) = it.next() {
                out.push(d);
            }
        } else if c == '/' {
            out.push_str("\\/");
        } else {
            out.push(c);
        }
    }
    out
}

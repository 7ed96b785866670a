//! Runtime linked into every generated program: reads requests from stdin, calls the case function
//! and writes the outcome string back. Knows nothing about expected results.
use std::cell::RefCell;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use sscanf;

pub type CaseFn = fn(&str) -> String;

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

/// Error outcome: `M` or `P` followed by the Display of the error and of its whole source chain,
/// separated by U+001F, and U+001E with the type of the last error of the chain.
pub fn show_err(e: &sscanf::Error) -> String {
    match e {
        sscanf::Error::MatchFailed => "M".to_string(),
        sscanf::Error::ParsingFailed(_) => {
            let mut s = format!("P:{}", e);
            let mut cur: Option<&dyn std::error::Error> = std::error::Error::source(e);
            let mut kind = "";
            while let Some(c) = cur {
                s.push('\u{1f}');
                s.push_str(&c.to_string());
                kind = kind_of(c);
                cur = c.source();
            }
            s.push('\u{1e}');
            s.push_str(kind);
            s
        }
    }
}

/// the types of errors that a caller may look for by downcasting
fn kind_of(e: &(dyn std::error::Error + 'static)) -> &'static str {
    if e.is::<std::num::ParseIntError>() {
        "ParseIntError"
    } else if e.is::<std::num::ParseFloatError>() {
        "ParseFloatError"
    } else if e.is::<std::num::TryFromIntError>() {
        "TryFromIntError"
    } else if e.is::<std::str::ParseBoolError>() {
        "ParseBoolError"
    } else if e.is::<sscanf::errors::MissingPrefixError>() {
        "MissingPrefixError"
    } else if e.is::<sscanf::errors::FilterMapNoneError>() {
        "FilterMapNoneError"
    } else {
        ""
    }
}

pub fn fin<T>(r: Result<T, sscanf::Error>, show: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(v) => format!("O:{}", show(v)),
        Err(e) => show_err(&e),
    }
}

/// runs something that may panic
pub fn quiet<T>(f: impl FnOnce() -> T) {
    let _ = catch_unwind(AssertUnwindSafe(f));
}

fn call(f: CaseFn, input: &str) -> String {
    match catch_unwind(AssertUnwindSafe(|| f(input))) {
        Ok(s) => s,
        Err(_) => format!("X:{}", PANIC.with(|p| p.borrow().clone())),
    }
}

/// mode 0: one call. mode 1: `n` threads released together, each calling twice.
fn request(table: &[CaseFn], mode: u8, case: usize, n: usize, input: &str) -> String {
    let f = table[case];
    if mode == 0 {
        return call(f, input);
    }
    let barrier = std::sync::Barrier::new(n);
    let outs: Vec<(String, String)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|_| {
                s.spawn(|| {
                    barrier.wait();
                    (call(f, input), call(f, input))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (a, b) in &outs {
        if *a != outs[0].0 || *b != outs[0].0 {
            return format!("DIFF:{:?}", outs);
        }
    }
    outs.into_iter().next().unwrap().0
}

pub fn main_loop(table: &[CaseFn]) {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    let mut stdin = std::io::stdin().lock();
    let mut stdout = std::io::stdout().lock();
    let mut head = [0u8; 13];
    loop {
        match stdin.read_exact(&mut head) {
            Ok(()) => {}
            Err(_) => return,
        }
        let w = |i: usize| u32::from_le_bytes([head[i], head[i + 1], head[i + 2], head[i + 3]]) as usize;
        let (mode, case, n, len) = (head[0], w(1), w(5), w(9));
        let mut buf = vec![0u8; len];
        stdin.read_exact(&mut buf).unwrap();
        let input = String::from_utf8(buf).unwrap();
        let out = request(table, mode, case, n, &input);
        stdout.write_all(&(out.len() as u32).to_le_bytes()).unwrap();
        stdout.write_all(out.as_bytes()).unwrap();
        stdout.flush().unwrap();
    }
}

/// runs a future that never waits
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    match f.as_mut().poll(&mut std::task::Context::from_waker(std::task::Waker::noop())) {
        std::task::Poll::Ready(x) => x,
        std::task::Poll::Pending => panic!("pending"),
    }
}

#[macro_export]
macro_rules! async_block {
    ($e:expr) => {
        $crate::block_on(async { $e })
    };
}

pub const fn cat_len(p: &[&str]) -> usize {
    let (mut n, mut i) = (0, 0);
    while i < p.len() {
        n += p[i].len();
        i += 1;
    }
    n
}

pub const fn cat_bytes<const N: usize>(p: &[&str]) -> [u8; N] {
    let mut out = [0; N];
    let (mut n, mut i) = (0, 0);
    while i < p.len() {
        let b = p[i].as_bytes();
        let mut j = 0;
        while j < b.len() {
            out[n] = b[j];
            n += 1;
            j += 1;
        }
        i += 1;
    }
    out
}

pub const fn cat_str(b: &[u8]) -> &str {
    match std::str::from_utf8(b) {
        Ok(s) => s,
        Err(_) => panic!("not text"),
    }
}

/// concatenation of constant strings
#[macro_export]
macro_rules! cat {
    ($($p:expr),*) => {{
        const P: &'static [&'static str] = &[$($p),*];
        const N: usize = $crate::cat_len(P);
        const B: [u8; N] = $crate::cat_bytes(P);
        $crate::cat_str(&B)
    }};
}

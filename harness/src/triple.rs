//! Matching against target-lexicon triples, and the facts of that library the specification is
//! told about.
use crate::json::W;
use crate::text::decode;
use cfg_expr::expr::TargetPredicate as TP;
use cfg_expr::target_lexicon as tl;
use cfg_expr::targets::ALL_BUILTINS;
use tl::{Architecture as A, Vendor};

fn vendor_name(v: &Vendor) -> String {
    match v {
        Vendor::Custom(c) => format!("custom/{}", c.as_str()),
        v => v.as_str().to_owned(),
    }
}

fn os_base(o: tl::OperatingSystem) -> String {
    let s = o.into_str().into_owned();
    if o.is_like_darwin() { s.trim_end_matches(|c: char| c.is_ascii_digit() || c == '.').to_owned() } else { s }
}

fn class(a: A) -> &'static str {
    match a {
        A::Arm(_) => "arm",
        A::Aarch64(_) => "aarch64",
        A::X86_32(_) => "x86_32",
        A::Mips32(_) => "mips32",
        A::Mips64(_) => "mips64",
        A::Riscv32(_) => "riscv32",
        A::Riscv64(_) => "riscv64",
        _ => "other",
    }
}

/// Facts about a name: `kind|code points`
pub fn lexicon(line: &str) -> String {
    let (kind, s) = line.split_once('|').unwrap();
    let s = decode(s);
    let mut w = W::new();
    w.obj(|w| match kind {
        "arch" => {
            let a = s.parse::<A>();
            w.key("canon").str(&a.map_or(String::new(), |a| a.into_str().into_owned()));
            w.key("cls").str(a.map_or("", class));
            w.key("end").str(match a.map(|a| a.endianness()) {
                Ok(Ok(tl::Endianness::Big)) => "big",
                Ok(Ok(tl::Endianness::Little)) => "little",
                _ => "",
            });
            w.key("width").str(&match a.map(|a| a.pointer_width()) {
                Ok(Ok(p)) => p.bits().to_string(),
                _ => String::new(),
            });
        }
        "os" => {
            let o = s.parse::<tl::OperatingSystem>();
            w.key("canon").str(&o.map_or(String::new(), |o| o.into_str().into_owned()));
            w.key("base").str(&o.map_or(String::new(), os_base));
        }
        "env" => {
            let e = s.parse::<tl::Environment>();
            w.key("canon").str(&e.map_or(String::new(), |e| e.into_str().into_owned()));
        }
        "vendor" => {
            let v = s.parse::<Vendor>();
            w.key("canon").str(&v.map_or(String::new(), |v| vendor_name(&v)));
        }
        "triple" => match s.parse::<tl::Triple>() {
            Err(_) => w.key("ok").num(0),
            Ok(t) => {
                w.key("ok").num(1);
                w.key("arch").str(&t.architecture.into_str());
                w.key("vendor").str(&vendor_name(&t.vendor));
                w.key("os").str(&t.operating_system.into_str());
                w.key("env").str(&t.environment.into_str());
            }
        },
        _ => panic!("lexicon {kind}"),
    });
    w.done()
}

fn matched(w: &mut W, m: impl Fn(&TP) -> bool, ps: &[TP]) {
    w.arr(|w| {
        for (i, p) in ps.iter().enumerate() {
            if m(p) {
                w.num(i as u64 + 1);
            }
        }
    });
}

/// The same triple put together otherwise: a custom vendor from a static text, and another binary
/// format, neither of which is any business of cfg
fn otherwise(t: &tl::Triple, n: usize) -> tl::Triple {
    use tl::BinaryFormat::*;
    let mut t = t.clone();
    if let Vendor::Custom(c) = &t.vendor {
        t.vendor = Vendor::Custom(tl::CustomVendor::Static(fixed(c.as_str())));
    }
    t.binary_format = [Elf, Coff, Macho, Wasm, Xcoff, Unknown][n % 6];
    t
}

fn fixed(s: &str) -> &'static str {
    use std::{cell::RefCell, collections::HashMap};
    thread_local! {
        static FIXED: RefCell<HashMap<String, &'static str>> = RefCell::default();
    }
    FIXED.with(|f| *f.borrow_mut().entry(s.to_owned()).or_insert_with(|| Box::leak(s.to_owned().into_boxed_str())))
}

/// Which predicates the triple made of `arch|vendor|os|env` matches
pub fn triples(line: &str, ps: &[TP]) -> String {
    let f: Vec<&str> = line.split('|').collect();
    let mut t = tl::Triple::unknown();
    t.architecture = f[0].parse().unwrap();
    t.vendor = match f[1].strip_prefix("custom/") {
        Some(c) => Vendor::Custom(tl::CustomVendor::Owned(Box::new(c.to_owned()))),
        None => f[1].parse().unwrap(),
    };
    t.operating_system = f[2].parse().unwrap();
    t.environment = f[3].parse().unwrap();
    let mut w = W::new();
    w.obj(|w| {
        w.key("m");
        matched(w, |p| p.matches(&t), ps);
        let n = line.bytes().fold(7usize, |h, b| h.wrapping_mul(31).wrapping_add(b.into())) >> 3;
        let o = otherwise(&t, n);
        w.key("o");
        matched(w, |p| p.matches(&o), ps);
    });
    w.done()
}

/// The built-in target of this triple and the parsed triple, each with what it matches
pub fn both(line: &str, ps: &[TP]) -> String {
    let s = decode(line);
    let mut w = W::new();
    w.obj(|w| {
        match ALL_BUILTINS.iter().find(|t| t.triple.as_str() == s) {
            None => w.key("b").arr(|_| {}),
            Some(b) => {
                w.key("b");
                matched(w, |p| p.matches(b), ps);
            }
        }
        match s.parse::<tl::Triple>() {
            Err(_) => w.key("t").arr(|_| {}),
            Ok(t) => {
                w.key("t");
                matched(w, |p| p.matches(&t), ps);
                w.key("o").bool((0..6).all(|n| {
                    let o = otherwise(&t, n);
                    ps.iter().all(|p| p.matches(&o) == p.matches(&t))
                }));
            }
        }
    });
    w.done()
}

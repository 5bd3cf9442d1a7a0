//! Lexing, parsing, enumerating and evaluating one text.
use crate::json::W;
use cfg_expr::expr::lexer::{Lexer, LexerToken, Token};
use cfg_expr::expr::{Logic, TargetPredicate as TP};
use cfg_expr::error::Reason;
use cfg_expr::{Expression, ParseError, Predicate};

pub struct Flags {
    pub lex: bool,
    pub parse: bool,
    pub eval: bool,
    pub disp: bool,
    pub re: bool,
}

impl Flags {
    pub fn parse(s: &str) -> Self {
        let h = |k: &str| s.split(',').any(|x| x == k);
        Flags { lex: h("lex"), parse: h("parse"), eval: h("eval"), disp: h("disp"), re: h("re") }
    }
}

/// A text is given as its code points, separated by commas
pub fn decode(line: &str) -> String {
    line.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| char::from_u32(x.trim().parse().unwrap()).unwrap())
        .collect()
}

// ---------------------------------------------------------------------------------------------

/// What a user is shown of a leaf: kind, name, value
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Leaf(pub &'static str, pub u32, pub String, pub String);

pub fn leaf(p: &Predicate<'_>) -> Leaf {
    let t = |k, c, v: &str| Leaf(k, c, String::new(), v.to_owned());
    match p {
        Predicate::Target(tp) => match tp {
            TP::Abi(v) => t("abi", 11, v.as_str()),
            TP::Arch(v) => t("arch", 12, v.as_str()),
            TP::Endian(v) => t("endian", 13, match v {
                cfg_expr::targets::Endian::big => "big",
                cfg_expr::targets::Endian::little => "little",
            }),
            TP::Env(v) => t("env", 14, v.as_str()),
            TP::Family(v) => t("family", 15, v.as_str()),
            TP::HasAtomic(v) => t("atomic", 16, &match v {
                cfg_expr::targets::HasAtomic::IntegerSize(n) => n.to_string(),
                cfg_expr::targets::HasAtomic::Pointer => "ptr".to_owned(),
                _ => "?".to_owned(),
            }),
            TP::Os(v) => t("os", 17, v.as_str()),
            TP::Panic(v) => t("panic", 18, v.as_str()),
            TP::PointerWidth(v) => t("width", 19, &v.to_string()),
            TP::Vendor(v) => t("vendor", 20, v.as_str()),
            #[allow(unreachable_patterns)]
            other => Leaf("other", 0, String::new(), format!("{other:?}")),
        },
        Predicate::Test => t("test", 5, ""),
        Predicate::DebugAssertions => t("debug", 6, ""),
        Predicate::ProcMacro => t("procmacro", 7, ""),
        Predicate::Feature(v) => t("feature", 3, v),
        Predicate::TargetFeature(v) => t("tfeature", 4, v),
        Predicate::Flag(k) => Leaf("flag", 1, (*k).to_owned(), String::new()),
        Predicate::KeyValue { key, val } => Leaf("kv", 2, (*key).to_owned(), (*val).to_owned()),
        #[allow(unreachable_patterns)]
        other => Leaf("other", 0, String::new(), format!("{other:?}")),
    }
}

pub fn write_leaf(w: &mut W, l: &Leaf) {
    w.arr(|w| {
        w.str(l.0);
        w.cps(&l.2);
        w.cps(&l.3);
    });
}

// The values given to leaves, as the specification (CfgEval.tla) defines them.
pub const P: u64 = 32749;
pub const MASK: u32 = (1 << 30) - 1;

#[derive(Clone, Copy, PartialEq)]
pub struct Val {
    pub b: u32,
    pub kt: u32,
    pub kf: u32,
    pub bt: u32,
    pub bf: u32,
    pub g1: u64,
    pub g2: u64,
}

fn hash(l: &Leaf, seed: u64, m: u64) -> u64 {
    let mut h = (seed * m + u64::from(l.1)) % P;
    for c in l.2.chars() {
        h = (h * m + c as u64 + 1) % P;
    }
    h = (h * m + 7) % P;
    for c in l.3.chars() {
        h = (h * m + c as u64 + 1) % P;
    }
    h
}

pub fn leaf_val(l: &Leaf) -> Val {
    let (h1, h2, h3, h4) = (hash(l, 1, 257), hash(l, 2, 263), hash(l, 3, 269), hash(l, 4, 271));
    let x = (h1 * 32768 + h2) as u32;
    let y = (h3 * 32768 + h4) as u32;
    let j = match l {
        Leaf("flag", _, n, _) if n.len() == 1 && (97..=100).contains(&n.as_bytes()[0]) => {
            u32::from(n.as_bytes()[0]) - 97
        }
        _ => 9,
    };
    let bits = |n: u32, f: &dyn Fn(u32) -> bool| (0..n).filter(|i| f(*i)).fold(0, |a, i| a | (1 << i));
    let low16 = if j <= 3 { bits(16, &|i| (i >> j) & 1 == 1) } else { x & 0xffff };
    let low27 = (1 << 27) - 1;
    let (kt, kf) = if j <= 2 {
        (bits(27, &|i| (i / 3u32.pow(j)) % 3 == 2), bits(27, &|i| (i / 3u32.pow(j)) % 3 == 1))
    } else {
        (x & y & low27, x & !y & low27)
    };
    Val {
        b: low16 | (1 << 16) | (y & ((1 << 30) - (1 << 18))),
        kt: kt | (1 << 28),
        kf: kf | (1 << 29),
        bt: x,
        bf: y,
        g1: h1,
        g2: h3,
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
struct Belnap(u32, u32);
impl Logic for Belnap {
    fn top() -> Self {
        Belnap(MASK, 0)
    }
    fn bottom() -> Self {
        Belnap(0, MASK)
    }
    fn and(self, o: Self) -> Self {
        Belnap(self.0 & o.0, self.1 | o.1)
    }
    fn or(self, o: Self) -> Self {
        Belnap(self.0 | o.0, self.1 & o.1)
    }
    fn not(self) -> Self {
        Belnap(self.1, self.0)
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
struct Gf(u64);
impl Logic for Gf {
    fn top() -> Self {
        Gf(1)
    }
    fn bottom() -> Self {
        Gf(0)
    }
    fn and(self, o: Self) -> Self {
        Gf(self.0 * o.0 % P)
    }
    fn or(self, o: Self) -> Self {
        Gf((self.0 + o.0 + (P - 1) * (self.0 * o.0 % P)) % P)
    }
    fn not(self) -> Self {
        Gf((1 + P - self.0) % P)
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
struct Free(u64);
impl Logic for Free {
    fn top() -> Self {
        Free(1)
    }
    fn bottom() -> Self {
        Free(0)
    }
    fn and(self, o: Self) -> Self {
        Free(self.0 * o.0 % P)
    }
    fn or(self, o: Self) -> Self {
        Free((self.0 + o.0) % P)
    }
    fn not(self) -> Self {
        Free((7 * self.0 + 3) % P)
    }
}

pub struct Evals {
    pub leaves: Vec<Leaf>,
    pub calls_ok: bool,
    pub v: Val,
}

/// Enumerates and evaluates an expression in every logic
pub fn evals(e: &Expression) -> Evals {
    evals_at(e, 1, true)
}

/// Every `stride`th assignment only, comparing what the callback is shown in the first evaluation
/// only unless `full`
#[allow(unused_assignments)]
pub fn evals_at(e: &Expression, stride: usize, full: bool) -> Evals {
    let leaves: Vec<Leaf> = e.predicates().map(|p| leaf(&p)).collect();
    let vals: Vec<Val> = leaves.iter().map(leaf_val).collect();
    let mut calls_ok = true;
    let mut v = Val { b: 0, kt: 0, kf: 0, bt: 0, bf: 0, g1: 0, g2: 0 };

    // The callback gets the leaf values by what it is shown; what it is shown is compared to the
    // enumeration.
    let mut n;
    #[allow(unused_assignments)]
    let mut compare = true;
    macro_rules! run {
        ($f:expr) => {{
            n = 0;
            let r = e.eval(|p| {
                let i = n;
                n += 1;
                let val = if !compare && i < vals.len() {
                    vals[i]
                } else {
                    let l = leaf(p);
                    if leaves.get(i) == Some(&l) {
                        vals[i]
                    } else {
                        calls_ok = false;
                        leaf_val(&l)
                    }
                };
                #[allow(clippy::redundant_closure_call)]
                ($f)(val)
            });
            if n != leaves.len() {
                calls_ok = false;
            }
            compare = full;
            r
        }};
    }

    for i in (0..30u32).step_by(stride) {
        if run!(|x: Val| x.b >> i & 1 == 1) {
            v.b |= 1 << i;
        }
    }
    for i in (0..30u32).step_by(stride) {
        let r: Option<bool> = run!(|x: Val| if x.kt >> i & 1 == 1 {
            Some(true)
        } else if x.kf >> i & 1 == 1 {
            Some(false)
        } else {
            None
        });
        match r {
            Some(true) => v.kt |= 1 << i,
            Some(false) => v.kf |= 1 << i,
            None => {}
        }
    }
    let b = run!(|x: Val| Belnap(x.bt, x.bf));
    v.bt = b.0;
    v.bf = b.1;
    v.g1 = run!(|x: Val| Free(x.g1)).0;
    v.g2 = run!(|x: Val| Gf(x.g2)).0;

    // A partly consumed enumeration, and an evaluation within an evaluation, disturb nothing
    {
        let mut it = e.predicates();
        let first = it.next().map(|p| leaf(&p));
        let mut inner = 0usize;
        let mut outer = 0usize;
        let r = e.eval(|p| {
            if leaves.get(outer) != Some(&leaf(p)) {
                calls_ok = false;
            }
            outer += 1;
            if outer == 1 {
                let _: bool = e.eval(|_| {
                    inner += 1;
                    inner % 2 == 0
                });
            }
            true
        });
        let all_true: bool = e.eval(|_| true);
        let rest: Vec<Leaf> = it.map(|p| leaf(&p)).collect();
        if r != all_true
            || outer != leaves.len()
            || (!leaves.is_empty() && inner != leaves.len())
            || first.as_ref() != leaves.first()
            || rest.as_slice() != leaves.get(1..).unwrap_or(&[])
        {
            calls_ok = false;
        }
    }

    // However the enumeration is consumed, it is the same sequence
    {
        let n = leaves.len();
        let at = |i: usize| e.predicates().nth(i).map(|p| leaf(&p));
        let places = if n <= 12 { (0..n + 2).collect::<Vec<_>>() } else { vec![0, 1, n / 2, n - 2, n - 1, n, n + 1] };
        let hint = e.predicates().size_hint();
        let mut it = e.predicates();
        let mut two = Vec::new();
        while let Some(p) = it.nth(1) {
            two.push(leaf(&p));
        }
        let folded = e.predicates().fold(0, |i, p| if i < n && leaves[i] == leaf(&p) { i + 1 } else { n + 1 });
        if places.iter().any(|&i| at(i).as_ref() != leaves.get(i))
            || e.predicates().last().map(|p| leaf(&p)).as_ref() != leaves.last()
            || hint.0 > n
            || hint.1.is_some_and(|h| h < n)
            || two.len() != n / 2
            || two.iter().enumerate().any(|(i, l)| *l != leaves[2 * i + 1])
            || folded != n
            || it.next().is_some()
        {
            calls_ok = false;
        }
    }

    // Enumerating once more, after all the evaluations
    let again: Vec<Leaf> = e.predicates().map(|p| leaf(&p)).collect();
    if again != leaves || e.predicates().count() != leaves.len() {
        calls_ok = false;
    }
    Evals { leaves, calls_ok, v }
}

/// The value of one evaluation in a logic that notices every operand, with something else done at
/// every call
pub fn leaf_eval(e: &Expression, mut also: impl FnMut()) -> u64 {
    e.eval(|p| {
        let v = Free(leaf_val(&leaf(p)).g1);
        also();
        v
    })
    .0
}

pub fn write_val(w: &mut W, v: &Val) {
    w.obj(|w| {
        w.key("b").num(v.b.into());
        w.key("kt").num(v.kt.into());
        w.key("kf").num(v.kf.into());
        w.key("bt").num(v.bt.into());
        w.key("bf").num(v.bf.into());
        w.key("g1").num(v.g1);
        w.key("g2").num(v.g2);
    });
}

// ---------------------------------------------------------------------------------------------

/// Whether an expression that becomes another's copy is that one: put over expressions of the same
/// length, of the same leaves, and of other lengths.
fn becomes(e: &Expression, deep: bool) -> bool {
    let o = e.original();
    let mut over = vec!["a".repeat(o.len().max(1)), "all()".to_owned(), format!("any({o})"), format!("{o},"), format!(" {o}")];
    over.push(o.to_owned());
    let first = o.find(|c: char| c.is_ascii_alphabetic());
    if let Some(i) = first {
        // one letter exchanged: as many leaves, as long a text
        for c in ["a", "b"] {
            over.push(format!("{}{}{}", &o[..i], c, &o[i + 1..]));
        }
    }
    let own = if deep { evals(e) } else { evals_at(e, 6, false) };
    let same = |c: &Expression| {
        let x = if deep { evals(c) } else { evals_at(c, 6, false) };
        c.original() == o && c == e && e == c && x.leaves == own.leaves && (!deep || (x.v.b == own.v.b && x.v.g1 == own.v.g1))
    };
    over.iter().all(|t| {
        let Ok(mut c) = Expression::parse(t) else { return true };
        c.clone_from(e);
        let mut d = vec![Expression::parse(t).unwrap()];
        d.clone_from(&vec![e.clone()]);
        let mut b = Box::new(Expression::parse(t).unwrap());
        b.clone_from(&Box::new(e.clone()));
        same(&c) && same(&d[0]) && same(&b)
    })
}

fn reason(r: &Reason) -> (&'static str, Vec<&'static str>, u64) {
    match r {
        Reason::InvalidNot(n) => ("InvalidNot", vec![], *n as u64),
        Reason::InvalidCharacters => ("InvalidCharacters", vec![], 0),
        Reason::UnclosedParens => ("UnclosedParens", vec![], 0),
        Reason::UnopenedParens => ("UnopenedParens", vec![], 0),
        Reason::UnclosedQuotes => ("UnclosedQuotes", vec![], 0),
        Reason::UnopenedQuotes => ("UnopenedQuotes", vec![], 0),
        Reason::Empty => ("Empty", vec![], 0),
        Reason::Unexpected(x) => ("Unexpected", x.to_vec(), 0),
        Reason::InvalidInteger => ("InvalidInteger", vec![], 0),
        Reason::MultipleRootPredicates => ("MultipleRootPredicates", vec![], 0),
        Reason::InvalidHasAtomic => ("InvalidHasAtomic", vec![], 0),
        Reason::UnknownBuiltin => ("UnknownBuiltin", vec![], 0),
        #[allow(unreachable_patterns)]
        _ => ("other", vec![], 0),
    }
}

pub fn write_err(w: &mut W, e: &ParseError, disp: bool) {
    let (r, x, n) = reason(&e.reason);
    w.key("r").str(r);
    w.key("x").arr(|w| x.iter().for_each(|x| w.str(x)));
    w.key("n").num(n);
    w.key("s").num(e.span.start as u64);
    w.key("e").num(e.span.end as u64);
    w.key("o").cps(&e.original);
    // can a user slice the offending part out?
    w.key("sl").arr(|w| {
        if let Some(s) = e.original.get(e.span.clone()) {
            w.cps(s);
        }
    });
    if disp {
        w.key("d").cps(&e.to_string());
        w.key("rd").cps(&e.reason.to_string());
    }
}

type Item = (&'static str, String, usize, usize);

fn item(t: Result<LexerToken<'_>, ParseError>) -> Item {
    match t {
        Ok(t) => {
            let (k, v) = kind(&t.token);
            (k, v, t.span.start, t.span.end)
        }
        Err(e) => ("err", format!("{:?}", e.reason), e.span.start, e.span.end),
    }
}

/// Whether every way of walking the stream of tokens, a part of it or all, gives what its `next`
/// gives, and it never promises more, or less, than comes.
fn ways(text: &str, deep: bool) -> bool {
    let limit = text.len() + 2;
    let mut lx = Lexer::new(text);
    let mut items: Vec<Item> = Vec::new();
    let (mut hints, mut at) = (vec![lx.size_hint()], vec![0]);
    while let Some(t) = lx.next() {
        items.push(item(t));
        if items.len() < 400 || items.len().is_power_of_two() {
            hints.push(lx.size_hint());
            at.push(items.len());
        }
        if items.len() > limit {
            return false;
        }
    }
    let n = items.len();
    let mut ok = hints.iter().zip(at).all(|(h, i)| h.0 <= n - i && h.1.is_none_or(|u| u >= n - i));
    ok &= Lexer::new(text).count() == n;
    ok &= Lexer::new(text).last().map(item).as_ref() == items.last();
    ok &= Lexer::new(text).take(limit).map(item).collect::<Vec<_>>() == items;
    ok &= Lexer::new(text).fold(Vec::new(), |mut v, t| {
        v.push(item(t));
        v
    }) == items;
    // (what a collection of results gives is what comes up to the first error)
    let all: Result<Vec<_>, ParseError> = Lexer::new(text).collect();
    ok &= match all {
        Ok(v) => v.len() == n && items.iter().all(|i| i.0 != "err"),
        Err(e) => items.iter().find(|i| i.0 == "err").is_some_and(|i| i.1 == format!("{:?}", e.reason) && i.2 == e.span.start),
    };
    let steps: Vec<usize> = if deep && n < 24 { (0..n + 2).collect() } else { vec![0, 1, 2, n / 2, n.saturating_sub(1), n, n + 3] };
    for k in steps {
        // the k-th, from the start and from a place further on, and what comes after it
        for from in [0, 1, n / 2] {
            let mut lx = Lexer::new(text);
            for _ in 0..from {
                lx.next();
            }
            ok &= lx.nth(k).map(item).as_ref() == items.get(from + k);
            ok &= lx.next().map(item).as_ref() == items.get(from + k + 1);
            ok &= lx.count() == n.saturating_sub(from + k + 2);
        }
        if k < n {
            let mut lx = Lexer::new(text);
            ok &= lx.position(|t| item(t) == items[k]) == items.iter().position(|i| *i == items[k]);
            ok &= Lexer::new(text).step_by(k + 1).map(item).eq(items.iter().step_by(k + 1).cloned());
        }
    }
    ok
}

fn kind(t: &Token<'_>) -> (&'static str, String) {
    match t {
        Token::Key(v) => ("key", (*v).to_owned()),
        Token::Value(v) => ("val", (*v).to_owned()),
        Token::Equals => ("eq", String::new()),
        Token::All => ("all", String::new()),
        Token::Any => ("any", String::new()),
        Token::Not => ("not", String::new()),
        Token::OpenParen => ("open", String::new()),
        Token::CloseParen => ("close", String::new()),
        Token::Comma => ("comma", String::new()),
        #[allow(unreachable_patterns)]
        _ => ("other", String::new()),
    }
}

pub fn observe(text: &str, f: &Flags) -> String {
    let mut w = W::new();
    w.obj(|w| {
        if f.lex {
            let mut lx = Lexer::new(text);
            let mut err = None;
            let mut count = 0usize;
            let mut runaway = false;
            w.key("t").arr(|w| {
                while let Some(t) = lx.next() {
                    match t {
                        Ok(t) => {
                            count += 1;
                            let (k, v) = kind(&t.token);
                            w.arr(|w| {
                                w.str(k);
                                w.cps(&v);
                                w.num(t.span.start as u64);
                                w.num(t.span.end as u64);
                            });
                            if count > text.len() + 1 {
                                runaway = true;
                                break;
                            }
                        }
                        Err(e) => {
                            err = Some(e);
                            break;
                        }
                    }
                }
            });
            w.key("runaway").bool(runaway);
            w.key("ways").bool(!runaway && ways(text, true));
            w.key("le").arr(|w| {
                if let Some(e) = &err {
                    w.obj(|w| write_err(w, e, f.disp));
                }
            });
            // After the end, or the error, the stream stays ended
            let after = (0..4).filter(|_| lx.next().is_some()).count();
            w.key("after").num(after as u64);
        }
        if f.parse || f.eval || f.disp || f.re {
            match Expression::parse(text) {
                Ok(e) => {
                    w.key("ok").num(1);
                    w.key("o").cps(e.original());
                    if f.parse || f.eval {
                        let ev = evals(&e);
                        w.key("l").arr(|w| ev.leaves.iter().for_each(|l| write_leaf(w, l)));
                        if f.eval {
                            w.key("calls").bool(ev.calls_ok);
                            w.key("v");
                            write_val(w, &ev.v);
                        }
                    }
                    if f.re {
                        // the expression is the text it reports
                        let again = Expression::parse(e.original());
                        w.key("re").bool(match &again {
                            Ok(a) => {
                                *a == e && e == *a && a.original() == e.original()
                            }
                            Err(_) => false,
                        });
                        let c = e.clone();
                        w.key("cl").bool(c == e && c.original() == e.original() && becomes(&e, true));
                        if let Ok(a) = &again {
                            let x = evals(&e);
                            let y = evals(a);
                            let z = evals(&c);
                            let same = |x: &Evals, y: &Evals| {
                                x.leaves == y.leaves && x.v.b == y.v.b && x.v.g1 == y.v.g1 && x.v.kt == y.v.kt
                            };
                            w.key("same").bool(same(&x, &y) && same(&x, &z));
                        }
                    }
                }
                Err(e) => {
                    w.key("ok").num(0);
                    write_err(w, &e, f.disp);
                }
            }
        }
    });
    w.done()
}

// ---------------------------------------------------------------------------------------------

fn rle(w: &mut W, s: &str) {
    w.arr(|w| {
        let mut it = s.chars().peekable();
        while let Some(c) = it.next() {
            let mut n = 1u64;
            while it.peek() == Some(&c) {
                it.next();
                n += 1;
            }
            w.arr(|w| {
                w.num(c as u64);
                w.num(n);
            });
        }
    });
}

/// The tokens of a text of long parts, `cps*k|cps*k...#groups`, compared with those that the groups
/// `start:stride:count:kind.off.len,kind.off.len...` stand for
pub fn tokens(line: &str) -> String {
    let (parts, groups) = line.split_once('#').unwrap();
    let mut text = String::new();
    for p in parts.split('|') {
        let (s, k) = p.split_once('*').unwrap();
        text.push_str(&decode(s).repeat(k.parse().unwrap()));
    }
    let num = |s: &str| s.parse::<usize>().unwrap();
    let groups: Vec<(usize, usize, usize, Vec<(&str, usize, usize)>)> = groups
        .split(';')
        .filter(|g| !g.is_empty())
        .map(|g| {
            let f: Vec<&str> = g.split(':').collect();
            let shape = f[3]
                .split(',')
                .map(|t| {
                    let t: Vec<&str> = t.split('.').collect();
                    (t[0], num(t[1]), num(t[2]))
                })
                .collect();
            (num(f[0]), num(f[1]), num(f[2]), shape)
        })
        .collect();
    let mut expected = groups.iter().flat_map(|(start, stride, count, shape)| {
        (0..*count).flat_map(move |r| shape.iter().map(move |(k, off, len)| (*k, start + r * stride + off, start + r * stride + off + len)))
    });
    let mut w = W::new();
    w.obj(|w| {
        let mut lx = Lexer::new(&text);
        let mut n = 0u64;
        let mut differs = None;
        let mut err = None;
        for t in lx.by_ref() {
            match t {
                Ok(t) => {
                    n += 1;
                    let (s, e) = (t.span.start, t.span.end);
                    let (k, v) = kind(&t.token);
                    let held = match &t.token {
                        Token::Key(_) => text.get(s..e) == Some(v.as_str()),
                        Token::Value(_) => text.get(s + 1..e - 1) == Some(v.as_str()),
                        _ => true,
                    };
                    if expected.next() != Some((k, s, e)) || !held {
                        differs = Some((k, s, e));
                        break;
                    }
                }
                Err(e) => {
                    err = Some(e);
                    break;
                }
            }
        }
        w.key("n").num(n);
        w.key("d").arr(|w| {
            if let Some((k, s, e)) = differs {
                w.str(k);
                w.num(s as u64);
                w.num(e as u64);
            }
        });
        w.key("missing").bool(differs.is_none() && expected.next().is_some());
        w.key("le").arr(|w| {
            if let Some(e) = &err {
                w.obj(|w| write_err(w, e, false));
            }
        });
        w.key("ways").bool(differs.is_some() || ways(&text, false));
        w.key("after").num(if differs.is_none() { (0..4).filter(|_| lx.next().is_some()).count() as u64 } else { 0 });
    });
    w.done()
}

/// A text pre u^k mid w^k post, given as `k|pre|u|mid|w|post`; what it does is reported in a form
/// whose size does not grow with k.
pub fn scale(line: &str) -> String {
    let mut it = line.split('|');
    let k: usize = it.next().unwrap().parse().unwrap();
    let p: Vec<String> = it.map(decode).collect();
    let text = format!("{}{}{}{}{}", p[0], p[1].repeat(k), p[2], p[3].repeat(k), p[4]);
    let mut w = W::new();
    w.obj(|w| {
        let mut lx = Lexer::new(&text);
        let mut toks = 0usize;
        let mut lexerr = 0u64;
        let mut next = 0usize;
        let mut ordered = true;
        for t in lx.by_ref() {
            match t {
                Ok(t) => {
                    toks += 1;
                    ordered &= t.span.start >= next && t.span.end > t.span.start;
                    next = t.span.end;
                }
                Err(e) => {
                    lexerr += 1;
                    ordered &= e.span.start >= next && e.span.end >= e.span.start;
                }
            }
            if toks > text.len() || lexerr > 3 {
                break;
            }
        }
        w.key("lexend").bool(lx.next().is_none() && lexerr <= 1 && ordered);
        match Expression::parse(&text) {
            Ok(e) => {
                w.key("ok").num(1);
                w.key("tb").num(e.original().len() as u64);
                w.key("src").bool(text.contains(e.original()));
                let ev = if k > 600 { evals_at(&e, 6, false) } else { evals(&e) };
                w.key("stride").num(if k > 600 { 6 } else { 1 });
                let mut bag: std::collections::HashMap<(&str, &str, &str), u64> = Default::default();
                for l in &ev.leaves {
                    *bag.entry((l.0, &l.2, &l.3)).or_insert(0) += 1;
                }
                w.key("bag").arr(|w| {
                    for ((kind, name, val), n) in &bag {
                        w.arr(|w| {
                            w.arr(|w| {
                                w.str(kind);
                                rle(w, name);
                                rle(w, val);
                            });
                            w.num(*n);
                        });
                    }
                });
                w.key("calls").bool(ev.calls_ok);
                w.key("v");
                write_val(w, &ev.v);
                let again = Expression::parse(e.original());
                let mut re = again.as_ref().is_ok_and(|a| *a == e && e.clone() == *a);
                if k <= 262144 {
                    // a clone of its own, after the original is gone
                    let c = e.clone();
                    drop(e);
                    let cv = if k > 600 { evals_at(&c, 6, false) } else { evals(&c) };
                    re &= cv.calls_ok == ev.calls_ok && cv.leaves == ev.leaves && cv.v == ev.v;
                }
                if k <= 4096 {
                    re &= again.as_ref().is_ok_and(|a| becomes(a, false));
                }
                w.key("re").bool(re);
            }
            Err(e) => {
                w.key("ok").num(0);
                let (r, x, n) = reason(&e.reason);
                w.key("r").str(r);
                w.key("x").arr(|w| x.iter().for_each(|x| w.str(x)));
                w.key("n").num(n);
                w.key("s").num(e.span.start as u64);
                w.key("e").num(e.span.end as u64);
                w.key("sl").bool(e.original.get(e.span.clone()).is_some());
                w.key("tb").num(e.original.len() as u64);
                w.key("src").bool(text.contains(&e.original));
                w.key("dl").num(e.to_string().len() as u64);
            }
        }
    });
    w.done()
}

/// Two texts, `a|b`: are they equal expressions?
pub fn pair(line: &str) -> String {
    let (a, b) = line.split_once('|').unwrap();
    let (a, b) = (Expression::parse(&decode(a)), Expression::parse(&decode(b)));
    let mut w = W::new();
    w.obj(|w| match (&a, &b) {
        (Ok(a), Ok(b)) => {
            let x = evals(a);
            let y = evals(b);
            w.key("ok").num(1);
            w.key("eq").bool(a == b);
            w.key("qe").bool(b == a);
            w.key("ne").bool(a != b);
            w.key("same").bool(x.leaves == y.leaves && x.v.b == y.v.b && x.v.kt == y.v.kt && x.v.g1 == y.v.g1);
        }
        _ => {
            w.key("ok").num(0);
            w.key("acc").arr(|w| {
                w.bool(a.is_ok());
                w.bool(b.is_ok());
            });
        }
    });
    w.done()
}

/// The token streams of three texts around every character of block b, as runs of equal shapes
pub fn chars(line: &str) -> String {
    let b: u32 = line.parse().unwrap();
    let shape = |t: &str| {
        let mut w = W::new();
        w.arr(|w| {
            let mut err = None;
            w.arr(|w| {
                for t in Lexer::new(t).take(9) {
                    match t {
                        Ok(t) => w.arr(|w| {
                            w.str(kind(&t.token).0);
                            w.num(t.span.start as u64);
                            w.num(t.span.end as u64);
                        }),
                        Err(e) => {
                            err = Some(e);
                            break;
                        }
                    }
                }
            });
            w.arr(|w| {
                if let Some(e) = err {
                    w.arr(|w| {
                        w.str(reason(&e.reason).0);
                        w.num(e.span.start as u64);
                        w.num(e.span.end as u64);
                    });
                }
            });
        });
        w.done()
    };
    let mut runs: Vec<(u32, u32, String)> = Vec::new();
    for c in (256 * b..256 * b + 256).filter_map(char::from_u32) {
        let s = format!(
            "[{},{},{}]",
            shape(&format!("a{c}b")),
            shape(&format!("{c}9a")),
            shape(&format!("\"{c}\"{c}("))
        );
        match runs.last_mut() {
            Some(r) if r.2 == s && r.1 + 1 == c as u32 => r.1 = c as u32,
            _ => runs.push((c as u32, c as u32, s)),
        }
    }
    let runs: Vec<String> = runs.into_iter().map(|(a, z, s)| format!("[{a},{z},{s}]")).collect();
    format!("{{\"b\":{b},\"runs\":[{}]}}", runs.join(","))
}

/// `x y` of t, f, u: the library's own logics called directly; where both are known, two-valued too
pub fn logic(l: &str) -> String {
    fn opt(c: &str) -> Option<bool> {
        match c {
            "t" => Some(true),
            "f" => Some(false),
            _ => None,
        }
    }
    fn name(v: Option<bool>) -> &'static str {
        v.map_or("u", |v| if v { "t" } else { "f" })
    }
    fn all<T: Logic + Copy>(x: T, y: T, n: impl Fn(T) -> &'static str) -> String {
        let mut w = W::new();
        w.obj(|w| {
            w.key("and").str(n(x.and(y)));
            w.key("or").str(n(x.or(y)));
            w.key("not").str(n(x.not()));
            w.key("top").str(n(T::top()));
            w.key("bottom").str(n(T::bottom()));
        });
        w.done()
    }
    let (a, b) = l.split_once(' ').unwrap();
    let (x, y) = (opt(a), opt(b));
    let three = all(x, y, name);
    match (x, y) {
        (Some(x), Some(y)) => format!("[{three},{}]", all(x, y, |v| name(Some(v)))),
        _ => format!("[{three}]"),
    }
}

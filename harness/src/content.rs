//! How values of one kind compare with one another.
use crate::json::W;
use crate::targets;
use crate::text::decode;
use cfg_expr::error::{ParseError, Reason};
use cfg_expr::expr::lexer::{Lexer, Token};
use cfg_expr::expr::{Func, TargetPredicate as TP};
use cfg_expr::targets::{HasAtomic, TargetInfo, get_builtin_target_by_triple};
use cfg_expr::{Expression, Predicate};
use std::cmp::Ordering;
use std::hash::{DefaultHasher, Hash, Hasher};

type Row = [Vec<usize>; 8];

fn hash_of(t: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// eq, ne, clone == other, same hash, less, greater, both once more by partial_cmp
fn rows<T: PartialEq>(
    vs: &[T],
    clone: impl Fn(&T) -> Option<T>,
    hash: impl Fn(&T) -> u64,
    cmp: impl Fn(&T, &T) -> Option<(Ordering, Option<Ordering>)>,
) -> Vec<Row> {
    vs.iter()
        .map(|a| {
            let c = clone(a);
            let pick = |f: &dyn Fn(&T) -> bool| -> Vec<usize> { vs.iter().enumerate().filter(|(_, b)| f(b)).map(|(j, _)| j).collect() };
            let ord = |w: Ordering| pick(&|b| cmp(a, b).is_some_and(|x| x.0 == w));
            let pord = |w: Ordering| pick(&|b| cmp(a, b).is_some_and(|x| x.1 == Some(w)));
            [
                pick(&|b| a == b),
                #[allow(clippy::nonminimal_bool)]
                pick(&|b| a != b),
                c.map_or_else(|| pick(&|b| b == a), |c| pick(&|b| *b == c)),
                pick(&|b| hash(a) == hash(b)),
                ord(Ordering::Less),
                ord(Ordering::Greater),
                pord(Ordering::Less),
                pord(Ordering::Greater),
            ]
        })
        .collect()
}

fn leak<T: ?Sized>(b: Box<T>) -> &'static T {
    Box::leak(b)
}

fn expression(t: &str) -> Expression {
    Expression::parse(&decode(t)).unwrap_or_else(|e| panic!("description: {e}"))
}

fn pred_of(e: &Expression) -> Predicate<'_> {
    e.predicates().next().unwrap()
}

fn reason(r: &str, n: usize, x: &str) -> Reason {
    let x: Vec<&'static str> = x.split(';').filter(|x| !x.is_empty()).map(|x| leak(decode(x).into_boxed_str())).collect();
    match r {
        "InvalidNot" => Reason::InvalidNot(n),
        "InvalidCharacters" => Reason::InvalidCharacters,
        "UnclosedParens" => Reason::UnclosedParens,
        "UnopenedParens" => Reason::UnopenedParens,
        "UnclosedQuotes" => Reason::UnclosedQuotes,
        "UnopenedQuotes" => Reason::UnopenedQuotes,
        "Empty" => Reason::Empty,
        "Unexpected" => Reason::Unexpected(leak(x.into_boxed_slice())),
        "InvalidInteger" => Reason::InvalidInteger,
        "MultipleRootPredicates" => Reason::MultipleRootPredicates,
        "InvalidHasAtomic" => Reason::InvalidHasAtomic,
        "UnknownBuiltin" => Reason::UnknownBuiltin,
        _ => panic!("reason {r}"),
    }
}

/// `original|start|end|reason|n|x;x`
pub fn error(f: &[&str]) -> ParseError {
    ParseError {
        original: decode(f[0]),
        span: f[1].parse().unwrap()..f[2].parse().unwrap(),
        reason: reason(f[3], f[4].parse().unwrap(), f[5]),
    }
}

/// What a made error shows
pub fn shown(line: &str) -> String {
    let f: Vec<&str> = line.split('|').collect();
    let e = error(&f);
    let mut w = W::new();
    w.obj(|w| {
        w.key("d").cps(&e.to_string());
        w.key("rd").cps(&e.reason.to_string());
        #[allow(deprecated)]
        w.key("ds").cps(std::error::Error::description(&e));
    });
    w.done()
}

pub fn compare(kind: &str, lines: &[String]) -> Vec<Row> {
    let fs: Vec<Vec<&str>> = lines.iter().map(|l| l.split('|').collect()).collect();
    match kind {
        "predicate" => {
            let exprs: Vec<Option<Expression>> = fs.iter().map(|f| (f[0] == "parsed").then(|| expression(f[1]))).collect();
            let texts: Vec<(String, String)> =
                fs.iter().map(|f| if f[0] == "parsed" { Default::default() } else { (decode(f[2]), decode(f[3])) }).collect();
            let vs: Vec<Predicate<'_>> = fs
                .iter()
                .zip(&exprs)
                .zip(&texts)
                .map(|((f, e), (n, v))| match e {
                    Some(e) => pred_of(e),
                    None => match f[1] {
                        "flag" => Predicate::Flag(n),
                        "kv" => Predicate::KeyValue { key: n, val: v },
                        "feature" => Predicate::Feature(v),
                        "tfeature" => Predicate::TargetFeature(v),
                        "test" => Predicate::Test,
                        "debug" => Predicate::DebugAssertions,
                        "procmacro" => Predicate::ProcMacro,
                        k => Predicate::Target(targets::pred(&format!("{k}={}", f[3]))),
                    },
                })
                .collect();
            rows(&vs, |_| None, |_| 0, |_, _| None)
        }
        "target predicate" => {
            let vs: Vec<TP> = fs
                .iter()
                .map(|f| match f[0] {
                    "parsed" => match pred_of(&expression(f[1])) {
                        Predicate::Target(t) => t,
                        p => panic!("description: {p:?}"),
                    },
                    "static" => targets::pred_static(&format!("{}={}", f[1], f[2])),
                    _ => targets::pred(&format!("{}={}", f[1], f[2])),
                })
                .collect();
            rows(&vs, |v| Some(v.clone()), |_| 0, |_, _| None)
        }
        "token" => {
            let texts: Vec<String> = fs.iter().map(|f| decode(if f[0] == "lexed" { f[1] } else { f[2] })).collect();
            let vs: Vec<Token<'_>> = fs
                .iter()
                .zip(&texts)
                .map(|(f, t)| match (f[0], f[1]) {
                    ("lexed", _) => Lexer::new(t).next().unwrap().unwrap().token,
                    (_, "key") => Token::Key(t),
                    (_, "val") => Token::Value(t),
                    (_, "eq") => Token::Equals,
                    (_, "all") => Token::All,
                    (_, "any") => Token::Any,
                    (_, "not") => Token::Not,
                    (_, "open") => Token::OpenParen,
                    (_, "close") => Token::CloseParen,
                    (_, "comma") => Token::Comma,
                    x => panic!("token {x:?}"),
                })
                .collect();
            rows(&vs, |v| Some(v.clone()), |_| 0, |_, _| None)
        }
        "function" => {
            let vs: Vec<Func> = fs
                .iter()
                .map(|f| match f[0] {
                    "not" => Func::Not,
                    "all" => Func::All(f[1].parse().unwrap()),
                    _ => Func::Any(f[1].parse().unwrap()),
                })
                .collect();
            rows(&vs, |v| Some(*v), |_| 0, |a, b| Some((a.cmp(b), a.partial_cmp(b))))
        }
        "error" => {
            let vs: Vec<ParseError> = fs
                .iter()
                .map(|f| match f[0] {
                    "parsed" => Expression::parse(&decode(f[1])).expect_err("description"),
                    _ => error(&f[1..]),
                })
                .collect();
            rows(&vs, |_| None, |_| 0, |_, _| None)
        }
        "expression" => {
            let vs: Vec<Expression> = fs.iter().map(|f| expression(f[0])).collect();
            rows(&vs, |v| Some(v.clone()), |_| 0, |_, _| None)
        }
        "number error" => {
            let vs: Vec<_> = fs.iter().map(|f| decode(f[0]).parse::<HasAtomic>().unwrap_err()).collect();
            rows(&vs, |v| Some(v.clone()), |_| 0, |_, _| None)
        }
        "target" => {
            let vs: Vec<TargetInfo> = lines
                .iter()
                .map(|l| match l.split_once('|').unwrap() {
                    ("builtin", t) => get_builtin_target_by_triple(&decode(t)).expect("description").clone(),
                    (c, d) => targets::target(d, c == "owned"),
                })
                .collect();
            rows(&vs, |v| Some(v.clone()), hash_of, |a, b| Some((a.cmp(b), a.partial_cmp(b))))
        }
        _ => panic!("kind {kind}"),
    }
}

pub fn print(kind: &str) {
    let lines: Vec<String> = std::io::stdin().lines().map(|l| l.unwrap()).collect();
    for r in compare(kind, &lines) {
        let mut w = W::new();
        w.obj(|w| {
            for (k, js) in ["eq", "ne", "ceq", "hash", "lt", "gt", "plt", "pgt"].iter().zip(&r) {
                w.key(k).arr(|w| js.iter().for_each(|j| w.num(*j as u64)));
            }
        });
        println!("{}", w.done());
    }
}

//! Histories of calls, by one thread or several at a time.  Expressions are shared between threads.
use crate::json::W;
use crate::targets;
use crate::text;
use cfg_expr::expr::TargetPredicate as TP;
use cfg_expr::targets::{TargetInfo, get_builtin_target_by_triple};
use cfg_expr::{Expression, Predicate};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::{Arc, Barrier};

pub struct Context {
    texts: Vec<String>,
    triples: Vec<String>,
    preds: Vec<TP>,
    made: Vec<TargetInfo>,
    #[cfg(feature = "triple")]
    lex: Vec<Option<cfg_expr::target_lexicon::Triple>>,
    shared: Vec<Option<Expression>>,
}

/// lines `t <text>`, `j <triple>`, `m <target>`, `p <pred>`
pub fn context(path: &str, alone: bool) -> Arc<Context> {
    let mut c = Context { texts: vec![], triples: vec![], preds: vec![], made: vec![], #[cfg(feature = "triple")] lex: vec![], shared: vec![] };
    for l in std::fs::read_to_string(path).unwrap().lines() {
        let rest = &l[2..];
        match &l[..1] {
            "t" => c.texts.push(text::decode(rest)),
            "j" => c.triples.push(text::decode(rest)),
            "m" => c.made.push(targets::target(rest, c.made.len() % 2 == 0)),
            "p" => c.preds.push(targets::pred(rest)),
            _ => panic!("context"),
        }
    }
    // nothing is parsed beforehand in a process that asks one question only
    c.shared = if alone { vec![] } else { c.texts.iter().map(|t| Expression::parse(t).ok()).collect() };
    #[cfg(feature = "triple")]
    {
        c.lex = c.triples.iter().map(|t| t.parse().ok()).collect();
    }
    Arc::new(c)
}

fn outcome(t: &str) -> (String, Option<Expression>) {
    let mut w = W::new();
    let mut out = None;
    w.obj(|w| match Expression::parse(t) {
        Ok(e) => {
            w.key("ok").num(1);
            w.key("o").cps(e.original());
            out = Some(e);
        }
        Err(e) => {
            w.key("ok").num(0);
            text::write_err(w, &e, true);
        }
    });
    (w.done(), out)
}

fn value(e: &Expression) -> String {
    let x = text::evals_at(e, 3, true);
    let mut w = W::new();
    w.obj(|w| {
        w.key("calls").bool(x.calls_ok);
        w.key("v");
        text::write_val(w, &x.v);
    });
    w.done()
}

fn run(c: &Context, ops: &str) -> Vec<String> {
    let mut slots: Vec<Option<Expression>> = vec![None; 9];
    let bit = |b: bool| (b as u32).to_string();
    ops.split(';')
        .map(|op| {
            let f: Vec<&str> = op.split(' ').collect();
            let n = |i: usize| f[i].parse::<usize>().unwrap();
            let slot = |i: usize| slots[n(i)].as_ref().unwrap();
            match f[0] {
                "parse" => {
                    let (s, e) = outcome(&c.texts[n(2) - 1]);
                    if e.is_some() {
                        slots[n(1)] = e;
                    }
                    s
                }
                "list" => {
                    let mut w = W::new();
                    w.arr(|w| slot(1).predicates().for_each(|p| text::write_leaf(w, &text::leaf(&p))));
                    w.done()
                }
                "eval" => value(slot(1)),
                "shared" => value(c.shared[n(1) - 1].as_ref().unwrap()),
                "orig" => {
                    let mut w = W::new();
                    w.cps(slot(1).original());
                    w.done()
                }
                "drop" => {
                    slots[n(1)] = None;
                    bit(true)
                }
                "abort" => {
                    let mut k = 0;
                    let r = catch_unwind(AssertUnwindSafe(|| {
                        slot(1).eval(|_| {
                            k += 1;
                            if k == n(2) {
                                std::panic::resume_unwind(Box::new(7u8));
                            }
                            k % 2 == 0
                        })
                    }));
                    match r {
                        Ok(_) => bit(false),
                        Err(e) if e.downcast_ref::<u8>() == Some(&7) => bit(true),
                        Err(_) => "panic".into(),
                    }
                }
                "nest" => {
                    let (s, z) = (slot(1), slot(2));
                    let mut inner: Vec<String> = vec![];
                    let x = text::leaf_eval(s, || inner.push(value(z)));
                    inner.dedup();
                    format!("{x}/{}", inner.join("/"))
                }
                "inside" => {
                    let s = slot(1);
                    let mut inner: Vec<String> = vec![];
                    let x = text::leaf_eval(s, || inner.push(outcome(&c.texts[n(2) - 1]).0));
                    inner.dedup();
                    format!("{x}/{}", inner.join("/"))
                }
                "copy" => {
                    let e = slot(1).clone();
                    let same = &e == slot(1);
                    slots[n(2)] = Some(e);
                    bit(same)
                }
                "eq" => {
                    let (a, b) = (slot(1), slot(2));
                    if (a == b) == (a != b) || (a == b) != (b == a) { "odd".into() } else { bit(a == b) }
                }
                "find" => {
                    let t = &c.triples[n(1) - 1];
                    match get_builtin_target_by_triple(t) {
                        None => bit(false),
                        Some(x) if x.triple.as_str() == t => bit(true),
                        Some(x) => x.triple.as_str().to_owned(),
                    }
                }
                "match" => bit(get_builtin_target_by_triple(&c.triples[n(1) - 1]).is_some_and(|t| c.preds[n(2) - 1].matches(t))),
                "made" => bit(c.preds[n(2) - 1].matches(&c.made[n(1) - 1])),
                #[cfg(feature = "triple")]
                "lex" => match &c.lex[n(1) - 1] {
                    None => "none".into(),
                    Some(t) => bit(c.preds[n(2) - 1].matches(t)),
                },
                "verdict" => bit(get_builtin_target_by_triple(&c.triples[n(2) - 1]).is_some_and(|t| {
                    slot(1).eval(|p| match p {
                        Predicate::Target(tp) => tp.matches(t),
                        _ => false,
                    })
                })),
                _ => panic!("op {op}"),
            }
        })
        .collect()
}

/// a history again and again, from empty slots: the answers, or where one was another than the first
/// time, that one
fn again(c: &Context, h: &str, times: usize) -> Vec<String> {
    let mut first = run(c, h);
    for _ in 1..times {
        let a = run(c, h);
        if a != first {
            for (x, y) in first.iter_mut().zip(a) {
                if *x != y {
                    *x = format!("{y} once, {x}");
                    break;
                }
            }
            break;
        }
    }
    first
}

/// `history|history|...`: each by a thread of its own, all at the same time
pub fn histories(line: &str, c: &Arc<Context>, times: usize) -> String {
    let hs: Vec<&str> = line.split('|').collect();
    let answers: Vec<Result<Vec<String>, ()>> = if hs.len() == 1 {
        vec![Ok(again(c, hs[0], times))]
    } else {
        let gate = Barrier::new(hs.len());
        std::thread::scope(|s| {
            let ts: Vec<_> = hs
                .iter()
                .map(|h| {
                    s.spawn(|| {
                        gate.wait();
                        again(c, h, times)
                    })
                })
                .collect();
            ts.into_iter().map(|t| t.join().map_err(|_| ())).collect()
        })
    };
    let mut w = W::new();
    w.arr(|w| {
        for a in answers {
            w.arr(|w| match a {
                Ok(a) => a.iter().for_each(|x| w.str(x)),
                Err(()) => w.str("panic"),
            });
        }
    });
    w.done()
}

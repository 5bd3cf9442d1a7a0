//! Targets: the built-in table, lookup, matching, values and sets, and whole verdicts.
use crate::json::W;
use crate::text::{decode, leaf};
use cfg_expr::expr::TargetPredicate as TP;
use cfg_expr::targets::*;
use cfg_expr::{Expression, Predicate};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

pub fn endian(s: &str) -> Endian {
    match s {
        "big" => Endian::big,
        "little" => Endian::little,
        _ => panic!("endian {s}"),
    }
}
pub fn endian_str(e: Endian) -> &'static str {
    match e {
        Endian::big => "big",
        Endian::little => "little",
    }
}
pub fn atomic(s: &str) -> HasAtomic {
    if s == "ptr" { HasAtomic::Pointer } else { HasAtomic::IntegerSize(s.parse().unwrap()) }
}
pub fn atomic_str(a: HasAtomic) -> String {
    match a {
        HasAtomic::IntegerSize(n) => n.to_string(),
        HasAtomic::Pointer => "ptr".to_owned(),
        _ => "?".to_owned(),
    }
}

/// `key=value`, the value as code points
pub fn pred(line: &str) -> TP {
    let (k, v) = line.split_once('=').unwrap();
    let v = decode(v);
    match k {
        "abi" => TP::Abi(Abi::new(v)),
        "arch" => TP::Arch(Arch::new(v)),
        "endian" => TP::Endian(endian(&v)),
        "env" => TP::Env(Env::new(v)),
        "family" => TP::Family(Family::new(v)),
        "atomic" => TP::HasAtomic(atomic(&v)),
        "os" => TP::Os(Os::new(v)),
        "panic" => TP::Panic(Panic::new(v)),
        "width" => TP::PointerWidth(v.parse().unwrap()),
        "vendor" => TP::Vendor(Vendor::new(v)),
        _ => panic!("pred {k}"),
    }
}

/// the same from static strings
pub fn pred_static(line: &str) -> TP {
    let (k, v) = line.split_once('=').unwrap();
    let v = leak(decode(v));
    match k {
        "abi" => TP::Abi(Abi::new_const(v)),
        "arch" => TP::Arch(Arch::new_const(v)),
        "env" => TP::Env(Env::new_const(v)),
        "family" => TP::Family(Family::new_const(v)),
        "os" => TP::Os(Os::new_const(v)),
        "panic" => TP::Panic(Panic::new_const(v)),
        "vendor" => TP::Vendor(Vendor::new_const(v)),
        _ => pred(line),
    }
}

pub fn preds(path: &str) -> Vec<TP> {
    std::fs::read_to_string(path).unwrap().lines().map(pred).collect()
}

fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// A target description `triple|os|abi|arch|env|vendor|fam;fam|width|endian|at;at|panic`, every value
/// as code points, absent ones as `-`.  `owned` selects how the values are made.
pub fn target(line: &str, owned: bool) -> TargetInfo {
    let f: Vec<&str> = line.split('|').collect();
    macro_rules! val {
        ($t:ident, $s:expr) => {{
            let s = decode($s);
            if owned { $t::new(s) } else { $t::new_const(leak(s)) }
        }};
    }
    macro_rules! opt {
        ($t:ident, $s:expr) => {
            if $s == "-" { None } else { Some(val!($t, $s)) }
        };
    }
    let list = |s: &str| -> Vec<String> { s.split(';').filter(|x| !x.is_empty()).map(|x| if x == "e" { String::new() } else { decode(x) }).collect() };
    TargetInfo {
        triple: val!(Triple, f[0]),
        os: opt!(Os, f[1]),
        abi: opt!(Abi, f[2]),
        arch: val!(Arch, f[3]),
        env: opt!(Env, f[4]),
        vendor: opt!(Vendor, f[5]),
        families: Families::new(list(f[6]).into_iter().map(Family::new)),
        pointer_width: decode(f[7]).parse().unwrap(),
        endian: endian(&decode(f[8])),
        has_atomics: HasAtomics::new(list(f[9]).iter().map(|s| atomic(s))),
        panic: val!(Panic, f[10]),
    }
}

fn matched(w: &mut W, m: impl Fn(&TP) -> bool, ps: &[TP]) {
    w.arr(|w| {
        for (i, p) in ps.iter().enumerate() {
            if m(p) {
                w.num(i as u64 + 1);
            }
        }
    });
}

pub fn matches(line: &str, ps: &[TP]) -> String {
    let mut w = W::new();
    w.obj(|w| {
        for (k, owned) in [("owned", true), ("static", false)] {
            let t = target(line, owned);
            w.key(k);
            matched(w, |p| p.matches(&t), ps);
        }
    });
    w.done()
}

fn info(w: &mut W, t: &TargetInfo) {
    let opt = |w: &mut W, v: Option<&str>| w.arr(|w| v.into_iter().for_each(|v| w.cps(v)));
    w.obj(|w| {
        w.key("triple").cps(t.triple.as_str());
        w.key("os");
        opt(w, t.os.as_ref().map(Os::as_str));
        w.key("abi");
        opt(w, t.abi.as_ref().map(Abi::as_str));
        w.key("arch").cps(t.arch.as_str());
        w.key("env");
        opt(w, t.env.as_ref().map(Env::as_str));
        w.key("vendor");
        opt(w, t.vendor.as_ref().map(Vendor::as_str));
        w.key("fam").arr(|w| t.families.iter().for_each(|f| w.cps(f.as_str())));
        w.key("width").cps(&t.pointer_width.to_string());
        w.key("endian").cps(endian_str(t.endian));
        w.key("atomics").arr(|w| t.has_atomics.iter().for_each(|a| w.cps(&atomic_str(*a))));
        w.key("panic").cps(t.panic.as_str());
        // the sets are those that anyone else would make of the same elements
        let same = t.families == Families::new(t.families.iter().cloned()) && t.has_atomics == HasAtomics::new(t.has_atomics.iter().copied());
        w.key("canon").num(u64::from(same));
    });
}

/// Everything about the table
pub fn table() -> Vec<String> {
    let mut out = Vec::new();
    let mut w = W::new();
    w.obj(|w| {
        w.key("version").cps(rustc_version());
        w.key("n").num(ALL_BUILTINS.len() as u64);
    });
    out.push(w.done());
    for t in ALL_BUILTINS {
        let mut w = W::new();
        info(&mut w, t);
        out.push(w.done());
    }
    #[cfg(feature = "consts")]
    for (t, n, v) in crate::consts::constants() {
        let mut w = W::new();
        w.obj(|w| {
            w.key("type").str(t);
            w.key("name").cps(n);
            w.key("value").arr(|w| v.iter().for_each(|v| w.cps(v)));
        });
        out.push(w.done());
    }
    out
}

/// Which predicates a built-in target matches
pub fn builtin(line: &str, ps: &[TP]) -> String {
    let t = &ALL_BUILTINS[line.parse::<usize>().unwrap() - 1];
    let mut w = W::new();
    w.obj(|w| {
        w.key("m");
        matched(w, |p| p.matches(t), ps);
    });
    w.done()
}

/// Lookup of a triple: the number of the entry found, and whether it is that entry with all its facts
pub fn lookup(line: &str) -> String {
    let s = decode(line);
    let mut w = W::new();
    w.obj(|w| match get_builtin_target_by_triple(&s) {
        None => w.key("i").num(0),
        Some(t) => {
            let i = ALL_BUILTINS.iter().position(|x| std::ptr::eq(x, t));
            let j = ALL_BUILTINS.iter().position(|x| x == t);
            w.key("i").num(i.or(j).map_or(999_999, |i| i as u64 + 1));
            w.key("same").bool(t.triple.as_str() == s && j.is_some());
        }
    });
    w.done()
}

fn hash(t: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// Two values `a|b` of every kind
pub fn values(line: &str) -> String {
    let (a, b) = line.split_once('|').unwrap();
    let (a, b) = (decode(a), decode(b));
    let mut w = W::new();
    w.obj(|w| {
        // eq lt gt hash-implied display as_str as_ref const=owned, for every kind; all must agree
        let mut eq = Vec::new();
        let mut cmp = Vec::new();
        let mut shown = Vec::new();
        let mut selfeq = true;
        macro_rules! kind {
            ($($t:ident)*) => {$({
                let (x, y) = ($t::new(a.clone()), $t::new_const(leak(b.clone())));
                let (x2, y2) = ($t::new_const(leak(a.clone())), $t::new(b.clone()));
                let x3 = x.clone();
                eq.push(u64::from(x == y));
                eq.push(u64::from(y2 == x2));
                eq.push(u64::from(!(x != y)));
                cmp.push(x.cmp(&y) as i8 as i64 + 1);
                cmp.push(1 - (y2.cmp(&x2) as i8 as i64));
                cmp.push(x2.partial_cmp(&y).map_or(9, |c| c as i8 as i64 + 1));
                shown.push(x.to_string());
                shown.push(x2.as_str().to_owned());
                shown.push(AsRef::<str>::as_ref(&x3).to_owned());
                shown.push(x3.0.into_owned());
                selfeq &= x == x2 && hash(&x) == hash(&x2) && y == y2 && hash(&y) == hash(&y2)
                    && (x != y || hash(&x) == hash(&y));
            })*};
        }
        kind!(Triple Abi Arch Vendor Os Family Env Panic);
        w.key("eq").arr(|w| eq.iter().for_each(|e| w.num(*e)));
        w.key("cmp").arr(|w| cmp.iter().for_each(|c| w.num(*c as u64)));
        w.key("shown").bool(shown.iter().all(|s| *s == a));
        w.key("self").bool(selfeq);
    });
    w.done()
}

/// A string as an endianness and as an atomic width
pub fn scalars(line: &str) -> String {
    let s = decode(line);
    let mut w = W::new();
    w.obj(|w| {
        w.key("endian").arr(|w| match s.parse::<Endian>() {
            Ok(e) => w.cps(endian_str(e)),
            Err(_) => {}
        });
        w.key("atomic").arr(|w| match s.parse::<HasAtomic>() {
            Ok(a) => w.cps(&a.to_string()),
            Err(_) => {}
        });
        w.key("err").arr(|w| match s.parse::<HasAtomic>() {
            Ok(_) => {}
            Err(e) => w.cps(&e.to_string()),
        });
        w.key("variant").arr(|w| match s.parse::<HasAtomic>() {
            Ok(a) => w.cps(&atomic_str(a)),
            Err(_) => {}
        });
    });
    w.done()
}

/// Two sets `x;x|y;y` of elements, as families and (if they are widths) as atomics
pub fn sets(line: &str) -> String {
    let mut it = line.split('|');
    let kind = it.next().unwrap();
    let list = |s: &str| -> Vec<String> { s.split(';').filter(|x| !x.is_empty()).map(|x| if x == "e" { String::new() } else { decode(x) }).collect() };
    let (a, b, probes) = (list(it.next().unwrap()), list(it.next().unwrap()), list(it.next().unwrap()));
    let mut w = W::new();
    macro_rules! go {
        ($set:ident, $mk:expr, $show:expr, $has:expr, $el:ty) => {{
            let xs: Vec<$el> = a.iter().map($mk).collect();
            let ys: Vec<$el> = b.iter().map($mk).collect();
            let x = $set::new(xs.clone());
            let y = $set::new(ys.clone());
            // the same set from a sorted static slice
            let mut sorted = xs.clone();
            sorted.sort();
            let c = $set::new_const(Box::leak(sorted.into_boxed_slice()));
            w.obj(|w| {
                w.key("items").arr(|w| x.iter().for_each(|v| w.cps(&$show(v))));
                w.key("asref").arr(|w| AsRef::<[$el]>::as_ref(&x).iter().for_each(|v| w.cps(&$show(v))));
                w.key("disp").cps(&x.to_string());
                w.key("has").arr(|w| probes.iter().for_each(|p| {
                    let p = ($mk)(p);
                    w.bool($has(&x, &p) && $has(&c, &p));
                }));
                w.key("hasany").arr(|w| probes.iter().for_each(|p| {
                    let p = ($mk)(p);
                    w.bool($has(&x, &p) || $has(&c, &p));
                }));
                w.key("eq").bool(x == y);
                w.key("cmp").num((x.cmp(&y) as i8 as i64 + 1) as u64);
                w.key("pmc").num((1 - (y.cmp(&x) as i8 as i64)) as u64);
                w.key("pcmp").num(x.partial_cmp(&y).map_or(9, |c| (c as i8 as i64 + 1) as u64));
                w.key("hash").bool(hash(&x) == hash(&y));
                w.key("self").bool(x == c && hash(&x) == hash(&c) && x == x.clone() && x.len() == xs.len());
            });
        }};
    }
    match kind {
        "family" => go!(
            Families,
            |s: &String| Family::new(s.clone()),
            |f: &Family| f.as_str().to_owned(),
            |s: &Families, f: &Family| s.contains(f),
            Family
        ),
        _ => go!(
            HasAtomics,
            |s: &String| atomic(s),
            |a: &HasAtomic| atomic_str(*a),
            |s: &HasAtomics, a: &HasAtomic| s.contains(*a),
            HasAtomic
        ),
    }
    w.done()
}

/// `text|kind:name:value;...`: for which built-in targets a text is true, with those other leaves set
pub fn verdict(line: &str) -> String {
    let (text, on) = line.split_once('|').unwrap();
    let text = decode(text);
    let on: Vec<(String, String, String)> = on
        .split(';')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let mut it = x.split(':');
            (it.next().unwrap().to_owned(), decode(it.next().unwrap()), decode(it.next().unwrap()))
        })
        .collect();
    let mut w = W::new();
    w.obj(|w| match Expression::parse(&text) {
        Err(_) => w.key("ok").num(0),
        Ok(e) => {
            w.key("ok").num(1);
            w.key("on").arr(|w| {
                for (i, t) in ALL_BUILTINS.iter().enumerate() {
                    let r = e.eval(|p| match p {
                        Predicate::Target(tp) => tp.matches(t),
                        p => {
                            let l = leaf(p);
                            on.iter().any(|(k, n, v)| *k == l.0 && *n == l.2 && *v == l.3)
                        }
                    });
                    if r {
                        w.num(i as u64 + 1);
                    }
                }
            });
        }
    });
    w.done()
}

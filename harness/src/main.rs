//! The observer: runs the public API of cfg-expr on given inputs and reports what it did, one
//! JSON line per input line.  It holds no expectations; those come from the specification.
#[cfg(feature = "consts")]
mod consts;
mod content;
#[cfg(feature = "threads")]
mod history;
mod json;
mod targets;
mod text;
#[cfg(feature = "triple")]
mod triple;

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Duration;

pub static CURRENT: AtomicU64 = AtomicU64::new(0);

fn each_line(mut f: impl FnMut(&str) -> String) {
    // A watchdog: one input that takes this long is a hang.
    let limit: u64 = std::env::var("OBS_LIMIT_S").ok().and_then(|v| v.parse().ok()).unwrap_or(20);
    std::thread::spawn(move || {
        let mut last = (u64::MAX, 0);
        loop {
            std::thread::sleep(Duration::from_secs(1));
            let now = CURRENT.load(Ordering::Relaxed);
            last = if now == last.0 { (now, last.1 + 1) } else { (now, 0) };
            if last.1 > limit {
                eprintln!("HANG {now}");
                std::process::exit(86);
            }
        }
    });
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    let mut n = 0u64;
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        CURRENT.store(n, Ordering::Relaxed);
        n += 1;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&line)));
        let r = r.unwrap_or_else(|p| {
            let m = p
                .downcast_ref::<String>()
                .map(|s| s.as_str())
                .or(p.downcast_ref::<&str>().copied())
                .unwrap_or("?")
                .to_owned();
            let mut w = json::W::new();
            w.obj(|w| w.key("panic").str(&m));
            w.done()
        });
        writeln!(out, "{r}").unwrap();
        // what was observed must survive an abort on the next input
        out.flush().unwrap();
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mode = args.get(1).map(String::as_str).unwrap_or("");
    match mode {
        "text" => {
            let flags = text::Flags::parse(args.get(2).map(String::as_str).unwrap_or(""));
            each_line(|l| text::observe(&text::decode(l), &flags));
        }
        "content" => content::print(&args[2]),
        "shown" => each_line(content::shown),
        "table" => targets::table().iter().for_each(|l| println!("{l}")),
        "match" => {
            let ps = targets::preds(&args[2]);
            each_line(|l| targets::matches(l, &ps));
        }
        "builtin" => {
            let ps = targets::preds(&args[2]);
            each_line(|l| targets::builtin(l, &ps));
        }
        "lookup" => each_line(targets::lookup),
        "values" => each_line(targets::values),
        "scalars" => each_line(targets::scalars),
        "sets" => each_line(targets::sets),
        "verdict" => each_line(targets::verdict),
        #[cfg(feature = "triple")]
        "lexicon" => each_line(triple::lexicon),
        #[cfg(feature = "triple")]
        "triples" => {
            let ps = targets::preds(&args[2]);
            each_line(|l| triple::triples(l, &ps));
        }
        #[cfg(feature = "triple")]
        "both" => {
            let ps = targets::preds(&args[2]);
            each_line(|l| triple::both(l, &ps));
        }
        #[cfg(feature = "threads")]
        "history" => {
            let how = args.get(3).map_or("", |s| s);
            let c = history::context(&args[2], how == "alone");
            let times = how.parse().unwrap_or(1);
            each_line(|l| history::histories(l, &c, times));
        }
        "scale" => each_line(text::scale),
        "tokens" => each_line(text::tokens),
        "logic" => each_line(text::logic),
        "chars" => each_line(text::chars),
        "pair" => each_line(text::pair),
        _ => {
            eprintln!("unknown mode {mode}");
            std::process::exit(64);
        }
    }
}

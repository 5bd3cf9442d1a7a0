//! A stand-in for `rustc` and `rustfmt`, by the name it is run under.  It answers from the files in
//! $STANDIN (a scratch directory), fails where the plan says so, and appends what it was asked and
//! what it saw of the two files to a log.
//!
//! version.out, list.out, cfg/<target>.out    the answers
//! plan       lines `<step> <what>`; steps: version, list, cfg:<target>, fmt; what:
//!              exit      ends with 1 after giving its answer
//!              exitraw   likewise, with bytes on stderr that are no text
//!              silent    gives no answer and ends with 1
//!              signal    ends by a signal
//!              raw       gives bytes that are no text
//!              out:<f>   answers from the file f
//!              unlink:<p>  removes p, then answers
//!              dir:<p>   puts a directory in the place of p, then answers
//!              gate      waits for the file `gate`, then answers
//! log        a line per event: `<step>|<table>|<readme>` when asked, `=<step>` when it answered
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};

fn state(p: &Path, saved: &Path, mark: Option<&str>) -> String {
    use std::os::unix::fs::FileTypeExt;
    let Ok(m) = fs::symlink_metadata(p) else { return "gone".into() };
    if m.file_type().is_fifo() || m.is_dir() {
        return "old".into();
    }
    let Ok(now) = fs::read(p) else { return "unreadable".into() };
    if fs::read(saved).is_ok_and(|s| s == now) {
        "old".into()
    } else if let Some(m) = mark {
        if now.ends_with(m.as_bytes()) { "formatted".into() } else { "raw".into() }
    } else {
        "new".into()
    }
}

unsafe extern "C" {
    fn renameat2(from: i32, a: *const std::ffi::c_char, to: i32, b: *const std::ffi::c_char, flags: u32) -> i32;
}

fn exchange(a: &Path, b: &Path) {
    let c = |p: &Path| std::ffi::CString::new(p.as_os_str().as_encoded_bytes()).unwrap();
    let (x, y) = (c(a), c(b));
    // the working directory for both, and they change places
    if unsafe { renameat2(-100, x.as_ptr(), -100, y.as_ptr(), 2) } != 0 {
        let _ = fs::remove_file(b);
        fs::rename(a, b).unwrap();
    }
}

const MARK: &str = "// formatted\n";

fn main() {
    let d = PathBuf::from(std::env::var_os("STANDIN").expect("STANDIN"));
    let args: Vec<String> = std::env::args().collect();
    let name = Path::new(&args[0]).file_name().unwrap().to_str().unwrap().to_owned();
    let step = if name.starts_with("rustfmt") {
        "fmt".to_owned()
    } else if let Some(i) = args.iter().position(|a| a == "--target") {
        format!("cfg:{}", args[i + 1])
    } else if let Some(t) = args.iter().find_map(|a| a.strip_prefix("--target=")) {
        format!("cfg:{t}")
    } else if args.iter().any(|a| a == "--version" || a == "-V" || a == "-vV" || a == "-Vv") {
        "version".to_owned()
    } else if args.iter().any(|a| a.contains("target-list")) {
        "list".to_owned()
    } else {
        "other".to_owned()
    };
    let table = Path::new("src/targets/builtins.rs");
    let log = |s: String| {
        let mut f = fs::OpenOptions::new().append(true).create(true).open(d.join("log")).unwrap();
        f.write_all(s.as_bytes()).unwrap();
    };
    log(format!("{step}|{}|{}\n", state(table, &d.join("saved-table"), Some(MARK)), state(Path::new("README.md"), &d.join("saved-readme"), None)));

    let plan = fs::read_to_string(d.join("plan")).unwrap_or_default();
    let mut code = 0;
    let mut file = match step.split_once(':') {
        Some((_, t)) => d.join("cfg").join(format!("{t}.out")),
        None => d.join(format!("{step}.out")),
    };
    let mut bytes = None;
    let mut format = step == "fmt";
    for what in plan.lines().filter_map(|l| l.split_once(' ')).filter(|(s, _)| *s == step).map(|(_, w)| w) {
        match what.split_once(':') {
            Some(("out", f)) => file = d.join(f),
            Some(("unlink", p)) => fs::remove_file(p).unwrap(),
            Some(("dir", p)) => {
                // at one stroke: nobody sees it missing
                let spare = d.join(format!("spare-{}", std::process::id()));
                fs::create_dir(&spare).unwrap();
                exchange(&spare, Path::new(p));
            }
            _ => match what {
                "exit" => { code = 1; format = false }
                "exitraw" => {
                    std::io::stderr().write_all(b"\xff\xfe no text \xc3\n").unwrap();
                    code = 1
                }
                "silent" => {
                    code = 1;
                    bytes = Some(Vec::new())
                }
                "signal" => {
                    log(format!("={step}\n"));
                    std::process::abort()
                }
                "raw" => bytes = Some(b"target_arch=\"\xff\xfe\"\nx \xc3\x28 y\n".to_vec()),
                "gate" => {
                    for _ in 0..3000 {
                        if d.join("gate").exists() {
                            break;
                        }
                        std::thread::sleep(std::time::Duration::from_millis(1));
                    }
                }
                _ => panic!("plan: {what}"),
            },
        }
    }
    if format {
        // a formatter is given the file: mark it
        for a in args[1..].iter().filter(|a| a.ends_with(".rs")) {
            if let Ok(mut s) = fs::read(a) {
                s.extend_from_slice(MARK.as_bytes());
                fs::write(a, s).unwrap();
            }
        }
    }
    if step != "fmt" {
        let b = bytes.unwrap_or_else(|| fs::read(&file).unwrap_or_default());
        if !file.exists() {
            code = code.max(1);
        }
        let _ = std::io::stdout().write_all(&b);
        let _ = std::io::stdout().flush();
    }
    log(format!("={step}\n"));
    std::process::exit(code);
}

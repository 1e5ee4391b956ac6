//! Thin shim over the public API of the real crate: one request per line on stdin
//! (`<op> <hex of the SMT text>`), one answer per line on stdout (`<tag> <hex payload>`).
use std::io::{self, BufRead, Write};
use std::panic;

static LOC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}

fn run(op: &str, smt: &[u8]) -> Result<(String, String), String> {
    match op {
        "solve" => match amzn_smt_eager_arithmetic::solve_with_varisat(smt) {
            Ok(Some(m)) => Ok(("SAT".into(), m.to_string())),
            Ok(None) => Ok(("UNSAT".into(), String::new())),
            Err(e) => Err(format!("{:#}", e)),
        },
        "encode" => {
            let mut out = vec![];
            match amzn_smt_eager_arithmetic::encode(smt, &mut out) {
                Ok(()) => Ok(("CNF".into(), String::from_utf8_lossy(&out).into_owned())),
                Err(e) => Err(format!("{:#}", e)),
            }
        }
        "normalized" => amzn_smt_eager_arithmetic::verif_hooks::normalized(smt)
            .map(|s| ("OK".into(), s)).map_err(|e| format!("{:#}", e)),
        "layout" => amzn_smt_eager_arithmetic::verif_hooks::layout(smt).map_err(|e| format!("{:#}", e)).map(|l| {
            ("OK".into(), l.iter().map(|(k, n, a, w)| format!("{}\t{}\t{}\t{}", k, n, a, w)).collect::<Vec<_>>().join("\n"))
        }),
        _ => panic!("bad op"),
    }
}

fn main() {
    panic::set_hook(Box::new(|i| {
        *LOC.lock().unwrap() = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
    }));
    // Everything runs on a big stack: the folders recurse over terms.
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(|| {
        let stdin = io::stdin();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let (op, h) = line.split_once(' ').unwrap();
            let smt = unhex(h);
            let r = panic::catch_unwind(|| run(op, &smt));
            let mut o = io::stdout().lock();
            let (tag, body) = match r {
                Ok(Ok((t, b))) => (t, b),
                Ok(Err(e)) => ("ERR".to_string(), e),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    ("PANIC".to_string(), m + &LOC.lock().unwrap())
                }
            };
            writeln!(o, "@@ {} {}", tag, hex(&body)).unwrap();
            o.flush().unwrap();
        }
    }).unwrap();
    h.join().unwrap();
}

//! Thin shim over the public API of the real crate: one request per line on stdin
//! (`<op> <hex of the SMT text>`), one answer per line on stdout (`<tag> <hex payload>`).
use std::io::{self, BufRead, Write};
use std::panic;

static LOC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(s: &str) -> String {
    s.bytes().map(|b| format!("{:02x}", b)).collect()
}


fn main() {
    panic::set_hook(Box::new(|i| {
        *LOC.lock().unwrap() = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
    }));
    // Everything runs on a big stack: the folders recurse over terms.
    let h = std::thread::Builder::new().stack_size(1 << 29).spawn(|| {
        let stdin = io::stdin();
        for line in stdin.lock().lines() {
            let line = line.unwrap();
            let (op, h) = line.split_once(' ').unwrap();
            let smt = unhex(h);
            let r = panic::catch_unwind(|| run(op, &smt));
            let mut o = io::stdout().lock();
            let (tag, body) = match r {
                Ok(Ok((t, b))) => (t, b),
                Ok(Err(e)) => ("ERR".to_string(), e),
                Err(p) => {
                    let m = p.downcast_ref::<String>().cloned()
                        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                        .unwrap_or_default();
                    ("PANIC".to_string(), m + &LOC.lock().unwrap())
                }
            };
            writeln!(o, "@@ {} {}", tag, hex(&body)).unwrap();
            o.flush().unwrap();
        }
    }).unwrap();
    h.join().unwrap();
}

fn show<T: ToString>(c: impl IntoIterator<Item = T>) -> String {
    c.into_iter().map(|o| o.to_string()).collect::<Vec<String>>().join("\n")
}

fn run(op: &str, smt: &[u8]) -> Result<(String, String), String> {
    use amzn_smt_string_fct_updater::transpiler::{modernize_string_fcts, parse};
    let cmds = parse(smt).map_err(|e| format!("{}", e))?;
    match op {
        // what the binary does: parse, modernize, print
        "modernize" => Ok(("OK".into(), show(modernize_string_fcts(cmds)))),
        // the parser/printer round trip alone (the identity reference)
        "echo" => Ok(("OK".into(), show(cmds))),
        _ => panic!("bad op"),
    }
}

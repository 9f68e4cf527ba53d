//! Replays cases against the real pango crates and records what they did.
//!
//! One case per input line (whitespace separated integers, see `Rd`), one JSON
//! record per output line. Only the public API of the crates is used. The
//! harness decides nothing: it records observations, which are judged against
//! the TLA+ specification.

mod lex;
mod par;

use std::io::{BufRead, Write};

/// Reader over the integers of a case line.
pub struct Rd<'a> {
    it: std::str::SplitAsciiWhitespace<'a>,
}

impl<'a> Rd<'a> {
    pub fn word(&mut self) -> &'a str {
        self.it.next().expect("case line too short")
    }
    pub fn int(&mut self) -> i64 {
        self.word().parse().expect("integer expected")
    }
    pub fn uint(&mut self) -> usize {
        self.int() as usize
    }
    /// Length-prefixed list of code points.
    pub fn text(&mut self) -> String {
        let n = self.uint();
        (0..n)
            .map(|_| char::from_u32(self.int() as u32).expect("scalar value expected"))
            .collect()
    }
}

pub fn cps(s: &str) -> String {
    let v: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect();
    format!("[{}]", v.join(","))
}

/// JSON string with everything outside printable ASCII escaped as `\uXXXX`.
pub fn jstr(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            ' '..='~' => out.push(c),
            _ => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    out.push_str(&format!("\\u{:04x}", u));
                }
            }
        }
    }
    out.push('"');
    out
}

/// Runs `f`, turning a panic into its message.
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|e| {
        e.downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".to_string())
    })
}

fn case(kind: &str, rd: &mut Rd) -> String {
    match kind {
        "L" => lex::lexer_case(rd),
        "M" => lex::first_match_case(rd),
        "S" => lex::syntax_case(rd),
        "U" => lex::unicode_case(rd),
        "A" => lex::alphabetic_case(),
        "G" => par::grammar_case(rd),
        "P" => par::pipeline_case(rd),
        k => panic!("unknown case kind {k}"),
    }
}

fn run() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.expect("stdin");
        if line.trim().is_empty() {
            continue;
        }
        let mut rd = Rd {
            it: line.split_ascii_whitespace(),
        };
        let mut kind = rd.word();
        let small = kind == "Z";
        if small {
            kind = rd.word();
        }
        let id = rd.word().to_string();
        let body = if small {
            // with the stack a thread usually has
            std::thread::scope(|scope| {
                std::thread::Builder::new()
                    .stack_size(2 << 20)
                    .spawn_scoped(scope, || case(kind, &mut rd))
                    .expect("thread")
                    .join()
                    .expect("case")
            })
        } else {
            case(kind, &mut rd)
        };
        let mut out = stdout.lock();
        writeln!(out, "{{\"id\":{},{}}}", id, body).expect("stdout");
        out.flush().expect("stdout");
    }
}

fn main() {
    // Deep trees are built, printed and dropped recursively.
    std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(run)
        .expect("thread")
        .join()
        .expect("harness");
}

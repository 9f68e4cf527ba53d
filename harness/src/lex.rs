use crate::{cps, guard, jstr, Rd};
use pango_lexer::Lexer;
use std::cell::RefCell;

/// Token kind used for all lexer cases: which pattern produced it and, for
/// mapped patterns, which text the mapping function was given.
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Kind {
    pub rule: u32,
    /// Index + 1 into `TEXTS`, 0 for kinds that are not mapped.
    pub text: u32,
}

thread_local! {
    static TEXTS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn plain<const N: u32>() -> Kind {
    Kind { rule: N, text: 0 }
}

fn mapped<const N: u32>(s: &str) -> Kind {
    TEXTS.with(|t| {
        let mut t = t.borrow_mut();
        t.push(s.to_string());
        Kind {
            rule: N,
            text: t.len() as u32,
        }
    })
}

/// Functions for the first 512 rules of a case, eight per literal.
macro_rules! table {
    ($($n:literal)*) => {
        const PLAIN: &[fn() -> Kind] = &[$(
            plain::<{ $n * 8 }>, plain::<{ $n * 8 + 1 }>, plain::<{ $n * 8 + 2 }>, plain::<{ $n * 8 + 3 }>,
            plain::<{ $n * 8 + 4 }>, plain::<{ $n * 8 + 5 }>, plain::<{ $n * 8 + 6 }>, plain::<{ $n * 8 + 7 }>
        ),*];
        const MAPPED: &[fn(&str) -> Kind] = &[$(
            mapped::<{ $n * 8 }>, mapped::<{ $n * 8 + 1 }>, mapped::<{ $n * 8 + 2 }>, mapped::<{ $n * 8 + 3 }>,
            mapped::<{ $n * 8 + 4 }>, mapped::<{ $n * 8 + 5 }>, mapped::<{ $n * 8 + 6 }>, mapped::<{ $n * 8 + 7 }>
        ),*];
    };
}
table!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31
       32 33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63);

/// `L id nrules (mode pattern)* input extra`
///
/// mode 0: unit, 1: plain function, 2: mapping function. `extra` is the number
/// of calls made after the first end of stream.
pub fn lexer_case(rd: &mut Rd) -> String {
    let n = rd.uint();
    let rules: Vec<(i64, String)> = (0..n).map(|_| (rd.int(), rd.text())).collect();
    let input = rd.text();
    let extra = rd.uint();
    TEXTS.with(|t| t.borrow_mut().clear());

    let mut builder = Some(Lexer::<Kind>::builder());
    let mut adds = Vec::new();
    for (i, (mode, pat)) in rules.iter().enumerate() {
        let b = builder.take().expect("builder");
        let r = guard(move || {
            let i = i as u32;
            match mode {
                1 => b.with_token(pat, PLAIN[i as usize]),
                2 => b.with_token_map(pat, MAPPED[i as usize]),
                _ => b.with_token_unit(pat, Kind { rule: i, text: 0 }),
            }
            .map_err(|e| e.to_string())
        });
        match r {
            Ok(Ok(b)) => {
                adds.push("{\"r\":\"ok\",\"m\":\"\"}".to_string());
                builder = Some(b);
            }
            Ok(Err(e)) => adds.push(format!("{{\"r\":\"err\",\"m\":{}}}", jstr(&e))),
            Err(p) => adds.push(format!("{{\"r\":\"panic\",\"m\":{}}}", jstr(&p))),
        }
        if builder.is_none() {
            break;
        }
    }

    let mut evs = Vec::new();
    if let Some(b) = builder {
        match guard(|| b.tokenize(&input)) {
            Ok(mut lexer) => {
                let mut nones = 0;
                // a lexer can return at most one token per character
                let limit = input.chars().count() + 2 + extra;
                for _ in 0..limit {
                    match guard(|| lexer.next()) {
                        Ok(Some(t)) => {
                            let m = match t.kind.text {
                                0 => "[-1]".to_string(),
                                k => TEXTS.with(|x| cps(&x.borrow()[k as usize - 1])),
                            };
                            evs.push(format!(
                                "{{\"t\":\"tok\",\"k\":{},\"s\":{},\"e\":{},\"src\":{},\"m\":{}}}",
                                t.kind.rule + 1,
                                t.pos.0,
                                t.pos.1,
                                cps(&t.source),
                                m
                            ));
                        }
                        Ok(None) => {
                            evs.push("{\"t\":\"none\"}".to_string());
                            nones += 1;
                            if nones > extra {
                                break;
                            }
                        }
                        Err(_) => {
                            evs.push("{\"t\":\"panic\"}".to_string());
                            break;
                        }
                    }
                }
            }
            Err(_) => evs.push("{\"t\":\"panic\"}".to_string()),
        }
    }
    format!("\"adds\":[{}],\"evs\":[{}]", adds.join(","), evs.join(","))
}

/// `S id n pattern*`: which patterns can be added, and how are the others
/// reported? Each pattern is added in every way there is, also behind other
/// patterns; recorded are the different outcomes.
pub fn syntax_case(rd: &mut Rd) -> String {
    let n = rd.uint();
    let mut out = Vec::new();
    for _ in 0..n {
        let pat = rd.text();
        let mut seen: Vec<String> = Vec::new();
        for mode in 0..4 {
            let r = guard(|| {
                let b = Lexer::<Kind>::builder();
                match mode {
                    0 => b.with_token_unit(&pat, Kind { rule: 0, text: 0 }),
                    1 => b.with_token(&pat, PLAIN[0]),
                    2 => b.with_token_map(&pat, MAPPED[0]),
                    _ => b
                        .with_token("ab*", PLAIN[0])
                        .and_then(|b| b.with_token_unit(&pat, Kind { rule: 1, text: 0 })),
                }
                .map(|_| ())
                .map_err(|e| e.to_string())
            });
            let r = match r {
                Ok(Ok(())) => "{\"r\":\"ok\",\"m\":\"\"}".to_string(),
                Ok(Err(e)) => format!("{{\"r\":\"err\",\"m\":{}}}", jstr(&e)),
                Err(p) => format!("{{\"r\":\"panic\",\"m\":{}}}", jstr(&p)),
            };
            if !seen.contains(&r) {
                seen.push(r);
            }
        }
        out.push(format!("[{}]", seen.join(",")));
    }
    format!("\"adds\":[{}]", out.join(","))
}

/// `M id pattern n word*`: the first call of a lexer with one pattern, for
/// every word. Recorded is the number of characters of the returned token, 0
/// if there is none, -1 for a panic, and -2 if the text of the token is not a
/// prefix of the word.
pub fn first_match_case(rd: &mut Rd) -> String {
    let pat = rd.text();
    let n = rd.uint();
    let words: Vec<String> = (0..n).map(|_| rd.text()).collect();
    let mut res = Vec::new();
    let mut add = "ok";
    for w in &words {
        let r = guard(|| {
            Lexer::<Kind>::builder()
                .with_token_unit(&pat, Kind { rule: 0, text: 0 })
                .map_err(|_| ())
        });
        let b = match r {
            Ok(Ok(b)) => b,
            Ok(Err(())) => {
                add = "err";
                break;
            }
            Err(_) => {
                add = "panic";
                break;
            }
        };
        res.push(match guard(|| b.tokenize(w).next().map(|t| t.source)) {
            Ok(Some(src)) if w.starts_with(&src) => src.chars().count() as i64,
            Ok(Some(_)) => -2,
            Ok(None) => 0,
            Err(_) => -1,
        });
    }
    let res: Vec<String> = res.iter().map(|n| n.to_string()).collect();
    format!("\"add\":\"{}\",\"res\":[{}]", add, res.join(","))
}

fn intervals(it: impl Iterator<Item = u32>) -> String {
    let mut out: Vec<(u32, u32)> = Vec::new();
    for c in it {
        match out.last_mut() {
            // the surrogate gap does not split an interval
            Some((_, e)) if *e + 1 == c || (*e == 0xD7FF && c == 0xE000) => *e = c,
            _ => out.push((c, c)),
        }
    }
    let v: Vec<String> = out.iter().map(|(a, b)| format!("[{a},{b}]")).collect();
    format!("[{}]", v.join(","))
}

/// `U id pattern`: which scalar values does the one-character pattern match?
///
/// The pattern and a wildcard are the two patterns of one lexer that is run
/// over all scalar values: the pattern wins wherever it matches.
pub fn unicode_case(rd: &mut Rd) -> String {
    let pat = rd.text();
    let all: String = (0u32..=0x10FFFF).filter_map(char::from_u32).collect();
    let r = guard(|| {
        let lexer = Lexer::<Kind>::builder()
            .with_token_unit(&pat, Kind { rule: 0, text: 0 })
            .map_err(|e| e.to_string())?
            .with_token_unit(".", Kind { rule: 1, text: 0 })
            .map_err(|e| e.to_string())?
            .tokenize(&all);
        let mut seen = Vec::new();
        let mut count = 0usize;
        let mut single = true;
        for t in lexer {
            let mut it = t.source.chars();
            let c = it.next().map_or(0, |c| c as u32);
            single &= it.next().is_none();
            count += 1;
            if t.kind.rule == 0 {
                seen.push(c);
            }
        }
        Ok::<_, String>((seen, count, single))
    });
    match r {
        Ok(Ok((seen, count, single))) => format!(
            "\"r\":\"ok\",\"count\":{},\"single\":{},\"set\":{}",
            count,
            single,
            intervals(seen.into_iter())
        ),
        Ok(Err(_)) => "\"r\":\"err\",\"count\":0,\"single\":true,\"set\":[]".to_string(),
        Err(_) => "\"r\":\"panic\",\"count\":0,\"single\":true,\"set\":[]".to_string(),
    }
}

/// `A id`: the Unicode alphabetic characters of this toolchain's standard
/// library (environment data for the specification).
pub fn alphabetic_case() -> String {
    format!(
        "\"set\":{}",
        intervals((0u32..=0x10FFFF).filter(|c| char::from_u32(*c).is_some_and(char::is_alphabetic)))
    )
}

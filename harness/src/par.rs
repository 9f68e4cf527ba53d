use crate::{guard, jstr, Rd};
use pango_lexer::Lexer;
use pango_parser::{Cfsm, Grammar, Slr, Symbol, TerminalEq, TerminalHash};
use std::fmt::{Debug, Formatter};
use std::hash::{Hash, Hasher};

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct V(u16);

// Hashes of different values may be the same, for variables as for terminals.
impl Hash for V {
    fn hash<H: Hasher>(&self, state: &mut H) {
        (self.0 / 4).hash(state);
    }
}

/// A terminal is matched by `kind` alone; `load` is payload. The same kind comes
/// in different variants, so that nothing but `terminal_eq` tells the kind.
#[derive(Copy, Clone, PartialEq, Eq)]
pub enum T {
    Word { kind: u16, load: u16 },
    Sign(u16, u16),
    Mark([u16; 2]),
}

impl T {
    fn new(kind: u16, load: u16) -> Self {
        match load % 3 {
            0 => T::Word { kind, load },
            1 => T::Sign(load, kind),
            _ => T::Mark([kind, load]),
        }
    }

    fn kind(&self) -> u16 {
        match *self {
            T::Word { kind, .. } | T::Sign(_, kind) | T::Mark([kind, _]) => kind,
        }
    }

    fn load(&self) -> u16 {
        match *self {
            T::Word { load, .. } | T::Sign(load, _) | T::Mark([_, load]) => load,
        }
    }
}

impl Hash for T {
    fn hash<H: Hasher>(&self, state: &mut H) {
        (self.kind() / 4).hash(state);
    }
}

/// Part of how some of the symbols are shown: characters that labels of the
/// dot language have to escape.
const ODD: &str = r#":"\n\l"\"#;

impl Debug for V {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        let odd = if self.0 % 3 == 2 { ODD } else { "" };
        write!(f, "<v{}{}>", self.0, odd)
    }
}
impl Debug for T {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        let odd = if self.kind() % 3 == 1 { ODD } else { "" };
        write!(f, "<t{}.{}{}>", self.kind(), self.load(), odd)
    }
}
impl TerminalEq for T {
    fn terminal_eq(&self, other: &Self) -> bool {
        self.kind() == other.kind()
    }
}
impl TerminalHash for T {
    fn terminal_hash<H: Hasher>(&self, state: &mut H) {
        (self.kind() as i32 / 2).hash(state);
    }
}

type Body = Vec<Symbol<V, T>>;

/// Builder call.
#[derive(Clone)]
enum Op {
    Start(u16),
    Rule(u16, Body),
    Rules(u16, Vec<Body>),
}

/// First code point that encodes a token: `BASE + kind * 256 + load`.
const BASE: u32 = 0x10000;

/// The first kinds without payload are spelled by characters of all sorts.
const SPECIAL: &[char] = &[
    ' ', 'a', '\n', '$', '\0', '0', 'ε', '\u{feff}', '\u{85}', '\u{10ffff}',
];

fn token(s: &str) -> T {
    let c = s.chars().next().unwrap_or('?');
    if let Some(kind) = SPECIAL.iter().position(|x| *x == c) {
        return T::new(kind as u16, 0);
    }
    let c = (c as u32).wrapping_sub(BASE);
    T::new((c / 256) as u16, (c % 256) as u16)
}

/// Symbol: 0 epsilon, v > 0 variable v, otherwise terminal: -(1 + kind * 256 + load).
fn body(rd: &mut Rd) -> Body {
    let n = rd.uint();
    (0..n)
        .map(|_| match rd.int() {
            0 => Symbol::Epsilon,
            v if v > 0 => Symbol::Variable(V(v as u16)),
            t => {
                let t = (-t - 1) as u32;
                Symbol::Terminal(T::new((t / 256) as u16, (t % 256) as u16))
            }
        })
        .collect()
}

fn ops(rd: &mut Rd) -> Vec<Op> {
    let n = rd.uint();
    (0..n)
        .map(|_| match rd.word() {
            "S" => Op::Start(rd.int() as u16),
            "R" => Op::Rule(rd.int() as u16, body(rd)),
            "M" => {
                let v = rd.int() as u16;
                let k = rd.uint();
                Op::Rules(v, (0..k).map(|_| body(rd)).collect())
            }
            w => panic!("unknown builder op {w}"),
        })
        .collect()
}

/// Performs the builder calls; returns the results of `add_rule` calls as well.
/// `fluent` selects the `with_` flavour of the builder calls.
fn build(ops: &[Op], fluent: bool) -> (Vec<i32>, Grammar<V, T>) {
    let mut added = Vec::new();
    let mut b = Grammar::<V, T>::builder();
    for op in ops.iter().cloned() {
        if fluent {
            b = match op {
                Op::Start(v) => b.with_start_variable(V(v)),
                Op::Rule(v, body) => b.with_rule(V(v), body),
                Op::Rules(v, bodies) => b.with_rules(V(v), bodies),
            };
        } else {
            match op {
                Op::Start(v) => b.set_start_variable(V(v)),
                Op::Rule(v, body) => added.push(b.add_rule(V(v), body) as i32),
                Op::Rules(v, bodies) => b.add_rules(V(v), bodies),
            }
        }
    }
    (added, b.build())
}

/// Preorder encoding of a syntax tree taken from its `Debug` rendering:
/// `(label, number of children)` per node. Labels: variable v is `v`, terminal
/// is `-(1 + kind * 256 + load)`, epsilon is 0.
///
/// Only the rendering of symbols and the nesting of `[` `]` are looked at; a
/// symbol may come before or after the list of its children.
pub fn tree(debug: &str) -> Option<Vec<(i64, usize)>> {
    let mut parts = parts(debug)?;
    let behind = matches!(parts.first(), Some(Part::Open));
    if behind {
        parts.reverse();
    }
    let mut labels: Vec<i64> = Vec::new();
    let mut children: Vec<Vec<usize>> = Vec::new();
    let mut open: Vec<Option<usize>> = Vec::new(); // node owning each open bracket
    let mut last: Option<usize> = None;
    for part in parts {
        match part {
            Part::Label(label) => {
                if let Some(Some(parent)) = open.last() {
                    children[*parent].push(labels.len());
                }
                last = Some(labels.len());
                labels.push(label);
                children.push(Vec::new());
            }
            Part::Open if !behind => open.push(last),
            Part::Close if behind => open.push(last),
            _ => last = open.pop()?,
        }
    }
    if !behind {
        let n = children.iter().map(Vec::len);
        return open.is_empty().then_some(labels.into_iter().zip(n).collect());
    }
    if labels.is_empty() {
        return None;
    }
    // children were met last to first
    let mut out = Vec::new();
    let mut todo = vec![0];
    while let Some(i) = todo.pop() {
        out.push((labels[i], children[i].len()));
        todo.extend(&children[i]);
    }
    (open.is_empty() && out.len() == labels.len()).then_some(out)
}

enum Part {
    Open,
    Close,
    Label(i64),
}

fn parts(debug: &str) -> Option<Vec<Part>> {
    let mut out = Vec::new();
    let bytes = debug.as_bytes();
    let mut i = 0;
    while i < bytes.len() {
        match bytes[i] {
            b'[' => out.push(Part::Open),
            b']' => out.push(Part::Close),
            b'<' => {
                let end = i + debug[i..].find('>')?;
                let word = debug[i + 1..end].trim_end_matches(ODD);
                let label = if let Some(v) = word.strip_prefix('v') {
                    v.parse::<i64>().ok()?
                } else {
                    let (k, l) = word.strip_prefix('t')?.split_once('.')?;
                    -(1 + k.parse::<i64>().ok()? * 256 + l.parse::<i64>().ok()?)
                };
                out.push(Part::Label(label));
                i = end;
            }
            b'E' if debug[i..].starts_with("Epsilon") => {
                out.push(Part::Label(0));
                i += 6;
            }
            _ => (),
        }
        i += 1;
    }
    Some(out)
}

fn verdict(slr: &Slr<V, T>, lexer: Lexer<T>, trees: bool) -> String {
    if !trees {
        let v = match guard(|| slr.parse(lexer).is_ok()) {
            Ok(true) => "ok",
            Ok(false) => "err",
            Err(_) => "panic",
        };
        return format!("{{\"v\":\"{v}\",\"tree\":[]}}");
    }
    match guard(|| slr.parse(lexer).map(|cst| format!("{:?}", cst))) {
        Ok(Ok(debug)) => match tree(&debug) {
            Some(t) => {
                let v: Vec<String> = t.iter().map(|(l, n)| format!("[{l},{n}]")).collect();
                format!("{{\"v\":\"ok\",\"tree\":[{}]}}", v.join(","))
            }
            None => "{\"v\":\"unreadable\",\"tree\":[]}".to_string(),
        },
        Ok(Err(())) => "{\"v\":\"err\",\"tree\":[]}".to_string(),
        Err(_) => "{\"v\":\"panic\",\"tree\":[]}".to_string(),
    }
}

fn char_lexer(input: &str) -> Lexer<'_, T> {
    Lexer::builder()
        .with_token_map(".", token)
        .unwrap_or_else(|e| panic!("{e}"))
        .tokenize(input)
}

/// `G id fluent flags nops ops* ninputs input*`
///
/// flags: 1 = render the state machine, 2 = construct the parser, 4 = drop the
/// trees without a look at them. Every character of an input is one token.
///
/// fluent: 1 = calls that take and return the builder, 2 = a second parser for the
/// grammar is used in turn with the first one.
pub fn grammar_case(rd: &mut Rd) -> String {
    let how = rd.int();
    let flags = rd.int();
    let ops = ops(rd);
    let n = rd.uint();
    let inputs: Vec<String> = (0..n).map(|_| rd.text()).collect();

    let (added, grammar) = match guard(|| build(&ops, how & 1 != 0)) {
        Ok(r) => r,
        Err(m) => return format!("\"build\":\"panic\",\"msg\":{},\"added\":[],\"dot\":\"\",\"dotr\":\"skip\",\"slr\":\"skip\",\"res\":[]", jstr(&m)),
    };
    let added: Vec<String> = added.iter().map(|b| b.to_string()).collect();

    let other = (how & 2 != 0).then(|| grammar.clone());

    let (dotr, dot) = if flags & 1 != 0 {
        let g = grammar.clone();
        match guard(move || Cfsm::from_grammar(g).to_dot()) {
            Ok(d) => ("ok", d),
            Err(_) => ("panic", String::new()),
        }
    } else {
        ("skip", String::new())
    };

    let mut res = Vec::new();
    let slr = if flags & 2 != 0 {
        match guard(move || Slr::new(grammar)) {
            Ok(slr) => {
                // the parser is moved before it is used
                let moved = vec![Box::new(slr)];
                let slr = *moved.into_iter().next().expect("parser");
                let other = other.and_then(|g| guard(move || Slr::new(g)).ok());
                for input in &inputs {
                    if let Some(other) = &other {
                        verdict(other, char_lexer(input), false);
                    }
                    res.push(verdict(&slr, char_lexer(input), flags & 4 == 0));
                }
                "ok"
            }
            Err(_) => "panic",
        }
    } else {
        "skip"
    };
    format!(
        "\"build\":\"ok\",\"msg\":\"\",\"added\":[{}],\"dot\":{},\"dotr\":\"{}\",\"slr\":\"{}\",\"res\":[{}]",
        added.join(","),
        jstr(&dot),
        dotr,
        slr,
        res.join(",")
    )
}

/// `P id nops ops* nrules (kind pattern)* ninputs (skip input)*`
///
/// A real lexer in front of the parser: pattern i yields tokens of kind
/// `kind`, if it is a mapped one with the number of characters of the text as
/// payload. The lexer has been called `skip` times before the parser gets it.
pub fn pipeline_case(rd: &mut Rd) -> String {
    let ops = ops(rd);
    let nr = rd.uint();
    let rules: Vec<(usize, String)> = (0..nr).map(|_| (rd.uint(), rd.text())).collect();
    let n = rd.uint();
    let inputs: Vec<(usize, String)> = (0..n).map(|_| (rd.uint(), rd.text())).collect();
    let slr = match guard(|| Slr::new(build(&ops, true).1)) {
        Ok(slr) => slr,
        Err(_) => return "\"slr\":\"panic\",\"res\":[]".to_string(),
    };
    let mut res = Vec::new();
    for (skip, input) in &inputs {
        let lexer = guard(|| {
            let mut b = Lexer::<T>::builder();
            for (kind, pat) in &rules {
                b = match kind % 3 {
                    0 => b.with_token_unit(pat, T::new(*kind as u16, 0)),
                    _ => b.with_token_map(pat, KINDS[*kind]),
                }
                .unwrap_or_else(|e| panic!("{e}"));
            }
            let mut lexer = b.tokenize(input);
            for _ in 0..*skip {
                lexer.next();
            }
            lexer
        });
        res.push(match lexer {
            Ok(lexer) => verdict(&slr, lexer, true),
            Err(_) => "{\"v\":\"nolexer\",\"tree\":[]}".to_string(),
        });
    }
    format!("\"slr\":\"ok\",\"res\":[{}]", res.join(","))
}

fn sized<const K: u16>(s: &str) -> T {
    T::new(K, s.chars().count() as u16 % 256)
}

const KINDS: &[fn(&str) -> T] = &[
    sized::<0>, sized::<1>, sized::<2>, sized::<3>, sized::<4>, sized::<5>, sized::<6>, sized::<7>,
];

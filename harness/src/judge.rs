//! Texts judged by the specification: `texts` writes programs of the corpus and
//! mutants of them for TLC (Judge.tla), `judge` compares TLC's verdicts with
//! the parser.
use crate::replay::{json_value, unquote, Sink};
use crate::run::{run, Outcome};
use crate::tree::from_spec;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::sync::atomic::{AtomicUsize, Ordering};

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn pick<'a>(&mut self, q: &[&'a str]) -> &'a str {
        q[self.below(q.len())]
    }
}

const POOL: &[&str] = &[
    "a", "b", "x", "1", "0.5", "'s'", "/r/g", "`t`", "`h${", "}m${", "}e`", "this", "(", ")", "[", "]", "{", "}", "?", ":", ",", ";", ".", "...", "!", "~",
    "typeof", "void", "delete", "++", "--", "-", "*", "+", "/", "**", "%", "in", "instanceof", "<", ">", "<=", "<<", ">>>", "&&", "||", "&", "|", "^", "==", "===",
    "!=", "=", "+=", "/=", "**=", ">>>=", "=>", "\n", "await", "yield", "async", "let", "static", "get", "set", "of", "from", "as", "eval", "arguments", "new", "new.target",
    "super", "function", "class", "extends", "var", "const", "if", "else", "while", "do", "for", "switch", "case", "default", "try", "catch", "finally", "throw",
    "return", "break", "continue", "with", "debugger", "import", "export", "'use strict'", "null", "true", "false", "enum", "constructor", "prototype", "public",
    "()", "{}", "[]", "(a)", "()=>", "a=>", "async()=>", "function(){}", "class{}", "l:", "...a", "{a}", "[a]", "{a=1}", "a=1", "var v=1;", "/*c*/", "//c\n", "/*\n*/",
    "0x1f", "0b2", "08", "017", "1e", "\\u0061", "'\\x41'", "'\\u{41}'", "'\\\n'", "@", "#", "'", "\"", "`", "\\",
];
const CHARS: &[&str] = &[
    " ", "\n", "a", "0", "1", "e", "x", ".", ",", ";", ":", "(", ")", "[", "]", "{", "}", "'", "\"", "`", "$", "\\", "/", "*", "+", "-", "=", "<", ">", "!", "?", "&", "|",
    "^", "~", "%", "_", "@", "#", "u", "n", "\r", "\t", "\u{2028}", "\u{a0}", "\u{e9}", "\u{0}", "\u{1f600}",
];
const WORDS: &[&str] = &[
    "await", "yield", "async", "let", "static", "get", "set", "of", "from", "as", "eval", "arguments", "if", "in", "new", "this", "null", "super", "function", "class",
    "public", "var", "return", "enum", "default", "typeof", "delete", "constructor", "a", "import",
];
const WRAPS: &[(&str, &str)] = &[
    ("function f(){", "}"), ("function*f(){", "}"), ("async function f(){", "}"), ("async function*f(){", "}"), ("x=()=>{", "};"), ("x=async()=>{", "};"),
    ("class A{m(){", "}}"), ("class A extends B{constructor(){", "}}"), ("x={m(){", "}};"), ("x={*m(){", "}};"), ("x={get m(){", "}};"), ("x=function(){", "};"),
    ("{", "}"), ("if(a){", "}"), ("for(;;){", "}"), ("while(a){", "}"), ("do{", "}while(a)"), ("switch(a){case b:", "}"), ("try{", "}finally{}"), ("try{}catch(e){", "}"),
    ("'use strict';", ""), ("l:{", "}"), ("for(x of y){", "}"), ("x=`${function(){", "}}`;"), ("(", ")"), ("[", "]"), ("{", ""), ("", "}"), ("(", ""), ("x=", ""), ("`${", "}`"), ("f(", ")"),
    ("a=>", ""), ("{a:", "}"), ("({", "})"), ("if(a)", ""), ("export default ", ""), ("export ", ""), ("new ", ""), ("async ", ""), ("with(a)", ""), ("x=class{[", "](){}}"),
];

/// A rough split into words, numbers, blanks, and operators.
fn split(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let word = |ch: char| ch.is_alphanumeric() || ch == '_' || ch == '$';
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        let st = i;
        if word(c[i]) {
            while i < c.len() && word(c[i]) {
                i += 1;
            }
        } else if c[i].is_whitespace() {
            while i < c.len() && c[i].is_whitespace() {
                i += 1;
            }
        } else if c[i] == '\'' || c[i] == '"' {
            let mut j = i + 1;
            while j < c.len() && c[j] != c[i] && c[j] != '\n' {
                j += if c[j] == '\\' { 2 } else { 1 };
            }
            i = (j + 1).min(c.len());
        } else {
            let ops = ["...", "===", "!==", "**=", ">>>", "<<=", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=", "*=", "/=", "**", "<<", ">>", "${"];
            let rest: String = c[i..(i + 3).min(c.len())].iter().collect();
            i += ops.iter().find(|o| rest.starts_with(**o)).map_or(1, |o| o.len());
        }
        out.push(c[st..i.min(c.len())].iter().collect());
    }
    out
}

fn mutate(t: &mut Vec<String>, other: &[String], r: &mut Rng) {
    let n = t.len();
    let at = r.below(n + 1);
    let len = 1 + r.below(3);
    let range = |t: &Vec<String>| (at.min(t.len()), (at + len).min(t.len()));
    let char_edit = |t: &mut Vec<String>, r: &mut Rng, ins: bool| {
        let s: Vec<char> = t.concat().chars().collect();
        let k = r.below(s.len() + 1);
        let mut u: String = s[..k].iter().collect();
        if ins {
            u.push_str(r.pick(CHARS));
        }
        u.extend(s[(k + if ins { 0 } else { 1 }).min(s.len())..].iter());
        *t = split(&u);
    };
    match r.below(14) {
        0 => {
            let (a, b) = range(t);
            t.drain(a..b);
        }
        1 => {
            let (a, b) = range(t);
            let q = t[a..b].to_vec();
            t.splice(b..b, q);
        }
        2 => {
            let solid: Vec<usize> = (0..n).filter(|i| !t[*i].trim().is_empty()).collect();
            if solid.len() > 1 {
                let k = r.below(solid.len() - 1);
                t.swap(solid[k], solid[k + 1]);
            }
        }
        3 | 4 => {
            if at < n {
                t[at] = r.pick(POOL).into();
            }
        }
        5 | 6 => {
            let p = r.pick(POOL);
            t.insert(at, if r.below(2) == 0 { p.into() } else { format!(" {} ", p) });
        }
        7 => {
            let ids: Vec<usize> = (0..n).filter(|i| t[*i].chars().next().map_or(false, |c| c.is_alphabetic())).collect();
            if !ids.is_empty() {
                let k = ids[r.below(ids.len())];
                t[k] = r.pick(WORDS).into();
            }
        }
        8 => {
            let blanks: Vec<usize> = (0..n).filter(|i| t[*i].trim().is_empty()).collect();
            let s = r.pick(&["\n", "", " ", "/*c*/", "/*\n*/", "//c\n", "\t", "\u{2028}", "\r", "\r\n", "\u{a0}"]);
            if !blanks.is_empty() && r.below(2) == 0 {
                t[blanks[r.below(blanks.len())]] = s.into();
            } else {
                t.insert(at, s.into());
            }
        }
        9 => char_edit(t, r, false),
        10 => char_edit(t, r, true),
        11 => {
            let s: Vec<char> = t.concat().chars().collect();
            let k = r.below(s.len() + 1);
            *t = split(&s[..k].iter().collect::<String>());
        }
        12 => {
            if !other.is_empty() {
                let a = r.below(other.len());
                let b = (a + 1 + r.below(12)).min(other.len());
                t.splice(at..at, other[a..b].to_vec());
            }
        }
        _ => {
            let (open, close) = WRAPS[r.below(WRAPS.len())];
            let end = at + r.below(n - at + 1);
            if r.below(3) == 0 {
                t.insert(end, close.into());
                t.insert(at, open.into());
            } else {
                t.insert(0, open.into());
                t.push(close.into());
            }
        }
    }
}

/// The characters as the specification writes them.
pub fn encode(s: &str) -> Vec<String> {
    s.chars()
        .map(|c| if c == '\n' || (' '..='~').contains(&c) { c.to_string() } else { format!("<U+{:04X}>", c as u32) })
        .collect()
}

fn corpus(files: &[String]) -> Vec<String> {
    let mut out = vec![];
    for f in files {
        let text = std::fs::read_to_string(f).expect("corpus");
        out.extend(text.split("\u{1e}\n").map(|s| s.trim_end().to_string()).filter(|s| !s.is_empty()));
    }
    out
}

/// harness texts --seed S --count N --max LEN --out FILE CORPUS...
pub fn texts(args: &[String]) -> i32 {
    let (mut seed, mut count, mut max, mut out, mut whole) = (1u64, 1000usize, 400usize, String::new(), false);
    let mut files = vec![];
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--seed" => seed = it.next().unwrap().parse().unwrap(),
            "--count" => count = it.next().unwrap().parse().unwrap(),
            "--max" => max = it.next().unwrap().parse().unwrap(),
            "--out" => out = it.next().unwrap().clone(),
            "--whole" => whole = true,
            _ => files.push(a.clone()),
        }
    }
    let base: Vec<Vec<String>> = corpus(&files).iter().map(|s| split(s)).collect();
    let mut w = std::io::BufWriter::new(std::fs::File::create(&out).expect("out"));
    let mut put = |goal: &str, s: &str| writeln!(w, "{}", json!({"goal": goal, "c": encode(s), "src": s})).unwrap();
    if whole {
        for t in &base {
            put("script", &t.concat());
            put("module", &t.concat());
        }
    }
    let mut r = Rng(seed);
    let mut n = 0;
    while n < count {
        let mut t = base[r.below(base.len())].clone();
        let other = &base[r.below(base.len())];
        for _ in 0..1 + r.below(3) {
            mutate(&mut t, other, &mut r);
        }
        let s = t.concat();
        // one judgement has no answer for characters the specification does not name
        if s.chars().count() <= max && !s.contains("<U+") && !s.contains("<#") {
            put(if r.below(3) == 0 { "module" } else { "script" }, &s);
            n += 1;
        }
    }
    0
}

/// harness judge --report FILE --known FILE [--lines] TEXTS OUT
pub fn judge(args: &[String]) -> i32 {
    let mut files = vec![];
    let (mut report, mut known, mut lines) = (None, None, false);
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--report" => report = it.next().cloned(),
            "--known" => known = it.next().cloned(),
            "--lines" => lines = true,
            _ => files.push(a.clone()),
        }
    }
    let sink = Sink::new(known.as_deref());
    let texts: Vec<Value> = BufReader::new(std::fs::File::open(&files[0]).unwrap()).lines().map(|l| json_value(&l.unwrap()).unwrap()).collect();
    let mut verdicts: Vec<Value> = vec![];
    for line in BufReader::new(std::fs::File::open(&files[1]).unwrap()).lines() {
        let line = line.unwrap();
        if line.starts_with("\"@J ") {
            verdicts.push(json_value(&unquote(&line)[3..]).expect("verdict"));
        }
    }
    let mut seen = vec![false; texts.len()];
    for v in &verdicts {
        seen[v["i"].as_u64().unwrap() as usize - 1] = true;
    }
    if seen.iter().any(|s| !s) {
        eprintln!("{} of {} texts without a verdict", seen.iter().filter(|s| !**s).count(), texts.len());
        return 2;
    }
    let next = AtomicUsize::new(0);
    let unspecified = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(sc, || loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= verdicts.len() {
                    break;
                }
                let v = &verdicts[k];
                let t = &texts[v["i"].as_u64().unwrap() as usize - 1];
                let (goal, src) = (t["goal"].as_str().unwrap(), t["src"].as_str().unwrap());
                match v["k"].as_str().unwrap() {
                    "full" => sink.expect_accept("texts", goal, src, &from_spec(&v["a"])),
                    "dead" => {
                        let (lo, hi) = (v["er"][0].as_u64().unwrap() as usize, v["er"][1].as_u64().unwrap() as usize);
                        if !lines || lo == 0 {
                            sink.expect_reject("texts", goal, src);
                            continue;
                        }
                        sink.rejected.fetch_add(1, Ordering::Relaxed);
                        let got = run(goal, src);
                        match &got {
                            Outcome::Reject { line, .. } if lo <= *line && *line <= hi => (),
                            _ => sink.violation("texts", goal, src, format!("reject, line {} to {}", lo, hi), &got),
                        }
                    }
                    _ => {
                        unspecified.fetch_add(1, Ordering::Relaxed);
                        sink.expect_total("texts", goal, src)
                    }
                }
            }).unwrap();
        }
    });
    let mut v = sink.report();
    v["behaviours"] = json!(verdicts.len());
    v["unspecified"] = json!(unspecified.load(Ordering::Relaxed));
    match report {
        Some(r) => std::fs::write(r, v.to_string()).unwrap(),
        None => println!("{}", v),
    }
    0
}

//! spec -> code: replay of the behaviours TLC printed for a slice, and of all
//! the strings over the slice's alphabet that are *not* behaviours.
use crate::run::{run, Outcome, RUNS};
use crate::tree::{decode, from_spec, Tree};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::io::{BufRead, BufReader};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub struct Ctx {
    pub goal: String,
    pub pre: Vec<String>,
    pub post: Vec<String>,
}

pub struct Slice {
    pub name: String,
    pub sep: String,
    pub ctxs: Vec<Ctx>,
    pub letters: Vec<Vec<String>>,
    pub max: usize,
    /// character classes: representative and members
    pub classes: Vec<(String, Vec<char>)>,
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Full, // prefix followed by the context's end is accepted
    Comp, // prefix followed by `q` is accepted
    None, // viable, but no completion is given
    Skip, // outside the scope of the properties from here on
    Post, // the context's end leads outside the scope
}

struct Behaviour {
    kind: Kind,
    q: Vec<String>,
    ast: Option<Tree>,
}

type Key = (u8, Vec<u16>);

fn strings(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default()
}

pub fn unquote(line: &str) -> String {
    // a TLA+ string as TLC prints it
    let inner = &line[1..line.len() - 1];
    let mut out = String::with_capacity(inner.len());
    let mut it = inner.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('\\') => out.push('\\'),
                Some('"') => out.push('"'),
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some(d) => {
                    out.push('\\');
                    out.push(d);
                }
                None => out.push('\\'),
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// JSON of any depth.
pub fn json_value(text: &str) -> serde_json::Result<Value> {
    let mut d = serde_json::Deserializer::from_str(text);
    d.disable_recursion_limit();
    serde::de::Deserialize::deserialize(&mut d)
}

fn parse_slice(v: &Value) -> Slice {
    Slice {
                name: v["name"].as_str().unwrap_or("").to_string(),
                sep: v["sep"].as_str().unwrap_or(" ").to_string(),
                ctxs: v["ctxs"].as_array().unwrap().iter().map(|c| Ctx {
                    goal: c["goal"].as_str().unwrap().to_string(),
                    pre: strings(&c["pre"]),
                    post: strings(&c["post"]),
                }).collect(),
                letters: v["letters"].as_array().unwrap().iter().map(strings).collect(),
                max: v["max"].as_u64().unwrap() as usize,
                classes: v["uni"].as_array().map(|a| a.iter().map(|u| (u["n"].as_str().unwrap().to_string(),
                    u["r"].as_array().unwrap().iter().flat_map(|r| {
                        let (lo, hi) = (r[0].as_u64().unwrap() as u32, r[1].as_u64().unwrap() as u32);
                        (lo..=hi).filter_map(char::from_u32)
                    }).collect())).collect()).unwrap_or_default(),
            }
}

fn behaviour(v: &Value) -> (u8, Vec<u16>, Behaviour) {
    let kind = match v["k"].as_str().unwrap() { "full" => Kind::Full, "comp" => Kind::Comp, "skip" => Kind::Skip, "post" => Kind::Post, _ => Kind::None };
    let ast = if kind == Kind::Full || kind == Kind::Comp { Some(from_spec(&v["a"])) } else { None };
    (v["x"].as_u64().unwrap() as u8 - 1,
        v["p"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16 - 1).collect(),
        Behaviour { kind, q: strings(&v["q"]), ast })
}

fn load(path: &str) -> (Slice, HashMap<Key, Behaviour>) {
    let mut slice = None;
    let mut map = HashMap::new();
    let file = std::fs::File::open(path).expect("behaviours file");
    for line in BufReader::new(file).lines() {
        let line = line.unwrap();
        if line.starts_with("\"@S ") {
            let text = unquote(&line);
            let v: Value = json_value(&text[3..]).expect("slice");
            slice = Some(parse_slice(&v));
        } else if line.starts_with("\"@B ") {
            let text = unquote(&line);
            let v: Value = json_value(&text[3..]).expect("behaviour");
            let (x, p, b) = behaviour(&v);
            map.insert((x, p), b);
        }
    }
    (slice.expect("no slice in the behaviours file"), map)
}

impl Slice {
    fn text(&self, parts: &[&[String]]) -> String {
        let mut out = String::new();
        for part in parts {
            for lex in part.iter() {
                if self.sep.is_empty() {
                    out.push_str(&decode(lex));
                } else if lex == "\n" {
                    out.push('\n');
                } else {
                    if !out.is_empty() && !out.ends_with('\n') {
                        out.push_str(&self.sep);
                    }
                    out.push_str(&decode(lex));
                }
            }
        }
        out
    }
}

struct Job<'a> {
    slice: &'a Slice,
    map: &'a HashMap<Key, Behaviour>,
    sink: &'a Sink,
    third: u64, // sampling modulus for second dead letters (0: none)
    seed: u64,
}

pub struct Sink {
    pub violations: Mutex<Vec<Value>>,
    pub count: AtomicUsize,
    pub known: HashSet<(String, String)>,
    pub known_hit: Mutex<HashSet<(String, String)>>,
    pub accepted: AtomicU64,
    pub rejected: AtomicU64,
    pub samples: Mutex<Vec<Value>>,
    /// where to write accepted texts (one of so many), for `record`
    pub dump: Option<(Mutex<std::io::BufWriter<std::fs::File>>, u64)>,
}

impl Sink {
    pub fn new(known_file: Option<&str>) -> Sink {
        let mut known = HashSet::new();
        if let Some(f) = known_file {
            if let Ok(text) = std::fs::read_to_string(f) {
                let v: Value = json_value(&text).expect("known findings");
                for k in v["inputs"].as_array().unwrap() {
                    known.insert((k["goal"].as_str().unwrap().to_string(), k["source"].as_str().unwrap().to_string()));
                }
            }
        }
        Sink { violations: Mutex::new(vec![]), count: AtomicUsize::new(0), known, known_hit: Mutex::new(HashSet::new()),
            accepted: AtomicU64::new(0), rejected: AtomicU64::new(0), samples: Mutex::new(vec![]), dump: None }
    }

    pub fn violation(&self, slice: &str, goal: &str, source: &str, expected: String, got: &Outcome) {
        let key = (goal.to_string(), source.to_string());
        if self.known.contains(&key) {
            self.known_hit.lock().unwrap().insert(key);
            return;
        }
        self.count.fetch_add(1, Ordering::Relaxed);
        let mut v = self.violations.lock().unwrap();
        if v.len() < 5000 {
            v.push(json!({"slice": slice, "goal": goal, "source": source, "expected": expected, "got": got.show()}));
        }
    }

    pub fn expect_accept(&self, slice: &str, goal: &str, source: &str, ast: &Tree) {
        self.accepted.fetch_add(1, Ordering::Relaxed);
        if let Some((w, one_of)) = &self.dump {
            if source.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) / 16 % one_of == 0 {
                use std::io::Write;
                writeln!(w.lock().unwrap(), "{}", json!({"goal": goal, "c": crate::judge::encode(source), "src": source})).unwrap();
            }
        }
        let got = run(goal, source);
        if let Outcome::Accept(t) = &got {
            if t == ast {
                return;
            }
        }
        self.violation(slice, goal, source, format!("accept {}", ast.show()), &got);
    }

    pub fn expect_reject(&self, slice: &str, goal: &str, source: &str) {
        self.rejected.fetch_add(1, Ordering::Relaxed);
        let got = run(goal, source);
        if let Outcome::Reject { .. } = &got {
            return;
        }
        self.violation(slice, goal, source, "reject".into(), &got);
    }

    /// Outside the scope: a result of whatever kind, but no panic.
    pub fn expect_total(&self, slice: &str, goal: &str, source: &str) {
        let got = run(goal, source);
        if let Outcome::Accept(_) | Outcome::Reject { .. } = &got {
            return;
        }
        self.violation(slice, goal, source, "a result".into(), &got);
    }

    pub fn report(&self) -> Value {
        let mut v = self.violations.lock().unwrap().clone();
        v.sort_by_key(|x| (x["source"].as_str().unwrap().len(), x["source"].as_str().unwrap().to_string()));
        let mut hits: Vec<_> = self.known_hit.lock().unwrap().iter().cloned().collect();
        hits.sort();
        json!({
            "runs": RUNS.load(Ordering::Relaxed),
            "accepted": self.accepted.load(Ordering::Relaxed),
            "rejected": self.rejected.load(Ordering::Relaxed),
            "violation_count": self.count.load(Ordering::Relaxed),
            "violations": v,
            "known_hits": hits.iter().map(|(g, s)| json!({"goal": g, "source": s})).collect::<Vec<_>>(),
            "samples": *self.samples.lock().unwrap(),
        })
    }
}

fn hash(seed: u64, key: &[u16]) -> u64 {
    let mut h = seed ^ 0xcbf29ce484222325;
    for b in key {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^ (h >> 29)
}

impl<'a> Job<'a> {
    fn lex(&self, p: &[u16]) -> Vec<String> {
        p.iter().flat_map(|i| self.slice.letters[*i as usize].iter().cloned()).collect()
    }

    /// The program so far and its completion; what to close a wrong letter with.
    fn positive<'b>(&'b self, x: u8, p: &[u16], b: &'b Behaviour) -> Option<&'b [String]> {
        let c = &self.slice.ctxs[x as usize];
        let lex = self.lex(p);
        let name = &self.slice.name;
        let direct = self.slice.text(&[&c.pre, &lex, &c.post]);
        let closing: &[String] = match b.kind {
            Kind::Full => {
                self.accept(&c.goal, &direct, b.ast.as_ref().unwrap());
                &c.post
            }
            Kind::Comp => {
                self.reject(&c.goal, &direct);
                let text = self.slice.text(&[&c.pre, &lex, &b.q]);
                self.accept(&c.goal, &text, b.ast.as_ref().unwrap());
                &b.q
            }
            Kind::None => {
                self.reject(&c.goal, &direct);
                &b.q
            }
            Kind::Skip => {
                self.sink.expect_total(name, &c.goal, &direct);
                return None;
            }
            Kind::Post => &c.post,
        };
        if hash(self.seed, p) % 4093 == 0 {
            let mut s = self.sink.samples.lock().unwrap();
            if s.len() < 12 {
                s.push(json!({"slice": name, "goal": c.goal, "source": direct, "verdict": if b.kind == Kind::Full {"accept"} else {"reject"}}));
            }
        }
        Some(closing)
    }

    fn state(&self, x: u8, p: &[u16]) {
        let key = (x, p.to_vec());
        let b = match self.map.get(&key) {
            Some(b) => b,
            None => return,
        };
        let c = &self.slice.ctxs[x as usize];
        let closing = match self.positive(x, p, b) {
            Some(q) => q,
            None => return,
        };
        if p.len() >= self.slice.max {
            return;
        }
        // letters with which no valid program continues
        for l in 0..self.slice.letters.len() as u16 {
            let mut q = p.to_vec();
            q.push(l);
            let k2 = (x, q);
            if self.map.contains_key(&k2) {
                continue;
            }
            if self.blank(l) {
                continue;
            }
            self.reject_with(c, p, l, &[], &c.post);
            if closing != &c.post[..] {
                self.reject_with(c, p, l, &[], closing);
            }
            if self.third > 0 {
                for m in 0..self.slice.letters.len() as u16 {
                    let mut r = k2.1.clone();
                    r.push(m);
                    r.push(x as u16);
                    if hash(self.seed, &r) % self.third != 0 {
                        continue;
                    }
                    self.reject_with(c, p, l, &[m], closing);
                }
            }
        }
    }

    /// The members of the classes a text mentions: every member of every class.
    fn expand(&self, source: &str, f: &dyn Fn(&dyn Fn(&str) -> String)) {
        let cls: Vec<_> = self.slice.classes.iter().filter(|c| source.contains(&c.0)).collect();
        let n = cls.iter().map(|c| c.1.len()).max().unwrap_or(0);
        if n == 0 {
            return f(&|s| s.to_string());
        }
        for i in 0..n {
            f(&|s| {
                let mut s = s.to_string();
                for (k, c) in cls.iter().enumerate() {
                    if s.contains(&c.0) {
                        let m = c.1[(i * (k * 7 + 1) + k * self.seed as usize) % c.1.len()];
                        s = s.replace(&c.0, m.encode_utf8(&mut [0; 4]));
                    }
                }
                s
            });
        }
    }

    fn accept(&self, goal: &str, source: &str, ast: &Tree) {
        if self.slice.classes.is_empty() {
            return self.sink.expect_accept(&self.slice.name, goal, source, ast);
        }
        self.expand(source, &|sub| self.sink.expect_accept(&self.slice.name, goal, &sub(source), &ast.substitute(sub)));
    }

    fn reject(&self, goal: &str, source: &str) {
        if self.slice.classes.is_empty() {
            return self.sink.expect_reject(&self.slice.name, goal, source);
        }
        self.expand(source, &|sub| self.sink.expect_reject(&self.slice.name, goal, &sub(source)));
    }

    /// Where a lexeme cannot stand, its characters may be read as other tokens
    /// that reach into what follows: a slash begins a regular expression, a
    /// brace ends a substitution if a backtick follows.
    fn rereads(&self, l: u16, after: &[String]) -> bool {
        !self.slice.sep.is_empty()
            && self.slice.letters[l as usize].iter().any(|s| {
                let slash = s.starts_with('/');
                let brace = s.starts_with('}');
                (slash && after.iter().any(|t| t.contains('/'))) || (brace && after.iter().any(|t| t.contains('`')))
            })
    }

    fn reject_with(&self, c: &Ctx, p: &[u16], l: u16, tail: &[u16], end: &[String]) {
        let mut after = self.lex(tail);
        after.extend(end.iter().cloned());
        if self.rereads(l, &after) {
            return;
        }
        let mut q = self.lex(p);
        q.extend(self.slice.letters[l as usize].iter().cloned());
        self.reject(&c.goal, &self.slice.text(&[&c.pre, &q, &after]));
    }

    fn blank(&self, l: u16) -> bool {
        !self.slice.sep.is_empty() && self.slice.letters[l as usize].iter().all(|s| s == "\n")
    }
}

/// Random walks: every line carries the letters that cannot follow.
fn walk(path: &str, sink: &Sink, seed: u64) -> usize {
    let mut slice: Option<Slice> = None;
    let mut states: Vec<(u8, Vec<u16>, Behaviour, Vec<u16>)> = vec![];
    let index = |v: &Value| -> Vec<u16> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u16 - 1).collect() };
    for line in BufReader::new(std::fs::File::open(path).expect("behaviours file")).lines() {
        let line = line.unwrap();
        if line.starts_with("\"@S ") {
            slice = Some(parse_slice(&json_value(&unquote(&line)[3..]).expect("slice")));
        } else if line.starts_with("\"@B ") {
            let v: Value = json_value(&unquote(&line)[3..]).expect("behaviour");
            let (x, p, b) = behaviour(&v);
            states.push((x, p, b, index(&v["d"])));
        }
    }
    let slice = slice.expect("no slice");
    let map = HashMap::new();
    let job = Job { slice: &slice, map: &map, sink, third: 0, seed };
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(sc, || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= states.len() {
                    break;
                }
                let (x, p, b, dead) = &states[i];
                let c = &slice.ctxs[*x as usize];
                if let Some(closing) = job.positive(*x, p, b) {
                    for l in dead {
                        if job.blank(*l) {
                            continue;
                        }
                        job.reject_with(c, p, *l, &[], &c.post);
                        if closing != &c.post[..] {
                            job.reject_with(c, p, *l, &[], closing);
                        }
                        // whatever follows
                        let mut h = hash(hash(seed ^ *x as u64, p), &[*l]);
                        let mut tail = vec![];
                        for _ in 0..1 + h % 5 {
                            h = hash(h, &[0]);
                            tail.push((h >> 20) as u16 % slice.letters.len() as u16);
                        }
                        job.reject_with(c, p, *l, &tail, closing);
                    }
                }
            }).unwrap();
        }
    });
    states.len()
}

/// mode_lines: the error of a rejected text names a line of the offending token.
fn lines(path: &str, sink: &Sink) -> usize {
    let mut slice: Option<Slice> = None;
    let mut states: Vec<Value> = vec![];
    for line in BufReader::new(std::fs::File::open(path).expect("behaviours file")).lines() {
        let line = line.unwrap();
        if line.starts_with("\"@S ") {
            slice = Some(parse_slice(&json_value(&unquote(&line)[3..]).expect("slice")));
        } else if line.starts_with("\"@L ") {
            states.push(json_value(&unquote(&line)[3..]).expect("lines"));
        }
    }
    let slice = slice.expect("no slice");
    let next = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..8 {
            std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(sc, || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= states.len() {
                    break;
                }
                let v = &states[i];
                let c = &slice.ctxs[v["x"].as_u64().unwrap() as usize - 1];
                let p: Vec<usize> = v["p"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as usize - 1).collect();
                let lex: Vec<String> = p.iter().flat_map(|i| slice.letters[*i].iter().cloned()).collect();
                let range = |r: &Value| (r[0].as_u64().unwrap() as usize, r[1].as_u64().unwrap() as usize);
                let check = |text: &str, r: (usize, usize)| {
                    if r.0 == 0 {
                        return;
                    }
                    sink.rejected.fetch_add(1, Ordering::Relaxed);
                    let got = run(&c.goal, text);
                    match &got {
                        Outcome::Reject { line, .. } if r.0 <= *line && *line <= r.1 => (),
                        _ => sink.violation(&slice.name, &c.goal, text, format!("reject, line {} to {}", r.0, r.1), &got),
                    }
                };
                check(&slice.text(&[&c.pre, &lex]), range(&v["e"]));
                for (l, r) in v["d"].as_array().unwrap().iter().enumerate() {
                    let r = range(r);
                    if r.0 == 0 {
                        continue;
                    }
                    let mut q = lex.clone();
                    q.extend(slice.letters[l].iter().cloned());
                    let text = slice.text(&[&c.pre, &q]);
                    check(&text, r);
                    check(&format!("{}\n\n;x\n", text), r);
                }
            }).unwrap();
        }
    });
    states.len()
}

pub fn main(args: &[String]) -> i32 {
    let mut files = vec![];
    let (mut report, mut known, mut seed, mut third_budget) = (None, None, 1u64, 3_000_000u64);
    let (mut line_mode, mut walk_mode) = (false, false);
    let (mut dump, mut one_of) = (None, 1u64);
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--walk" => walk_mode = true,
            "--dump" => dump = it.next().cloned(),
            "--one-of" => one_of = it.next().unwrap().parse().unwrap(),
            "--lines" => line_mode = true,
            "--report" => report = it.next().cloned(),
            "--known" => known = it.next().cloned(),
            "--seed" => seed = it.next().unwrap().parse().unwrap(),
            "--third" => third_budget = it.next().unwrap().parse().unwrap(),
            _ => files.push(a.clone()),
        }
    }
    let mut sink = Sink::new(known.as_deref());
    sink.dump = dump.map(|f| (Mutex::new(std::io::BufWriter::new(std::fs::File::create(f).expect("dump"))), one_of));
    let sink = sink;
    let mut behaviours = 0;
    for f in &files {
        if line_mode {
            behaviours += lines(f, &sink);
            continue;
        }
        if walk_mode {
            behaviours += walk(f, &sink, seed);
            continue;
        }
        let (slice, map) = load(f);
        behaviours += map.len();
        let mut keys: Vec<&Key> = map.keys().collect();
        keys.sort();
        let n = slice.letters.len() as u64;
        let dead = map.len() as u64 * n * n;
        let third = if third_budget == 0 { 0 } else { dead / third_budget + 1 };
        let job = Job { slice: &slice, map: &map, sink: &sink, third, seed };
        let next = AtomicUsize::new(0);
        let chunk = if slice.classes.is_empty() { 64 } else { 1 };
        std::thread::scope(|s| {
            for _ in 0..8 {
                std::thread::Builder::new().stack_size(1 << 28).spawn_scoped(s, || loop {
                    let i = next.fetch_add(chunk, Ordering::Relaxed);
                    if i >= keys.len() {
                        break;
                    }
                    for k in &keys[i..(i + chunk).min(keys.len())] {
                        job.state(k.0, &k.1);
                    }
                }).unwrap();
            }
        });
    }
    let mut v = sink.report();
    drop(sink);
    v["behaviours"] = json!(behaviours);
    let text = v.to_string();
    match report {
        Some(r) => std::fs::write(r, text).unwrap(),
        None => println!("{}", text),
    }
    0
}

//! Recorded trees: the JSON text that the parser's AST serialises to, encoded
//! for TLC (Schema.tla), with every value tagged by its kind:
//!   node  [k |-> "node", t, f]    obj  [k |-> "obj", f]   (no `type`)
//!   arr   [k |-> "arr", v]        str  [k |-> "str", v, odd]
//!   num   [k |-> "num", v]        bool [k |-> "bool", v]   null [k |-> "null"]
use crate::judge::encode;
use crate::replay::json_value;
use serde::de::{Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use serde_json::{json, Map, Value};
use std::fmt;
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Enc(Value);

impl<'de> Deserialize<'de> for Enc {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Enc, D::Error> {
        d.deserialize_any(EncVisitor)
    }
}

struct EncVisitor;

/// Characters that the specification names, rather than writes, make a string odd.
fn odd(s: &str) -> bool {
    !s.chars().all(|c| (' '..='~').contains(&c))
}

fn string(s: &str) -> Value {
    json!({"k": "str", "v": encode(s).concat(), "odd": odd(s)})
}

fn number(x: f64) -> Enc {
    let v = if x >= 0.0 && x == x.floor() && x < 1e6 { format!("{}", x as u64) } else { format!("{:?}", x) };
    Enc(json!({"k": "num", "v": v}))
}

impl<'de> Visitor<'de> for EncVisitor {
    type Value = Enc;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("JSON")
    }
    fn visit_bool<E>(self, b: bool) -> Result<Enc, E> {
        Ok(Enc(json!({"k": "bool", "v": b})))
    }
    fn visit_i64<E>(self, x: i64) -> Result<Enc, E> {
        Ok(number(x as f64))
    }
    fn visit_u64<E>(self, x: u64) -> Result<Enc, E> {
        Ok(number(x as f64))
    }
    fn visit_f64<E>(self, x: f64) -> Result<Enc, E> {
        Ok(number(x))
    }
    fn visit_str<E>(self, s: &str) -> Result<Enc, E> {
        Ok(Enc(string(s)))
    }
    fn visit_unit<E>(self) -> Result<Enc, E> {
        Ok(Enc(json!({"k": "null"})))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Enc, A::Error> {
        let mut v = vec![];
        while let Some(Enc(x)) = a.next_element()? {
            v.push(x);
        }
        Ok(Enc(json!({"k": "arr", "v": v})))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Enc, A::Error> {
        let mut f = Map::new();
        let mut ty = None;
        let mut twice = false;
        while let Some((k, Enc(x))) = a.next_entry::<String, Enc>()? {
            if k == "type" && x["k"] == "str" {
                twice |= ty.is_some();
                ty = x["v"].as_str().map(|s| s.to_string());
            } else {
                twice |= f.insert(k, x).is_some();
            }
        }
        if twice {
            f.insert("<a field twice>".into(), json!({"k": "null"}));
        }
        Ok(Enc(match ty {
            Some(t) => json!({"k": "node", "t": t, "f": f}),
            None => json!({"k": "obj", "f": f}),
        }))
    }
}

/// The encoded AST; `none` if the text is rejected (or the parser panics).
pub fn record(goal: &str, source: &str) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| {
        let res = if goal == "module" { giron::parse_module(source.to_string()) } else { giron::parse_script(source.to_string()) };
        res.ok().map(|ast| serde_json::to_string(&ast).expect("serialisable AST"))
    }));
    match r {
        Ok(Some(text)) => {
            let mut d = serde_json::Deserializer::from_str(&text);
            d.disable_recursion_limit();
            Enc::deserialize(&mut d).expect("JSON").0
        }
        _ => json!({"k": "none"}),
    }
}

fn depth(v: &Value) -> usize {
    match v {
        Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        Value::Object(m) => 1 + m.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// harness record --out FILE TEXTS
pub fn main(args: &[String]) -> i32 {
    let mut out = String::new();
    let mut file = String::new();
    let mut it = args.iter();
    while let Some(a) = it.next() {
        match a.as_str() {
            "--out" => out = it.next().unwrap().clone(),
            _ => file = a.clone(),
        }
    }
    let mut w = std::io::BufWriter::new(std::fs::File::create(&out).expect("out"));
    for line in BufReader::new(std::fs::File::open(&file).unwrap()).lines() {
        let mut t = json_value(&line.unwrap()).unwrap();
        t["ast"] = record(t["goal"].as_str().unwrap(), t["src"].as_str().unwrap());
        // TLC needs no rejected texts, and reads JSON of limited depth only
        if t["ast"]["k"] != "none" && depth(&t) < 250 {
            writeln!(w, "{}", t).unwrap();
        }
    }
    0
}

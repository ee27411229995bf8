//! The uniform tree of the specification (spec/Ast.tla) and the projection of
//! the parser's serialised ESTree output onto it.
use serde_json::{Map, Value};

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tree {
    pub t: String,
    pub s: Vec<String>,
    pub c: Vec<Tree>,
}

pub fn node(t: &str, s: Vec<String>, c: Vec<Tree>) -> Tree {
    Tree { t: t.to_string(), s, c }
}

fn null() -> Tree {
    node("null", vec![], vec![])
}

impl Tree {
    pub fn render(&self, out: &mut String) {
        out.push('(');
        out.push_str(&self.t);
        for s in &self.s {
            out.push(' ');
            out.push_str(&format!("{:?}", s));
        }
        for c in &self.c {
            out.push(' ');
            c.render(out);
        }
        out.push(')');
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        self.render(&mut s);
        s
    }
}

// ---------------------------------------------------------------------------
// Specification side

/// Exact value of a numeric literal given as "radix:digits" (digits may have a
/// fraction and an exponent when the radix is 10).
pub fn number(text: &str) -> f64 {
    let (radix, digits) = text.split_once(':').expect("number");
    let radix: u32 = radix.parse().expect("radix");
    if radix == 10 {
        return digits.parse::<f64>().unwrap_or_else(|_| panic!("decimal {:?}", digits));
    }
    // convert to decimal exactly, then round once
    let mut dec: Vec<u8> = vec![0];
    for d in digits.chars() {
        let mut carry = d.to_digit(radix).expect("digit");
        for x in dec.iter_mut() {
            let v = *x as u32 * radix + carry;
            *x = (v % 10) as u8;
            carry = v / 10;
        }
        while carry > 0 {
            dec.push((carry % 10) as u8);
            carry /= 10;
        }
    }
    let s: String = dec.iter().rev().map(|d| (b'0' + d) as char).collect();
    s.parse().unwrap()
}

pub fn canon_number(x: f64) -> String {
    if x.is_infinite() { "inf".into() } else { format!("{:?}", x) }
}

/// Placeholders for characters that the specification names rather than
/// writes: <U+hex>, <#decimal>, and the class representatives <IDS> ... (which
/// stay in the text until `substitute`).
pub fn decode(s: &str) -> String {
    if !s.contains("<U+") && !s.contains("<#") {
        return s.to_string();
    }
    let mut out = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('<') {
        let tail = &rest[i..];
        let (radix, skip) = if tail.starts_with("<U+") { (16, 3) } else if tail.starts_with("<#") { (10, 2) } else { (0, 1) };
        let cp = tail.find('>').filter(|_| radix > 0)
            .and_then(|j| u32::from_str_radix(&tail[skip..j], radix).ok().and_then(char::from_u32).map(|c| (c, j)));
        out.push_str(&rest[..i]);
        match cp {
            Some((c, j)) => {
                out.push(c);
                rest = &tail[j + 1..];
            }
            None => {
                out.push('<');
                rest = &tail[1..];
            }
        }
    }
    out.push_str(rest);
    out
}

impl Tree {
    /// Replace class representatives by members.
    pub fn substitute(&self, f: &dyn Fn(&str) -> String) -> Tree {
        Tree { t: self.t.clone(), s: self.s.iter().map(|x| f(x)).collect(), c: self.c.iter().map(|x| x.substitute(f)).collect() }
    }
}

/// A node printed by TLC (ToJson).  Spec-only node types are erased.
pub fn from_spec(v: &Value) -> Tree {
    let t = v["t"].as_str().expect("t");
    let mut s: Vec<String> = v["s"].as_array().expect("s").iter().map(|x| decode(x.as_str().unwrap())).collect();
    let mut c: Vec<Tree> = v["c"].as_array().expect("c").iter().map(from_spec).collect();
    match t {
        "Paren" => return c.pop().unwrap(),
        "SpreadComma" => return node("SpreadElement", s, c),
        "Literal" if s[0] == "num" => s[1] = canon_number(number(&s[1])),
        _ => (),
    }
    node(t, s, c)
}

// ---------------------------------------------------------------------------
// Implementation side

struct Obj<'a> {
    map: &'a Map<String, Value>,
    used: Vec<&'static str>,
    s: Vec<String>,
    c: Vec<Tree>,
}

impl<'a> Obj<'a> {
    fn get(&mut self, k: &'static str) -> Option<&'a Value> {
        self.used.push(k);
        self.map.get(k)
    }
    fn attr(&mut self, k: &'static str) -> &mut Self {
        let v = match self.get(k) {
            Some(Value::String(s)) => s.clone(),
            Some(Value::Bool(b)) => b.to_string(),
            Some(v) => format!("<?{}={}>", k, v),
            None => format!("<missing {}>", k),
        };
        self.s.push(v);
        self
    }
    fn kid(&mut self, k: &'static str) -> &mut Self {
        let v = match self.get(k) {
            Some(v @ (Value::Object(_) | Value::Null)) => from_estree(v),
            Some(v) => node(&format!("<?{}={}>", k, v), vec![], vec![]),
            None => node(&format!("<missing {}>", k), vec![], vec![]),
        };
        self.c.push(v);
        self
    }
    fn kids(&mut self, k: &'static str) -> &mut Self {
        let v = match self.get(k) {
            Some(Value::Array(a)) => node("[]", vec![], a.iter().map(from_estree).collect()),
            Some(v) => node(&format!("<?{}={}>", k, v), vec![], vec![]),
            None => node(&format!("<missing {}>", k), vec![], vec![]),
        };
        self.c.push(v);
        self
    }
}

/// Projection of an ESTree JSON value.  Anything that is not exactly the ESTree
/// shape of its type (unknown type, missing, additional or ill-typed field)
/// yields a node that no specification tree contains.  Not projected: `raw` of
/// literals, the `value` of regular expressions, a constant `each: false`.
pub fn from_estree(v: &Value) -> Tree {
    let map = match v {
        Value::Null => return null(),
        Value::Object(m) => m,
        _ => return node(&format!("<?{}>", v), vec![], vec![]),
    };
    let ty = match map.get("type") {
        Some(Value::String(s)) => s.as_str(),
        _ => return node("<no type>", vec![], vec![]),
    };
    let mut o = Obj { map, used: vec!["type"], s: vec![], c: vec![] };
    let mut out_ty = ty;
    match ty {
        "Program" => { o.attr("sourceType").kids("body"); }
        "ExpressionStatement" => { o.kid("expression"); }
        "EmptyStatement" | "DebuggerStatement" | "ThisExpression" | "Super" => {}
        "BlockStatement" | "ClassBody" => { o.kids("body"); }
        "WithStatement" => { o.kid("object").kid("body"); }
        "ReturnStatement" | "ThrowStatement" => { o.kid("argument"); }
        "LabeledStatement" => { o.kid("label").kid("body"); }
        "BreakStatement" | "ContinueStatement" => { o.kid("label"); }
        "IfStatement" | "ConditionalExpression" => { o.kid("test").kid("consequent").kid("alternate"); }
        "SwitchStatement" => { o.kid("discriminant").kids("cases"); }
        "SwitchCase" => { o.kid("test").kids("consequent"); }
        "TryStatement" => { o.kid("block").kid("handler").kid("finalizer"); }
        "CatchClause" => { o.kid("param").kid("body"); }
        "WhileStatement" => { o.kid("test").kid("body"); }
        "DoWhileStatement" => { o.kid("body").kid("test"); }
        "ForStatement" => { o.kid("init").kid("test").kid("update").kid("body"); }
        "ForInStatement" | "ForOfStatement" => {
            o.kid("left").kid("right").kid("body");
            if map.get("each") == Some(&Value::Bool(false)) { o.used.push("each"); }
            if map.get("await") == Some(&Value::Bool(false)) { o.used.push("await"); }
        }
        "VariableDeclaration" => { o.attr("kind").kids("declarations"); }
        "VariableDeclarator" => { o.kid("id").kid("init"); }
        "FunctionDeclaration" | "FunctionExpression" | "ArrowFunctionExpression" => {
            o.attr("generator").attr("expression").attr("async").kid("id").kids("params").kid("body");
        }
        "ClassDeclaration" | "ClassExpression" => { o.kid("id").kid("superClass").kid("body"); }
        "MethodDefinition" => { o.attr("kind").attr("static").attr("computed").kid("key").kid("value"); }
        "Property" => { o.attr("kind").attr("method").attr("shorthand").attr("computed").kid("key").kid("value"); }
        "Identifier" => { o.attr("name"); }
        "Literal" => {
            o.used.push("raw");
            if let Some(r) = o.get("regex") {
                out_ty = "RegExp";
                o.used.push("value");
                match (r.get("pattern"), r.get("flags"), r.as_object().map(|m| m.len())) {
                    (Some(Value::String(p)), Some(Value::String(f)), Some(2)) => o.s = vec![p.clone(), f.clone()],
                    _ => o.s.push(format!("<?regex {}>", r)),
                }
            } else {
                let (k, v) = match o.get("value") {
                    Some(Value::String(s)) => ("str", s.clone()),
                    Some(Value::Number(n)) => ("num", canon_number(n.as_f64().unwrap())),
                    Some(Value::Bool(b)) => ("bool", b.to_string()),
                    Some(Value::Null) => match map.get("raw") {
                        // JSON has no infinity: a number out of range serialises as null
                        Some(Value::String(r)) if r != "null" => ("num", "inf".to_string()),
                        _ => ("null", "null".to_string()),
                    },
                    v => ("?", format!("{:?}", v)),
                };
                o.s = vec![k.to_string(), v];
            }
        }
        "ArrayExpression" | "ArrayPattern" => { o.kids("elements"); }
        "ObjectExpression" | "ObjectPattern" => { o.kids("properties"); }
        "AssignmentPattern" => { o.kid("left").kid("right"); }
        "RestElement" | "SpreadElement" | "AwaitExpression" => { o.kid("argument"); }
        "YieldExpression" => { o.attr("delegate").kid("argument"); }
        "UnaryExpression" => {
            o.attr("operator").kid("argument");
            if map.get("prefix") == Some(&Value::Bool(true)) { o.used.push("prefix"); }
        }
        "UpdateExpression" => { o.attr("operator").attr("prefix").kid("argument"); }
        "BinaryExpression" | "LogicalExpression" | "AssignmentExpression" => { o.attr("operator").kid("left").kid("right"); }
        "SequenceExpression" => { o.kids("expressions"); }
        "CallExpression" | "NewExpression" => { o.kid("callee").kids("arguments"); }
        "MemberExpression" => { o.attr("computed").kid("object").kid("property"); }
        "MetaProperty" => { o.kid("meta").kid("property"); }
        "TaggedTemplateExpression" => { o.kid("tag").kid("quasi"); }
        "TemplateLiteral" => { o.kids("quasis").kids("expressions"); }
        "TemplateElement" => {
            match o.get("value") {
                Some(Value::Object(m)) if m.len() == 2 => match (m.get("cooked"), m.get("raw")) {
                    (Some(Value::String(c)), Some(Value::String(r))) => o.s = vec![c.clone(), r.clone()],
                    (Some(Value::Null), Some(Value::String(r))) => o.s = vec!["<bad>".into(), r.clone()],
                    _ => o.s.push(format!("<?value {:?}>", m)),
                },
                v => o.s.push(format!("<?value {:?}>", v)),
            }
            o.attr("tail");
        }
        "ImportDeclaration" => { o.kids("specifiers").kid("source"); }
        "ImportSpecifier" => { o.kid("imported").kid("local"); }
        "ImportDefaultSpecifier" | "ImportNamespaceSpecifier" => { o.kid("local"); }
        "ExportNamedDeclaration" => { o.kid("declaration").kids("specifiers").kid("source"); }
        "ExportSpecifier" => { o.kid("local").kid("exported"); }
        "ExportDefaultDeclaration" => { o.kid("declaration"); }
        "ExportAllDeclaration" => { o.kid("source"); }
        _ => return node(&format!("<unknown type {}>", ty), vec![], vec![]),
    }
    let extra: Vec<String> = map.keys().filter(|k| !o.used.contains(&k.as_str())).map(|k| format!("<extra {}>", k)).collect();
    o.s.extend(extra);
    node(out_ty, o.s, o.c)
}

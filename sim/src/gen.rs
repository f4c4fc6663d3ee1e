//! Schemas, options and names, from a seed.

use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

use crate::rng::Rng;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Ctx {
    /// 0 cast, 1 drop, 2 panic
    pub resolve: u8,
    pub case: bool,
    pub nullable: bool,
    pub tuple: bool,
    pub maps: bool,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub regex: Option<String>,
}

impl Ctx {
    pub fn to_jst(&self) -> jst::Context {
        jst::Context {
            resolve_method: match self.resolve {
                0 => jst::ResolveMethod::Cast,
                1 => jst::ResolveMethod::Drop,
                _ => jst::ResolveMethod::Panic,
            },
            normalize_case: self.case,
            force_nullable: self.nullable,
            tuple_struct: self.tuple,
            allow_maps_without_value: self.maps,
            json_object_path_regex: self.regex.clone(),
        }
    }
}

pub fn ctx(r: &mut Rng) -> Ctx {
    Ctx {
        resolve: if r.chance(2, 3) { 0 } else { r.range(1, 2) as u8 },
        case: r.coin(),
        nullable: r.chance(1, 4),
        tuple: r.chance(1, 2),
        maps: r.chance(1, 3),
        regex: None,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    General,
    Collide,
    Merge,
    Verdict,
    Json,
}

pub struct Gen {
    pub focus: Focus,
    /// Remaining schema nodes.
    pub budget: i32,
    pub max_depth: usize,
    /// One in this many nodes is one the transpiler rejects; 0 = none.
    pub bad: u64,
}

const WORDS: &[&str] = &[
    "id", "clientId", "payload", "timestamp", "a", "b", "c", "f", "g", "createdAt", "HTTPServer", "x86", "os",
    "build", "name", "value", "key", "list", "root", "type", "object", "data", "info", "events", "URL", "userAgent",
    "isEnabled", "meta", "environment", "ping", "AppVersion", "RAM", "deviceID", "k2", "v1Beta",
];

pub fn word(r: &mut Rng) -> String {
    r.pick(WORDS).to_string()
}

fn flip_case(r: &mut Rng, s: &str) -> String {
    s.chars()
        .map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() })
        .collect()
}
fn letters(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}
fn cap(s: &str) -> String {
    let mut c = s.chars();
    match c.next() {
        Some(f) => f.to_ascii_uppercase().to_string() + c.as_str(),
        None => String::new(),
    }
}

/// Names that become one column name.
pub fn colliding(r: &mut Rng, case: bool, n: usize) -> Vec<String> {
    let a = if r.coin() { r.pick(&["a", "foo", "user", "x", "client", "alpha"]).to_string() } else { letters(r, 3) };
    let b = if r.coin() { r.pick(&["b", "bar", "id", "name", "y", "agent"]).to_string() } else { letters(r, 4) };
    let mut v = vec![format!("{a}_{b}"), format!("{a}.{b}"), format!("{a}-{b}")];
    if r.chance(1, 4) {
        let d = r.below(10);
        v = vec![format!("{d}{a}.{b}"), format!("{d}{a}-{b}"), format!("{d}{a}_{b}"), format!("_{d}{a}_{b}"), format!("_{d}{a}-{b}"), format!("_{d}{a}.{b}")];
    } else if case {
        v.extend([
            format!("{a}{}", cap(&b)),
            format!("{}{}", cap(&a), cap(&b)),
            format!("{}_{}", cap(&a), b),
            format!("{}-{}", a.to_uppercase(), b),
            format!("{}.{}", cap(&a), cap(&b)),
            format!("_{a}_{b}"),
            format!("{a}__{b}"),
            format!("{a}_{b}_"),
            format!("{a}.-{b}"),
            format!("{}_{}", a.to_uppercase(), b.to_uppercase()),
        ]);
    }
    r.shuffle(&mut v);
    v.truncate(n.max(2));
    v
}

pub fn permuted(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    r.shuffle(&mut v);
    v.into_iter().collect()
}

/// `n` distinct property names; ties under coarse orders are frequent.
pub fn names(r: &mut Rng, n: usize, focus: Focus) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    if focus == Focus::Collide {
        let groups = r.range(1, 3);
        for _ in 0..groups {
            let (case, k) = (r.coin(), r.range(2, 5));
            v.extend(colliding(r, case, k));
        }
    }
    let mut tries = 0;
    while v.len() < n && tries < n * 8 {
        tries += 1;
        let fam = r.below(13);
        let k = if n > 14 && r.coin() { r.range(4, n / 2) } else { r.range(1, 4).min(n) };
        match fam {
            0..=2 => v.push(word(r)),
            3 => {
                let w = if r.coin() { word(r) } else { letters(r, 5) };
                for _ in 0..k {
                    v.push(flip_case(r, &w));
                }
            }
            4 => {
                let l = r.range(2, 6);
                for _ in 0..k {
                    v.push(letters(r, l));
                }
            }
            5 => {
                let l = *r.pick(&[6, 9, 17, 33, 65, 130]);
                let p = letters(r, l);
                for _ in 0..k {
                    let sl = r.range(1, 3);
                    v.push(format!("{p}{}", letters(r, sl)));
                }
                if r.coin() {
                    v.push(p);
                }
            }
            6 => {
                let p = letters(r, 1);
                for d in ["1", "10", "2", "02", "9", "11", "1_0"].iter().take(k + 1) {
                    v.push(format!("{p}{d}"));
                }
            }
            7 => {
                let p = letters(r, 2);
                v.push(format!("{}{p}", r.below(30)));
                if r.coin() {
                    v.push(format!("_{}{p}", r.below(30)));
                }
            }
            8 => v.push(r.pick(&["$schema", "a b", "ünï", "名前", "x/y", "a:b", "@context", "é1", "a+b", "١٢"]).to_string()),
            9 => {
                let (case, k) = (r.coin(), 2);
                v.extend(colliding(r, case, k));
            }
            11 => {
                let w = letters(r, 4);
                for _ in 0..k {
                    v.push(permuted(r, &w));
                }
            }
            10 => {
                // prefixes of one another
                let p = letters(r, 4);
                for i in 1..=k.min(4) {
                    v.push(p[..i].to_string());
                }
            }
            _ => {
                let w = [word(r), word(r), word(r)];
                v.push(match r.below(4) {
                    0 => format!("{}{}", w[0], cap(&w[1])),
                    1 => format!("{}_{}", w[0], w[1]),
                    2 => format!("{}-{}", w[0], w[1]),
                    _ => format!("{}{}{}", w[0], cap(&w[1]), cap(&w[2])),
                });
            }
        }
    }
    r.shuffle(&mut v);
    let mut seen = std::collections::BTreeSet::new();
    // A name without any letter or digit makes the transpiler panic; those are for `bad`.
    v.retain(|s| s.chars().any(char::is_alphanumeric) && seen.insert(s.clone()));
    if focus != Focus::Collide {
        v.truncate(n);
    }
    v
}

pub const REGEXES: &[&str] = &[
    ".*", "payload", "root", "a", ".*payload", r".*\.data", r"\.?[a-z]+", r"\..*", "a|b", r"(foo|bar).*", "[a-c]", "payload.data",
    r".*id", r".*_.*", "events", r".*\.value", r"\w+", "meta.*", r"environment\..*", "x", r".*list", "info$",
];
pub const BAD_REGEXES: &[&str] = &["(", "[a", "*", "a{2", "(?<", r"\"];

pub fn regex(r: &mut Rng) -> String {
    if r.chance(1, 4) {
        // aims at one property
        let w = word(r);
        return if r.coin() { w } else { format!(".*{w}") };
    }
    r.pick(REGEXES).to_string()
}

impl Gen {
    pub fn new(r: &mut Rng, focus: Focus) -> Gen {
        Gen { focus, budget: r.heavy(6, 70) as i32, max_depth: r.range(2, 5), bad: 0 }
    }

    fn texts(&mut self, r: &mut Rng, m: &mut Map<String, Value>) {
        if r.chance(1, 8) {
            let s = match r.below(6) {
                0 => "x".repeat(r.range(1020, 1030)),
                1 => "é名".repeat(r.range(505, 520)),
                2 => String::new(),
                _ => format!("The {} of the {}", word(r), word(r)),
            };
            m.insert("description".into(), json!(s));
        }
        if r.chance(1, 10) {
            m.insert("title".into(), json!(if r.chance(1, 6) { "T".repeat(r.range(1000, 1030)) } else { word(r) }));
        }
        if r.chance(1, 20) {
            m.insert("$id".into(), json!(word(r)));
        }
    }

    fn atom(&mut self, r: &mut Rng) -> Map<String, Value> {
        let mut m = Map::new();
        match r.below(12) {
            0..=2 => drop(m.insert("type".into(), json!("string"))),
            3..=5 => drop(m.insert("type".into(), json!("integer"))),
            6 => drop(m.insert("type".into(), json!("number"))),
            7 => drop(m.insert("type".into(), json!("boolean"))),
            8 => drop(m.insert("type".into(), json!("null"))),
            9 => {
                m.insert("type".into(), json!("string"));
                m.insert("format".into(), json!(r.pick(&["date-time", "bytes", "json", "uri"])));
            }
            10 => drop(m.insert("type".into(), json!(r.pick(&["date-time", "bytes"])))),
            _ => {
                m.insert("type".into(), json!("string"));
                m.insert("enum".into(), json!(["a", "b"]));
            }
        }
        m
    }

    fn type_list(&mut self, r: &mut Rng, depth: usize) -> Map<String, Value> {
        let mut m = Map::new();
        let t: &[&str] = match r.below(9) {
            0 => &["string", "null"],
            1 => &["integer", "null"],
            2 => &["null", "number"],
            3 => &["integer", "number"],
            4 => &["string", "integer"],
            5 => &["boolean", "null", "integer"],
            6 => &["number"],
            7 => &["null"],
            _ => {
                m = if r.coin() { self.object(r, depth) } else { self.array(r, depth) };
                let t = m.get("type").cloned().unwrap_or(json!("object"));
                m.insert("type".into(), if r.coin() { json!([t, "null"]) } else { json!(["null", t]) });
                return m;
            }
        };
        m.insert("type".into(), json!(t));
        m
    }

    pub fn object(&mut self, r: &mut Rng, depth: usize) -> Map<String, Value> {
        let mut m = Map::new();
        if !r.chance(1, 10) {
            m.insert("type".into(), json!("object"));
        }
        if r.chance(1, if depth == 0 { 12 } else { 40 }) {
            // wide, mostly of plain columns
            let n = r.range(15, 70);
            let ns = names(r, n, self.focus);
            let keep = (self.budget, self.max_depth);
            if r.chance(2, 3) {
                self.max_depth = depth;
            }
            self.object_with(r, depth, &ns, &mut m);
            (self.budget, self.max_depth) = (keep.0 - 8, keep.1);
            return m;
        }
        let n = if self.focus == Focus::Merge { r.range(1, 3) } else { r.heavy(1, 14) };
        let ns = names(r, n, self.focus);
        self.object_with(r, depth, &ns, &mut m);
        m
    }

    fn object_with(&mut self, r: &mut Rng, depth: usize, ns: &[String], m: &mut Map<String, Value>) {
        let mut p = Map::new();
        let mut req = Vec::new();
        for k in ns {
            p.insert(k.clone(), self.schema(r, depth + 1));
            if r.chance(2, 5) {
                req.push(k.clone());
            }
        }
        if r.chance(1, 6) {
            req.push(word(r));
        }
        m.insert("properties".into(), Value::Object(p));
        if !req.is_empty() && r.chance(5, 6) {
            r.shuffle(&mut req);
            req.dedup();
            m.insert("required".into(), json!(req));
        }
        if r.chance(1, 10) {
            m.insert("additionalProperties".into(), json!(r.coin()));
        }
    }

    fn array(&mut self, r: &mut Rng, depth: usize) -> Map<String, Value> {
        let mut m = Map::new();
        m.insert("type".into(), json!("array"));
        match r.below(10) {
            0 => {}
            1..=3 => {
                let n = r.range(1, 4);
                let items: Vec<Value> = (0..n).map(|_| self.schema(r, depth + 1)).collect();
                m.insert("items".into(), Value::Array(items));
                let good = r.chance(2, 3);
                if good || r.coin() {
                    let a = match r.below(4) {
                        0 => json!(false),
                        1 => json!(true),
                        _ => self.schema(r, depth + 1),
                    };
                    m.insert("additionalItems".into(), a);
                }
                if r.chance(2, 3) {
                    m.insert("minItems".into(), json!(r.range(0, n)));
                }
                if good || r.chance(1, 3) {
                    m.insert("maxItems".into(), json!(if good { n + r.below(3) } else { r.below(n + 2) }));
                }
            }
            4 => {
                let mut inner = self.array(r, depth + 1);
                self.texts(r, &mut inner);
                m.insert("items".into(), Value::Object(inner));
            }
            _ => drop(m.insert("items".into(), self.schema(r, depth + 1))),
        }
        m
    }

    /// Alternatives that overlap, so that merging them has something to decide.
    fn alternatives(&mut self, r: &mut Rng, depth: usize, n: usize) -> Vec<Value> {
        if r.chance(1, 10) {
            return self.wide_alternatives(r, n);
        }
        match r.below(8) {
            0 => (0..n).map(|_| self.schema(r, depth + 1)).collect(),
            1 => (0..n).map(|_| Value::Object(self.atom(r))).collect(),
            2 => (0..n)
                .map(|_| {
                    let mut m = Map::new();
                    m.insert("type".into(), json!("array"));
                    m.insert("items".into(), self.overlap_object(r, depth));
                    Value::Object(m)
                })
                .collect(),
            3 => (0..n)
                .map(|_| json!({"type": "object", "additionalProperties": self.overlap_object(r, depth)}))
                .collect(),
            _ => {
                let mut v: Vec<Value> = (0..n).map(|_| self.overlap_object(r, depth)).collect();
                if r.chance(1, 4) {
                    v.push(json!({"type": "null"}));
                }
                if r.chance(1, 8) {
                    let s = self.schema(r, depth + 1);
                    v.push(s);
                }
                r.shuffle(&mut v);
                v
            }
        }
    }

    /// Alternatives with many common names, few of them in disagreement.
    fn wide_alternatives(&mut self, r: &mut Rng, n: usize) -> Vec<Value> {
        let w = r.range(8, 40);
        let ns = names(r, w, Focus::General);
        let types: Vec<Value> = ns.iter().map(|_| Value::Object(self.atom(r))).collect();
        let odd = r.below(4);
        let share = r.range(2, 8) as u64;
        self.budget -= n as i32;
        (0..n.max(2))
            .map(|_| {
                let mut p = Map::new();
                let mut req = Vec::new();
                for (k, t) in ns.iter().zip(&types) {
                    if r.chance(1, 8) {
                        continue;
                    }
                    p.insert(k.clone(), t.clone());
                    if r.chance(share, 8) {
                        req.push(k.clone());
                    }
                }
                for _ in 0..odd {
                    if r.coin() {
                        let k = r.pick(&ns).clone();
                        p.insert(k, Value::Object(self.atom(r)));
                    }
                }
                json!({"type": "object", "properties": p, "required": req})
            })
            .collect()
    }

    fn overlap_object(&mut self, r: &mut Rng, depth: usize) -> Value {
        let pool = ["f", "g", "h", "a_b", "a-b", "aB", "F"];
        let n = r.range(1, 3);
        let mut ns: Vec<String> = (0..n).map(|_| r.pick(&pool).to_string()).collect();
        ns.sort();
        ns.dedup();
        let mut p = Map::new();
        let mut req = Vec::new();
        for k in &ns {
            let v = match r.below(10) {
                0..=2 => json!({"type": "integer"}),
                3 => json!({"type": "number"}),
                4 => json!({"type": ["integer", "null"]}),
                5 => json!({"type": "string"}),
                6 => json!({"type": ["null", "number"]}),
                7 => json!({"oneOf": [{"type": "integer"}, {"type": "null"}]}),
                8 if depth < self.max_depth => self.overlap_object(r, depth + 1),
                _ => Value::Object(self.atom(r)),
            };
            p.insert(k.clone(), v);
            if r.chance(3, 5) {
                req.push(k.clone());
            }
        }
        self.budget -= n as i32;
        let mut m = Map::new();
        m.insert("type".into(), if r.chance(1, 8) { json!(["object", "null"]) } else { json!("object") });
        m.insert("properties".into(), Value::Object(p));
        if !req.is_empty() || r.chance(1, 4) {
            m.insert("required".into(), json!(req));
        }
        Value::Object(m)
    }

    fn map(&mut self, r: &mut Rng, depth: usize) -> Map<String, Value> {
        let mut m = Map::new();
        if !r.chance(1, 12) {
            m.insert("type".into(), json!("object"));
        }
        let pats = self.focus == Focus::Merge || r.coin();
        if pats {
            let n = if r.chance(1, 20) { r.range(6, 14) } else { r.range(1, if self.focus == Focus::Merge { 5 } else { 3 }) };
            let alts = self.alternatives(r, depth, n);
            let mut p = Map::new();
            for (i, a) in alts.into_iter().enumerate() {
                let k = match r.below(4) {
                    0 => format!("^{}", letters(r, 1)),
                    1 => format!("{}_{}$", letters(r, 1), i),
                    2 => format!("^[a-{}]{}", letters(r, 1), ".".repeat(i)),
                    _ => letters(r, 2),
                };
                p.insert(k, a);
            }
            m.insert("patternProperties".into(), Value::Object(p));
        }
        if !pats || r.chance(1, 3) {
            let a = if r.chance(1, 10) { json!(r.coin()) } else if pats { self.overlap_object(r, depth) } else { self.schema(r, depth + 1) };
            m.insert("additionalProperties".into(), a);
        }
        m
    }

    fn bad_part(&mut self, r: &mut Rng) -> Value {
        match r.below(8) {
            0 => json!({"type": "strin"}),
            1 => json!({"type": []}),
            2 => json!({"oneOf": []}),
            3 => json!({"type": "object", "required": "x"}),
            4 => json!({"type": "object", "properties": {"": {"type": "string"}}}),
            5 => json!({"type": ["string", 7]}),
            6 => json!({"type": "array", "items": 5}),
            _ => json!({"type": "object", "patternProperties": {}}),
        }
    }

    pub fn schema(&mut self, r: &mut Rng, depth: usize) -> Value {
        self.budget -= 1;
        if self.bad > 0 && r.chance(1, self.bad) {
            return self.bad_part(r);
        }
        let leaf = depth >= self.max_depth || self.budget <= 0;
        let k = if leaf { r.below(40) } else { r.below(100) };
        let mut m = match k {
            0..=29 => self.atom(r),
            30..=34 => Map::new(),
            35..=36 => json!({"type": "object"}).as_object().unwrap().clone(),
            37..=39 => json!({"type": "object", "properties": {}}).as_object().unwrap().clone(),
            40..=61 => self.object(r, depth),
            62..=71 => self.map(r, depth),
            72..=81 => self.array(r, depth),
            82..=89 => self.type_list(r, depth),
            _ => {
                let n = if r.chance(1, 20) { r.range(5, 14) } else { r.range(1, 4) };
                let alts = self.alternatives(r, depth, n);
                let mut m = Map::new();
                if r.chance(1, 4) {
                    m.insert("type".into(), json!("object"));
                }
                m.insert("oneOf".into(), Value::Array(alts));
                m
            }
        };
        if self.focus == Focus::Merge && depth > 0 && depth < 3 && r.chance(1, 2) {
            m = self.map(r, depth);
        }
        self.texts(r, &mut m);
        Value::Object(m)
    }

    pub fn doc(&mut self, r: &mut Rng) -> Value {
        let mut m = if r.chance(11, 12) {
            let mut m = self.object(r, 0);
            if self.focus == Focus::Verdict && r.coin() {
                // several incompatible parts side by side
                if let Some(Value::Object(p)) = m.get_mut("properties") {
                    let n = r.range(1, 4);
                    for _ in 0..n {
                        let k = names(r, 1, Focus::General);
                        let v = match r.below(4) {
                            0 => json!({}),
                            1 => json!({"type": ["string", "integer"]}),
                            2 => json!({"type": "array"}),
                            _ => json!({"type": "object"}),
                        };
                        for k in k {
                            p.insert(k, v.clone());
                        }
                    }
                }
            }
            m
        } else {
            match self.schema(r, 0) {
                Value::Object(m) => m,
                _ => unreachable!(),
            }
        };
        if self.focus == Focus::Json {
            if let Some(Value::Object(p)) = m.get_mut("properties") {
                for _ in 0..r.range(1, 3) {
                    let k = word(r);
                    let v = match r.below(3) {
                        0 => json!({"type": "object"}),
                        1 => json!({}),
                        _ => json!({"type": "object", "properties": {"data": {"type": "object"}, "id": {"type": "string"}}}),
                    };
                    p.insert(k, v);
                }
            }
        }
        if r.chance(1, if self.focus == Focus::Json { 1 } else { 10 }) {
            set_regex(&mut m, &regex(r));
        }
        if r.chance(1, 6) {
            m.insert("$id".into(), json!(word(r)));
        }
        if r.chance(1, 10) {
            m.insert("$schema".into(), json!("http://json-schema.org/draft-04/schema#"));
        }
        Value::Object(m)
    }
}

pub fn set_regex(m: &mut Map<String, Value>, re: &str) {
    m.insert("mozPipelineMetadata".into(), json!({"json_object_path_regex": re, "bq_table": "t"}));
}

pub fn corpus() -> &'static [Value] {
    use std::sync::OnceLock;
    static C: OnceLock<Vec<Value>> = OnceLock::new();
    C.get_or_init(|| serde_json::from_str(include_str!("../corpus.json")).unwrap())
}

pub fn doc(r: &mut Rng, focus: Focus) -> Value {
    if focus == Focus::General && r.chance(1, 20) {
        return r.pick(corpus()).clone();
    }
    let mut g = Gen::new(r, focus);
    g.doc(r)
}

/// A document much like another one.
pub fn mutate(r: &mut Rng, d: &Value) -> Value {
    let mut d = d.clone();
    let n = r.range(1, 3);
    for _ in 0..n {
        mutate1(r, &mut d);
    }
    d
}

fn count_objects(v: &Value) -> usize {
    match v {
        Value::Object(m) => 1 + m.values().map(count_objects).sum::<usize>(),
        Value::Array(a) => a.iter().map(count_objects).sum(),
        _ => 0,
    }
}
fn nth_object<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Map<String, Value>> {
    match v {
        Value::Object(m) => {
            if *n == 0 {
                return Some(m);
            }
            *n -= 1;
            for x in m.values_mut() {
                if let Some(r) = nth_object(x, n) {
                    return Some(r);
                }
            }
            None
        }
        Value::Array(a) => {
            for x in a.iter_mut() {
                if let Some(r) = nth_object(x, n) {
                    return Some(r);
                }
            }
            None
        }
        _ => None,
    }
}

/// The same document but for one small edit that keeps as much as possible.
pub fn twin(r: &mut Rng, d: &Value) -> Value {
    let mut q = d.clone();
    for _ in 0..6 {
        edit(r, &mut q);
        if q != *d && !r.chance(1, 4) {
            break;
        }
    }
    q
}

fn edit(r: &mut Rng, d: &mut Value) {
    let c = count_objects(d);
    if c == 0 {
        return;
    }
    let mut k = r.below(c);
    let Some(m) = nth_object(d, &mut k) else { return };
    if let Some(Value::Object(p)) = m.get_mut("properties") {
        let keys: Vec<String> = p.keys().cloned().collect();
        if keys.is_empty() {
            return;
        }
        let a = r.pick(&keys).clone();
        let b = r.pick(&keys).clone();
        if a.is_empty() {
            return;
        }
        match r.below(9) {
            0 | 1 if a != b => {
                // two properties trade places
                let (x, y) = (p[&a].clone(), p[&b].clone());
                p.insert(a, y);
                p.insert(b, x);
            }
            2 | 3 => {
                let x = p.remove(&a).unwrap();
                let n = permuted(r, &a);
                p.insert(n, x);
            }
            4 => {
                let x = p.remove(&a).unwrap();
                let mut s: Vec<char> = a.chars().collect();
                let at = r.below(s.len());
                s[at] = *r.pick(&['a', 'Z', '_', '-', '1', 'é', ' ']);
                p.insert(s.into_iter().collect(), x);
            }
            5 => {
                let x = p.remove(&a).unwrap();
                p.insert(flip_case(r, &a), x);
            }
            6 => {
                if let Some(Value::Array(q)) = m.get_mut("required") {
                    if q.contains(&json!(a)) {
                        q.retain(|x| *x != json!(a));
                    } else {
                        q.push(json!(a));
                    }
                } else {
                    m.insert("required".into(), json!([a]));
                }
            }
            7 => {
                // one more level
                let x = p[&a].clone();
                p.insert(a, json!({"type": "object", "properties": {b: x}}));
            }
            _ => drop(p.remove(&a)),
        }
        return;
    }
    match r.below(7) {
        0 => drop(m.insert("title".into(), json!(word(r)))),
        1 => drop(m.insert("description".into(), json!(word(r)))),
        2 => {
            for k in ["minItems", "maxItems"] {
                if let Some(x) = m.get(k).and_then(Value::as_u64) {
                    m.insert(k.into(), json!(x + 1));
                }
            }
        }
        3 => match m.get("format") {
            Some(_) => drop(m.remove("format")),
            None if m.get("type") == Some(&json!("string")) => drop(m.insert("format".into(), json!("date-time"))),
            None => {}
        },
        4 => {
            if let Some(Value::String(t)) = m.get("type") {
                let t = t.clone();
                m.insert("type".into(), json!([t, "null"]));
            }
        }
        5 => {
            if let Some(Value::Array(a)) = m.get_mut("items").or(None) {
                a.reverse();
            } else if let Some(Value::Array(a)) = m.get_mut("oneOf") {
                a.reverse();
            }
        }
        _ => {
            if matches!(m.get("type").and_then(Value::as_str), Some("string" | "integer" | "number" | "boolean")) {
                m.insert("type".into(), json!(r.pick(&["integer", "string", "boolean", "number"])));
            }
        }
    }
}

fn mutate1(r: &mut Rng, d: &mut Value) {
    let c = count_objects(d);
    if c == 0 {
        return;
    }
    for _ in 0..8 {
        let mut k = r.below(c);
        let Some(m) = nth_object(d, &mut k) else { return };
        if let Some(Value::Object(p)) = m.get_mut("properties") {
            let keys: Vec<String> = p.keys().cloned().collect();
            match r.below(5) {
                0 if keys.len() > 1 => drop(p.remove(r.pick(&keys))),
                1 => {
                    let k = word(r);
                    p.insert(k, json!({"type": r.pick(&["integer", "string", "boolean"])}));
                }
                2 if !keys.is_empty() => {
                    let k = r.pick(&keys).clone();
                    p.insert(k, json!({"type": r.pick(&["integer", "string", "boolean", "object"])}));
                }
                3 if !keys.is_empty() => {
                    let k = r.pick(&keys).clone();
                    let v = p.remove(&k).unwrap();
                    let f = flip_case(r, &k);
                    p.insert(f, v);
                }
                _ => {
                    let mut q: Vec<String> = keys.into_iter().filter(|_| r.coin()).collect();
                    q.sort();
                    m.insert("required".into(), json!(q));
                }
            }
            return;
        }
        if m.contains_key("type") && r.coin() {
            let t = r.pick(&["integer", "string", "boolean", "number"]);
            m.insert("type".into(), json!(t));
            return;
        }
    }
}

/// Adds keys that are nearly, but not, the ones that carry meaning.
pub fn decoys(r: &mut Rng, d: &mut Value) {
    for _ in 0..r.range(1, 3) {
        let c = count_objects(d);
        let mut k = if r.coin() { 0 } else { r.below(c.max(1)) };
        let Some(m) = nth_object(d, &mut k) else { return };
        let keys: Vec<String> = m.keys().filter(|k| SCHEMA_KEYS.contains(&k.as_str())).cloned().collect();
        if keys.is_empty() {
            continue;
        }
        let key = r.pick(&keys).clone();
        let value = m[&key].clone();
        for _ in 0..r.range(1, 3) {
            let near = match r.below(8) {
                0 => key.to_uppercase(),
                1 => key.to_lowercase(),
                2 => cap(&key),
                3 => key.replace(|c: char| c.is_uppercase(), "_"),
                4 => format!("{key}{}", r.pick(&["s", "_", "2", ".v2", " "])),
                5 => format!("{}{key}", r.pick(&["$", "_", "x-", " "])),
                6 => {
                    let n = r.range(1, key.len());
                    format!("{}{}", &key[..n], word(r))
                }
                _ => flip_case(r, &key),
            };
            if SCHEMA_KEYS.contains(&near.as_str()) || m.contains_key(&near) {
                continue;
            }
            let v = match r.below(3) {
                0 => value.clone(),
                1 => json!(word(r)),
                _ => match &value {
                    Value::Object(o) if o.contains_key("json_object_path_regex") => json!({"json_object_path_regex": regex(r)}),
                    _ => json!({"type": r.pick(&["string", "integer", "object"])}),
                },
            };
            m.insert(near, v);
        }
    }
}
const SCHEMA_KEYS: &[&str] = &[
    "type", "properties", "required", "items", "additionalItems", "minItems", "maxItems", "additionalProperties", "patternProperties", "oneOf", "allOf", "anyOf", "format", "description",
    "title", "mozPipelineMetadata", "json_object_path_regex", "$id", "id", "$schema", "enum",
];

/// A document large enough to need several buffers.
pub fn big_doc(r: &mut Rng, props: usize) -> Value {
    let mut g = Gen { focus: Focus::General, budget: props as i32 * 2, max_depth: 4, bad: 0 };
    let mut p = Map::new();
    for i in 0..props {
        let k = format!("{}{}", word(r), i);
        p.insert(k, g.schema(r, 2));
    }
    json!({"type": "object", "properties": p})
}

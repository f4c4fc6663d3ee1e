//! C19: the real data script and its Python helper over a scratch tree; the third-party Python
//! modules are stand-ins (sim/pystubs), the command's Avro schemas are real.

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

use crate::batch::{self, mkdirs, run_script, Run};
use crate::campaign::{fnv, simpler_json, Env, Verdict};
use crate::cli_checks;
use crate::gen::{self, Ctx};
use crate::rng::Rng;
use crate::shim::{self, Plan, ALWAYS};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DocSet {
    /// namespace.doctype.version
    pub name: String,
    /// The JSON Schema; None: there is no Avro schema for this set.
    pub schema: Option<Value>,
    /// The data file, one document per line.
    pub text: String,
    #[serde(default)]
    pub plan: Plan,
    /// Where the helper dies (I/O event) when the script is killed in the middle of it.
    pub mid: u32,
    #[serde(default)]
    pub stale: bool,
    /// A byte that is not UTF-8, and where it is put in.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub rot: Option<(usize, u8)>,
}
impl DocSet {
    fn data(&self) -> Vec<u8> {
        let mut b = self.text.clone().into_bytes();
        if let Some((at, x)) = self.rot {
            b.insert(at.min(b.len()), x);
        }
        b
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DataCase {
    pub sets: Vec<DocSet>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kill: Option<u32>,
    pub from_elsewhere: bool,
}

// ---- the reference model of the helper: which documents encode, and as what ----

#[derive(Clone, Copy, Debug, PartialEq)]
enum No {
    /// Does not convert or fit.
    Bad,
    /// The model does not say.
    Unsure,
}

fn kind(s: &Value) -> (&str, &Value) {
    match s {
        Value::String(t) => (t, s),
        Value::Array(_) => ("union", s),
        Value::Object(m) => match &m["type"] {
            Value::String(t) => (t, s),
            inner => kind(inner),
        },
        _ => ("?", s),
    }
}

/// As Python's json.dumps.
fn dumps(v: &Value) -> String {
    fn quoted(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                ' '..='~' => o.push(c),
                c => {
                    let mut b = [0u16; 2];
                    for u in c.encode_utf16(&mut b) {
                        o.push_str(&format!("\\u{u:04x}"));
                    }
                }
            }
        }
        o + "\""
    }
    match v {
        Value::String(s) => quoted(s),
        Value::Array(a) => format!("[{}]", a.iter().map(dumps).collect::<Vec<_>>().join(", ")),
        Value::Object(m) => format!("{{{}}}", m.iter().map(|(k, x)| format!("{}: {}", quoted(k), dumps(x))).collect::<Vec<_>>().join(", ")),
        v => v.to_string(),
    }
}

fn empty(d: &Value) -> bool {
    match d {
        Value::Null | Value::Bool(false) => true,
        Value::Number(n) => n.as_f64() == Some(0.0),
        Value::String(s) => s.is_empty(),
        Value::Array(a) => a.is_empty(),
        Value::Object(m) => m.is_empty(),
        _ => false,
    }
}

fn format_key(k: &str) -> Result<String, No> {
    let k = k.replace(['-', '.'], "_");
    match k.chars().next() {
        None => Err(No::Bad),
        Some(c) if c.is_ascii_digit() => Ok(format!("_{k}")),
        Some(c) if c.is_numeric() => Err(No::Unsure),
        _ => Ok(k),
    }
}

fn convert(d: &Value, s: &Value) -> Result<Value, No> {
    let (k, s) = kind(s);
    Ok(match k {
        "string" => match d {
            Value::String(_) => d.clone(),
            _ => json!(dumps(d)),
        },
        "record" => {
            if empty(d) {
                return Ok(json!({}));
            }
            let fields: BTreeMap<&str, &Value> = s["fields"].as_array().unwrap().iter().map(|f| (f["name"].as_str().unwrap(), &f["type"])).collect();
            let m: Map<String, Value> = match d {
                Value::Array(_) if fields.len() == 1 && fields.contains_key("list") => [("list".to_string(), d.clone())].into_iter().collect(),
                Value::Array(a) => a.iter().enumerate().map(|(i, x)| (format!("f{i}_"), x.clone())).collect(),
                Value::Object(m) => m.clone(),
                _ => return Err(No::Bad),
            };
            let mut out = Map::new();
            for (k, x) in m {
                let k = format_key(&k)?;
                if let Some(t) = fields.get(k.as_str()) {
                    if out.insert(k, convert(&x, t)?).is_some() {
                        return Err(No::Unsure);
                    }
                }
            }
            Value::Object(out)
        }
        "union" => match s.as_array().unwrap().iter().find(|x| kind(x).0 != "null") {
            Some(x) => {
                if d.is_null() && matches!(kind(x).0, "string") {
                    return Err(No::Unsure); // becomes the text "null"
                }
                convert(d, x)?
            }
            None => return Err(No::Unsure),
        },
        "array" => {
            if empty(d) {
                return Ok(json!([]));
            }
            match d {
                Value::Array(a) => Value::Array(a.iter().map(|x| convert(x, &s["items"])).collect::<Result<_, _>>()?),
                Value::Object(_) | Value::String(_) => return Err(No::Unsure),
                _ => return Err(No::Bad),
            }
        }
        "map" => match d {
            Value::Object(m) => Value::Object(m.iter().map(|(k, x)| Ok((k.clone(), convert(x, &s["values"])?))).collect::<Result<_, No>>()?),
            _ => return Err(No::Bad),
        },
        _ => d.clone(),
    })
}

/// The datum as it is read back from the file.
fn settle(d: &Value, s: &Value) -> Result<Value, No> {
    let (k, s) = kind(s);
    Ok(match k {
        "null" if d.is_null() => Value::Null,
        "boolean" if d.is_boolean() => d.clone(),
        "string" if d.is_string() => d.clone(),
        "int" | "long" => match d {
            Value::Number(n) if n.is_i64() => d.clone(),
            Value::Bool(_) => return Err(No::Unsure),
            _ => return Err(No::Bad),
        },
        "float" | "double" => match d {
            Value::Number(n) => json!(n.as_f64().ok_or(No::Unsure)?),
            Value::Bool(_) => return Err(No::Unsure),
            _ => return Err(No::Bad),
        },
        "array" => Value::Array(d.as_array().ok_or(No::Bad)?.iter().map(|x| settle(x, &s["items"])).collect::<Result<_, _>>()?),
        "map" => Value::Object(d.as_object().ok_or(No::Bad)?.iter().map(|(k, x)| Ok((k.clone(), settle(x, &s["values"])?))).collect::<Result<_, No>>()?),
        "record" => {
            let m = d.as_object().ok_or(No::Bad)?;
            let mut out = Map::new();
            for f in s["fields"].as_array().unwrap() {
                let n = f["name"].as_str().unwrap();
                out.insert(n.to_string(), settle(m.get(n).unwrap_or(&Value::Null), &f["type"])?);
            }
            Value::Object(out)
        }
        "union" => {
            let mut why = No::Bad;
            for x in s.as_array().unwrap() {
                match settle(d, x) {
                    Ok(v) => return Ok(v),
                    Err(No::Unsure) => why = No::Unsure,
                    Err(No::Bad) => {}
                }
            }
            return Err(why);
        }
        "bytes" => return Err(No::Bad),
        _ => return Err(No::Bad),
    })
}

/// What the file for this set must hold.
fn model(text: &str, schema: Option<&Value>) -> Result<Vec<Value>, No> {
    let s = schema.ok_or(No::Bad)?;
    let mut v = Vec::new();
    let mut unsure = false;
    for line in text.split_inclusive('\n') {
        let one = serde_json::from_str::<Value>(line).map_err(|_| No::Bad).and_then(|d| settle(&convert(&d, s)?, s));
        match one {
            Ok(x) => v.push(x),
            Err(No::Bad) => return Err(if unsure { No::Unsure } else { No::Bad }),
            Err(No::Unsure) => unsure = true,
        }
    }
    if unsure {
        Err(No::Unsure)
    } else {
        Ok(v)
    }
}

// ---- reading Avro files ----

struct Bytes<'a>(&'a [u8]);
impl<'a> Bytes<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let (a, b) = (self.0.get(..n)?, self.0.get(n..)?);
        self.0 = b;
        Some(a)
    }
    fn long(&mut self) -> Option<i64> {
        let (mut n, mut sh) = (0u64, 0);
        loop {
            let b = self.take(1)?[0];
            n |= ((b & 0x7f) as u64) << sh;
            if b < 0x80 {
                return Some((n >> 1) as i64 ^ -((n & 1) as i64));
            }
            sh += 7;
            if sh > 63 {
                return None;
            }
        }
    }
    fn text(&mut self) -> Option<String> {
        let n = usize::try_from(self.long()?).ok()?;
        String::from_utf8(self.take(n)?.to_vec()).ok()
    }
    fn datum(&mut self, s: &Value) -> Option<Value> {
        let (k, s) = kind(s);
        Some(match k {
            "null" => Value::Null,
            "boolean" => json!(self.take(1)?[0] != 0),
            "int" | "long" => json!(self.long()?),
            "float" => json!(f32::from_le_bytes(self.take(4)?.try_into().unwrap()) as f64),
            "double" => json!(f64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            "string" => json!(self.text()?),
            "bytes" => {
                let n = usize::try_from(self.long()?).ok()?;
                json!(self.take(n)?)
            }
            "union" => {
                let i = usize::try_from(self.long()?).ok()?;
                self.datum(s.as_array()?.get(i)?)?
            }
            "record" => {
                let mut m = Map::new();
                for f in s["fields"].as_array()? {
                    m.insert(f["name"].as_str()?.to_string(), self.datum(&f["type"])?);
                }
                Value::Object(m)
            }
            "array" | "map" => {
                let (mut a, mut m) = (Vec::new(), Map::new());
                loop {
                    let n = self.long()?;
                    if n == 0 {
                        break;
                    }
                    for _ in 0..n {
                        if k == "array" {
                            a.push(self.datum(&s["items"])?);
                        } else {
                            let key = self.text()?;
                            m.insert(key, self.datum(&s["values"])?);
                        }
                    }
                }
                if k == "array" {
                    Value::Array(a)
                } else {
                    Value::Object(m)
                }
            }
            _ => return None,
        })
    }
}

/// All documents of a complete Avro file.
fn read_avro(b: &[u8]) -> Option<Vec<Value>> {
    let mut r = Bytes(b);
    if r.take(4)? != b"Obj\x01" {
        return None;
    }
    let mut schema = None;
    loop {
        let n = r.long()?;
        if n == 0 {
            break;
        }
        for _ in 0..n {
            let (k, v) = (r.text()?, r.text()?);
            if k == "avro.schema" {
                schema = serde_json::from_str::<Value>(&v).ok();
            }
        }
    }
    let schema = schema?;
    let sync = r.take(16)?;
    let mut v = Vec::new();
    while !r.0.is_empty() {
        let (n, len) = (r.long()?, usize::try_from(r.long()?).ok()?);
        let mut block = Bytes(r.take(len)?);
        for _ in 0..n {
            v.push(block.datum(&schema)?);
        }
        if !block.0.is_empty() || r.take(16)? != sync {
            return None;
        }
    }
    Some(v)
}

// ---- generation ----

fn json_schema(r: &mut Rng, depth: usize) -> Value {
    let atom = |r: &mut Rng| json!({"type": r.pick(&["integer", "integer", "number", "boolean", "string"])});
    if depth == 0 {
        return atom(r);
    }
    match r.below(9) {
        0 | 1 | 2 => atom(r),
        3 => json!({"type": ["null", r.pick(&["integer", "string", "number"])]}),
        4 => json!({"type": "array", "items": json_schema(r, depth - 1)}),
        5 => json!({"type": "object", "additionalProperties": json_schema(r, depth - 1)}),
        6 => json!({}),
        _ => object(r, depth),
    }
}

fn object(r: &mut Rng, depth: usize) -> Value {
    let mut p = Map::new();
    let mut req = Vec::new();
    for n in ["id", "a-b", "c.d", "64bit", "name", "payload", "x", "list", "tags"] {
        if r.chance(2, 5) {
            p.insert(n.into(), json_schema(r, depth - 1));
            if r.coin() {
                req.push(n);
            }
        }
    }
    if p.is_empty() {
        p.insert("id".into(), json!({"type": "integer"}));
    }
    json!({"type": "object", "properties": p, "required": req})
}

fn word(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "é☃𝄞 \"q\"\n".into(),
        2 => "x".repeat(r.range(10, 400)),
        _ => gen::word(r).to_string(),
    }
}

fn anything(r: &mut Rng) -> Value {
    match r.below(5) {
        0 => json!(r.below(1000)),
        1 => json!({"k": [1, {"z": null}], "n": word(r)}),
        2 => json!([true, "s", 0.5]),
        3 => json!(true),
        _ => json!(word(r)),
    }
}

/// A document that encodes under this Avro schema.
fn document(r: &mut Rng, s: &Value) -> Value {
    let (k, s) = kind(s);
    match k {
        "boolean" => json!(r.coin()),
        "int" => json!(r.below(1000)),
        "long" => json!(*r.pick(&[0i64, 1, -1, 63, 64, -65, 8192, 1 << 40, i64::MIN, i64::MAX])),
        "float" | "double" => json!(*r.pick(&[0.5, -2.25, 1000.0, 0.0])),
        "string" => {
            if r.chance(1, 4) {
                anything(r)
            } else {
                json!(word(r))
            }
        }
        "array" => Value::Array((0..r.below(4)).map(|_| document(r, &s["items"])).collect()),
        "map" => Value::Object((0..r.below(4)).map(|i| (format!("k-{i}"), document(r, &s["values"]))).collect()),
        "union" => {
            let x = s.as_array().unwrap().iter().find(|x| kind(x).0 != "null");
            match x {
                Some(x) if matches!(kind(x).0, "long" | "double" | "boolean") && r.chance(1, 3) => Value::Null,
                Some(x) => document(r, x),
                None => Value::Null,
            }
        }
        "record" => {
            let f = s["fields"].as_array().unwrap();
            if f.len() == 1 && f[0]["name"] == "list" && kind(&f[0]["type"]).0 == "array" && r.coin() {
                return document(r, &f[0]["type"]);
            }
            let mut m = Map::new();
            for x in f {
                if x.get("default").is_some() && r.chance(1, 3) {
                    continue;
                }
                let n = x["name"].as_str().unwrap();
                let mut key = match r.below(3) {
                    0 => n.replacen('_', "-", 1),
                    1 if !n.starts_with('_') => n.replace('_', "."),
                    _ => n.to_string(),
                };
                if n.starts_with('_') && n[1..].starts_with(|c: char| c.is_ascii_digit()) && r.coin() {
                    key = n[1..].to_string();
                }
                m.insert(key, document(r, &x["type"]));
            }
            if r.chance(1, 4) {
                m.insert("unknown-extra".into(), anything(r));
            }
            Value::Object(m)
        }
        _ => Value::Null,
    }
}

fn spoil(r: &mut Rng, d: &mut Value) {
    if let Value::Object(m) = d {
        let keys: Vec<String> = m.keys().cloned().collect();
        if !keys.is_empty() {
            let k = r.pick(&keys);
            match r.below(4) {
                0 => {
                    m.remove(k);
                }
                1 if m[k].is_object() => return spoil(r, m.get_mut(k).unwrap()),
                _ => {
                    m[k] = json!(*r.pick(&["oops", "1"]));
                }
            }
            return;
        }
    }
    *d = json!("oops");
}

pub fn gen(r: &mut Rng, env: &mut Env) -> DataCase {
    let n = match r.below(6) {
        0 => r.below(2),
        _ => r.range(1, 5),
    };
    let mut seen = BTreeSet::new();
    let mut sets: Vec<DocSet> = Vec::new();
    for _ in 0..n {
        let name = format!("{}.{}.{}", r.pick(&["telemetry", "a", "org-x", "eng_workflow"]), r.pick(&["main", "event", "a", "x-y", "ndjson", "x-avro"]), r.pick(&[1, 2, 10]));
        if !seen.insert(name.clone()) {
            continue;
        }
        let schema = match r.below(16) {
            0 => None,
            1 | 2 => Some(cli_checks::doc(r)).filter(|d| d.to_string().len() < 6000),
            _ => Some(object(r, 3)),
        };
        let avro = schema.as_ref().and_then(|s| avro_schema(env, &name, s));
        let mut text = String::new();
        let m = match r.below(8) {
            0 => 0,
            1 => r.range(20, 60),
            _ => r.range(1, 8),
        };
        let bad = if r.chance(1, 4) && m > 0 { Some(r.below(m)) } else { None };
        for i in 0..m {
            let mut d = match &avro {
                Some(a) => document(r, a),
                None => anything(r),
            };
            if bad == Some(i) {
                match r.below(4) {
                    0 => {
                        text.push_str(*r.pick(&["\n", "{\"a\":\n", "{'a': 1}\n", "{} {}\n", "\u{0}\n"]));
                        continue;
                    }
                    _ => spoil(r, &mut d),
                }
            }
            text.push_str(&d.to_string());
            text.push('\n');
        }
        if r.chance(1, 8) {
            text.pop();
        }
        if r.chance(1, 8) {
            // torn: the download was cut short
            let k = r.below(text.len() + 1);
            let k = (0..=k).rev().find(|k| text.is_char_boundary(*k)).unwrap();
            text.truncate(k);
        }
        let mut p = Plan { mode: 2, hash_seed: r.u64() >> 12, ..Plan::default() };
        let size = text.len() + avro.as_ref().map_or(0, |a| a.to_string().len()) + 1;
        match r.below(10) {
            0 => {
                p.input.err_at = r.below(size) as i64;
                p.input.err_no = *r.pick(&[libc::EIO, libc::ESTALE]);
                p.input.err_count = if r.coin() { ALWAYS } else { 1 };
            }
            1 | 2 => {
                p.output.err_at = r.below(size) as i64;
                p.output.err_no = *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG]);
                p.output.err_count = *r.pick(&[ALWAYS, ALWAYS, 1, 2]);
                if r.coin() {
                    p.output.chunks = vec![r.range(1, 900) as u32];
                }
            }
            3 | 4 => {
                p.kill_at = r.below(24) as i64;
                p.kill_sig = *r.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGSEGV, libc::SIGABRT]);
                p.kill_when = r.below(3) as u32;
            }
            5 => p.open_errno = *r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO]),
            6 | 7 => {
                p.input.chunks = vec![r.range(1, 300) as u32];
                p.output.chunks = vec![r.range(1, 300) as u32];
                p.input.eintr = (0..r.below(5)).map(|_| r.below(12) as u32).collect();
                p.output.eintr = (0..r.below(5)).map(|_| r.below(12) as u32).collect();
            }
            _ => {}
        }
        let rot = if r.chance(1, 12) { Some((r.below(text.len() + 1), *r.pick(&[0xff, 0xfe, 0x80, 0xc0, 0xf8]))) } else { None };
        sets.push(DocSet { rot, name, schema, text, plan: p, mid: r.below(16) as u32, stale: r.chance(1, 4) });
    }
    DataCase { sets, kill: if r.chance(1, 3) { Some((r.u64() >> 40) as u32) } else { None }, from_elsewhere: r.chance(1, 4) }
}

/// The Avro schema that the real command makes of a JSON Schema.
fn avro_schema(env: &mut Env, name: &str, doc: &Value) -> Option<Value> {
    let s = batch::Schema { path: name.replace('.', "/"), doc: doc.clone(), cut: None, plan: Plan::default() };
    let r = batch::baseline(env, &Ctx::default(), true, &s);
    if r.ok() {
        serde_json::from_slice(&r.stdout).ok()
    } else {
        None
    }
}

// ---- running ----

struct Tree {
    root: PathBuf,
    tree: PathBuf,
    uid: u32,
}
impl Tree {
    fn new(env: &mut Env, c: &DataCase, avro: &[Option<Value>]) -> Tree {
        let w = env.world();
        let root = w.dir.join("batch");
        let _ = std::fs::remove_dir_all(&root);
        let t = Tree { tree: root.join("tree"), root, uid: w.uid };
        mkdirs(&t.root, &t.root, t.uid);
        for d in ["stubs", "plans", "tree/scripts", "tree/data", "tree/avro", "elsewhere"] {
            mkdirs(&t.root.join(d), &t.root, t.uid);
        }
        std::fs::copy(shim::verif().join("build/stub"), t.root.join("stubs/stub")).expect("stub");
        for s in ["python3", "python", "find", "rm", "mkdir", "mv", "cp"] {
            std::os::unix::fs::symlink("stub", t.root.join("stubs").join(s)).unwrap();
        }
        copy_all(&shim::verif().join("sim/pystubs"), &t.root.join("site"));
        for s in ["mps-generate-avro-data.sh", "mps-generate-avro-data-helper.py"] {
            std::fs::copy(Path::new("/repo/scripts").join(s), t.tree.join("scripts").join(s)).expect("script");
        }
        for (s, a) in c.sets.iter().zip(avro) {
            std::fs::write(t.tree.join("data").join(format!("{}.ndjson", s.name)), s.data()).expect("data");
            if let Some(a) = a {
                std::fs::write(t.tree.join("avro").join(format!("{}.schema.json", s.name)), serde_json::to_string_pretty(a).unwrap()).expect("schema");
            }
        }
        t.stale(c);
        t
    }
    fn stale(&self, c: &DataCase) {
        let d = self.tree.join("avro-data");
        let _ = std::fs::remove_dir_all(&d);
        for s in c.sets.iter().filter(|s| s.stale) {
            mkdirs(&d, &self.root, self.uid);
            let f = d.join(format!("{}.avro", s.name));
            std::fs::write(&f, b"Obj\x01 an earlier run").expect("stale");
            shim::chown(&f, self.uid);
        }
    }
    fn plan_path(&self, s: &DocSet) -> PathBuf {
        self.root.join("plans").join(&s.name)
    }
    fn run(&self, env: &mut Env, c: &DataCase, faults: bool, kill_at: i64) -> Run {
        for s in &c.sets {
            let p = if faults { s.plan.clone() } else { Plan { mode: 2, hash_seed: s.plan.hash_seed ^ 1, ..Plan::default() } };
            shim::plan_file(&self.plan_path(s), &p, Some(&self.tree.join("data").join(format!("{}.ndjson", s.name))), s.mid);
            shim::chown(&self.plan_path(s), self.uid);
        }
        let name = "scripts/mps-generate-avro-data.sh";
        let argv = vec!["/bin/bash".to_string(), if c.from_elsewhere { format!("../tree/{name}") } else { name.into() }];
        let cwd = if c.from_elsewhere { self.root.join("elsewhere") } else { self.tree.clone() };
        let plans: Vec<PathBuf> = c.sets.iter().map(|s| self.plan_path(s)).collect();
        run_script(env, &self.root, self.uid, &argv, &cwd, 1, kill_at, &plans)
    }
    fn wrong(&self, c: &DataCase, r: &Run, want: &[Result<Vec<Value>, No>]) -> Option<String> {
        if r.st != 0 && libc::WIFSIGNALED(r.st) {
            return Some(format!("the script ended with signal {}", libc::WTERMSIG(r.st)));
        }
        let mut files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
        for e in std::fs::read_dir(self.tree.join("avro-data")).into_iter().flatten().flatten() {
            files.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default());
        }
        let mut failed = BTreeSet::new();
        for (s, want) in c.sets.iter().zip(want) {
            let Some(code) = r.status.get(&s.name) else { return Some(format!("{} was not attempted", s.name)) };
            let f = files.remove(&format!("{}.avro", s.name));
            if *code != 0 {
                failed.insert(s.name.clone());
                if let Some(f) = f {
                    return Some(format!("encoding {} failed ({code}), but its file is there ({} bytes)", s.name, f.len()));
                }
                let res = shim::plan_results(&self.plan_path(s));
                let hard = res.as_ref().map_or(0, |x| x.err.iter().sum::<u64>() + x.open_err + x.killed);
                if hard == 0 && want.is_ok() {
                    return Some(format!("encoding {} failed ({code}) although every document fits and nothing went wrong", s.name));
                }
                continue;
            }
            let Some(f) = f else { return Some(format!("encoding {} succeeded, but there is no file", s.name)) };
            let Some(got) = read_avro(&f) else { return Some(format!("encoding {} succeeded, but its file is not complete ({} bytes)", s.name, f.len())) };
            match want {
                Err(No::Unsure) => {}
                Err(No::Bad) => return Some(format!("encoding {} succeeded with {} documents, but its data or schema cannot be encoded in full", s.name, got.len())),
                Ok(w) if *w != got => {
                    let at = w.iter().zip(&got).position(|(a, b)| a != b).unwrap_or(w.len().min(got.len()));
                    return Some(format!("the file of {} holds {} documents instead of {}, different from number {at}", s.name, got.len(), w.len()));
                }
                Ok(_) => {}
            }
        }
        if let Some(f) = files.keys().next() {
            return Some(format!("avro-data also holds {f}"));
        }
        let names: BTreeSet<String> = c.sets.iter().map(|s| s.name.clone()).collect();
        let named: BTreeSet<String> = r.text.lines().filter(|l| l.contains("ailed")).flat_map(|l| l.split_whitespace()).filter(|x| names.contains(*x)).map(String::from).collect();
        if named != failed {
            return Some(format!("the script names {named:?} as failed, failed were {failed:?}"));
        }
        let count = format!("{}/{}", c.sets.len() - failed.len(), c.sets.len());
        let last = r.text.lines().last().unwrap_or("");
        if !last.split_whitespace().any(|w| w == count) {
            return Some(format!("the final count is {last:?}, right is {count}"));
        }
        None
    }
}
impl Drop for Tree {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

pub fn copy_all(a: &Path, b: &Path) {
    std::fs::create_dir_all(b).expect("mkdir");
    for e in std::fs::read_dir(a).expect("list").flatten() {
        let q = b.join(e.file_name());
        if e.file_type().unwrap().is_dir() {
            copy_all(&e.path(), &q);
        } else {
            std::fs::copy(e.path(), q).expect("copy");
        }
    }
}

pub fn judge(c: &DataCase, env: &mut Env) -> Verdict {
    let avro: Vec<Option<Value>> = c.sets.iter().map(|s| s.schema.as_ref().and_then(|d| avro_schema(env, &s.name, d))).collect();
    let want: Vec<Result<Vec<Value>, No>> = c.sets.iter().zip(&avro).map(|(s, a)| if s.rot.is_some() { Err(No::Bad) } else { model(&s.text, a.as_ref()) }).collect();
    for w in &want {
        env.count(
            match w {
                Ok(_) => "document sets that fit",
                Err(No::Bad) => "document sets that do not fit",
                Err(No::Unsure) => "document sets outside the model",
            },
            1,
        );
    }
    let t = Tree::new(env, c, &avro);
    let r = t.run(env, c, true, -1);
    if t.root.join("stub-lacks").exists() {
        return Verdict::Skipped("the helper uses a part of avro or fastavro that the stand-in lacks");
    }
    if let Some(w) = t.wrong(c, &r, &want) {
        return Verdict::Violated(w);
    }
    let mut fired = r.status.values().filter(|s| **s != 0).count();
    if let Some(k) = c.kill {
        t.stale(c);
        let at = k as u64 % r.events.max(1);
        let x = t.run(env, c, true, at as i64);
        if !x.killed {
            return Verdict::Skipped("the script ended before the event at which it was to be killed");
        }
        fired += 1;
        let r = t.run(env, c, false, -1);
        if t.root.join("stub-lacks").exists() {
            return Verdict::Skipped("the helper uses a part of avro or fastavro that the stand-in lacks");
        }
        if let Some(w) = t.wrong(c, &r, &want) {
            return Verdict::Violated(format!("killed at event {at} and run again: {w}"));
        }
    }
    Verdict::Held { nontrivial: fired > 0, key: fnv(&format!("{c:?}")) }
}

pub fn simpler(c: &DataCase) -> Vec<DataCase> {
    let mut v = Vec::new();
    for k in 0..c.sets.len() {
        let mut q = c.clone();
        q.sets.remove(k);
        v.push(q);
    }
    if c.kill.is_some() {
        v.push(DataCase { kill: None, ..c.clone() });
        for k in 0..20 {
            if c.kill > Some(k) {
                v.push(DataCase { kill: Some(k), ..c.clone() });
            }
        }
    }
    if c.from_elsewhere {
        v.push(DataCase { from_elsewhere: false, ..c.clone() });
    }
    for k in 0..c.sets.len() {
        let s = &c.sets[k];
        let mut with = |s: DocSet| {
            let mut q = c.clone();
            q.sets[k] = s;
            v.push(q);
        };
        for p in cli_checks::simpler_plan(&s.plan) {
            with(DocSet { plan: p, ..s.clone() });
        }
        if s.rot.is_some() {
            with(DocSet { rot: None, ..s.clone() });
            with(DocSet { rot: Some((0, 0xff)), ..s.clone() });
        }
        if s.stale {
            with(DocSet { stale: false, ..s.clone() });
        }
        let lines: Vec<&str> = s.text.split_inclusive('\n').collect();
        for j in 0..lines.len() {
            let mut l = lines.clone();
            l.remove(j);
            with(DocSet { text: l.concat(), ..s.clone() });
        }
        if lines.len() < 6 {
            for j in 0..lines.len() {
                if let Ok(d) = serde_json::from_str::<Value>(lines[j]) {
                    for x in simpler_json(&d).into_iter().take(20) {
                        let y = format!("{x}\n");
                        let mut l = lines.clone();
                        l[j] = &y;
                        with(DocSet { text: l.concat(), ..s.clone() });
                    }
                }
            }
        }
        if let Some(d) = &s.schema {
            for x in simpler_json(d).into_iter().take(30) {
                with(DocSet { schema: Some(x), ..s.clone() });
            }
        }
    }
    v
}

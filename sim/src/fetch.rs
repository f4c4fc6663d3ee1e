//! C21 and C22: the real download scripts over a server of archives (sim/shim/stub.c) and a store of
//! sampled documents (sim/pystubs/boto3).

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

use crate::avrodata::copy_all;
use crate::batch::{mkdirs, run_script, Run};
use crate::campaign::{fnv, Env, Verdict};
use crate::cli_checks;
use crate::rng::Rng;
use crate::shim::{self, Plan, ALWAYS};

/// Every regular file below `d`, by its path from there.
fn files(d: &Path) -> BTreeMap<String, Vec<u8>> {
    fn walk(top: &Path, d: &Path, m: &mut BTreeMap<String, Vec<u8>>) {
        for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
            let p = e.path();
            if e.file_type().map_or(false, |t| t.is_dir()) {
                walk(top, &p, m);
            } else {
                m.insert(p.strip_prefix(top).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap_or_default());
            }
        }
    }
    let mut m = BTreeMap::new();
    walk(d, d, &mut m);
    m
}

fn tree(env: &mut Env, dirs: &[&str], stubs: &[&str], script: &str) -> (PathBuf, u32) {
    let w = env.world();
    let root = w.dir.join("batch");
    let uid = w.uid;
    let _ = std::fs::remove_dir_all(&root);
    mkdirs(&root, &root, uid);
    for d in ["stubs", "plans", "tree/scripts", "cloud", "elsewhere"].iter().chain(dirs) {
        mkdirs(&root.join(d), &root, uid);
    }
    std::fs::copy(shim::verif().join("build/stub"), root.join("stubs/stub")).expect("stub");
    for s in stubs.iter().chain(&["find", "rm", "mkdir", "mv", "cp"]) {
        std::os::unix::fs::symlink("stub", root.join("stubs").join(s)).unwrap();
    }
    std::fs::copy(Path::new("/repo").join(script), root.join("tree").join(script)).expect("script");
    (root, uid)
}

fn put(p: &Path, b: &[u8], root: &Path, uid: u32) {
    mkdirs(p.parent().unwrap(), root, uid);
    std::fs::write(p, b).expect("write");
    shim::chown(p, uid);
}

// ---- C21: the archive of schemas ----

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct ArchiveCase {
    /// Files of the archive, below its top folder.
    pub files: Vec<(String, String)>,
    /// What an earlier run left in schemas/.
    pub old: Vec<(String, String)>,
    /// What a killed run left of an archive.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub leftover: Option<String>,
    pub faults: Vec<(String, u32, String)>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kill: Option<u32>,
    pub from_elsewhere: bool,
}

const ARCHIVE_SCRIPT: &str = "scripts/mps-download-schemas.sh";

pub fn gen_archive(r: &mut Rng) -> ArchiveCase {
    let mut seen = BTreeSet::new();
    let mut files = Vec::new();
    let n = if r.chance(1, 6) { r.range(12, 40) } else { r.range(1, 8) };
    for i in 0..n {
        let ty = *r.pick(&["main", "event", "x-y", "schemas", "core ping"]);
        let p = format!("schemas/{}/{ty}/{ty}.{}.schema.json", r.pick(&["telemetry", "a", "org-x", "schemas"]), r.range(1, 12));
        if seen.insert(p.clone()) {
            let fill: String = (0..r.below(400)).map(|_| (b'a' + r.below(26) as u8) as char).collect();
            files.push((p, format!("{{\"type\": \"object\", \"title\": \"{i} {fill}\"}}\n")));
        }
    }
    for p in ["README.md", "Cargo.toml", "templates/telemetry/main/main.4.schema.json", "schemas.txt", "tests/schemas/a/b/b.1.schema.json", "scripts/mps-generate-schemas.sh", "validation/telemetry/main.4.sample.pass.json"] {
        if r.chance(2, 3) {
            let at = r.below(files.len() + 1);
            files.insert(at, (p.into(), format!("the archive's own {p}\n")));
        }
    }
    let mut old = Vec::new();
    if r.coin() {
        for (p, _) in &files {
            if p.starts_with("schemas/") && r.coin() {
                old.push((p.clone(), "{\"title\": \"of an earlier day\"}\n".repeat(r.range(1, 30))));
            }
        }
        if r.coin() {
            old.push(("schemas/telemetry/gone/gone.1.schema.json".into(), "{}".into()));
        }
    }
    let mut faults = Vec::new();
    if r.chance(3, 4) {
        let prog = *r.pick(&["curl", "curl", "tar"]);
        let how = match (prog, r.below(6)) {
            ("curl", 0) => "http".into(),
            (_, 1 | 2) => format!("part:{}", r.below(100)),
            (_, 3) => "late".into(),
            (_, 4) => "kill".into(),
            _ => "fail".into(),
        };
        faults.push((prog.to_string(), if r.chance(1, 3) { 1 } else { 9999 }, how));
    }
    ArchiveCase {
        files,
        old,
        leftover: if r.chance(1, 5) { Some(r.pick(&["", "half an archive"]).to_string()) } else { None },
        faults,
        kill: if r.chance(1, 3) { Some((r.u64() >> 40) as u32) } else { None },
        from_elsewhere: r.chance(1, 4),
    }
}

struct ArchiveTree {
    root: PathBuf,
    uid: u32,
}
impl ArchiveTree {
    fn new(env: &mut Env, c: &ArchiveCase) -> ArchiveTree {
        let (root, uid) = tree(env, &["pack/mozilla-pipeline-schemas-master"], &["curl", "tar", "gzip", "mktemp"], ARCHIVE_SCRIPT);
        let _ = std::fs::remove_file(root.join("stubs/gzip"));
        let _ = std::fs::remove_file(root.join("stubs/mktemp"));
        for (p, t) in &c.files {
            put(&root.join("pack/mozilla-pipeline-schemas-master").join(p), t.as_bytes(), &root, uid);
        }
        let done = std::process::Command::new("/usr/bin/tar")
            .args(["--sort=name", "--mtime=@1500000000", "--owner=0", "--group=0", "-czf"])
            .arg(root.join("cloud/archive"))
            .arg("-C")
            .arg(root.join("pack"))
            .arg("mozilla-pipeline-schemas-master")
            .status()
            .expect("tar");
        assert!(done.success(), "tar");
        for (p, t) in &c.old {
            put(&root.join("tree").join(p), t.as_bytes(), &root, uid);
        }
        if let Some(t) = &c.leftover {
            put(&root.join("tree/schemas.tar.gz"), t.as_bytes(), &root, uid);
        }
        put(&root.join("tree/README.md"), b"our own\n", &root, uid);
        put(&root.join("tree/Cargo.toml"), b"our own\n", &root, uid);
        ArchiveTree { root, uid }
    }
    fn run(&self, env: &mut Env, c: &ArchiveCase, faults: bool, kill_at: i64) -> Run {
        let cloud = self.root.join("cloud");
        for f in ["log", "fired", "count.curl", "count.tar", "spool"] {
            let _ = std::fs::remove_file(cloud.join(f));
        }
        let plan: String = if faults { c.faults.iter().map(|(k, n, a)| format!("{k} {n} {a}\n")).collect() } else { String::new() };
        std::fs::write(cloud.join("plan"), plan).expect("plan");
        let argv = vec!["/bin/bash".to_string(), if c.from_elsewhere { format!("../tree/{ARCHIVE_SCRIPT}") } else { ARCHIVE_SCRIPT.into() }];
        let cwd = self.root.join(if c.from_elsewhere { "elsewhere" } else { "tree" });
        let r = run_script(env, &self.root, self.uid, &argv, &cwd, 1, kill_at, &[]);
        for l in self.text("fired").lines() {
            env.count(&format!("fault/{}", l.split(':').next().unwrap()), 1);
        }
        r
    }
    fn text(&self, f: &str) -> String {
        std::fs::read_to_string(self.root.join("cloud").join(f)).unwrap_or_default()
    }
    fn wrong(&self, c: &ArchiveCase, r: &Run, killed_before: bool) -> Option<String> {
        if r.st != 0 && libc::WIFSIGNALED(r.st) {
            return Some(format!("the script ended with signal {}", libc::WTERMSIG(r.st)));
        }
        let ok = libc::WEXITSTATUS(r.st) == 0;
        let mut now = files(&self.root.join("tree"));
        now.remove(ARCHIVE_SCRIPT);
        for p in ["README.md", "Cargo.toml"] {
            if now.remove(p).as_deref() != Some(b"our own\n") {
                return Some(format!("{p} of the repository was replaced"));
            }
        }
        if now.remove("schemas.tar.gz").is_some() && ok {
            return Some("the archive was left behind".into());
        }
        let fresh: BTreeMap<&str, &str> = c.files.iter().filter(|f| f.0.starts_with("schemas/")).map(|f| (&f.0[..], &f.1[..])).collect();
        let old: BTreeMap<&str, &str> = c.old.iter().map(|f| (&f.0[..], &f.1[..])).collect();
        if ok {
            for (p, t) in &fresh {
                match now.get(*p) {
                    None => return Some(format!("the script succeeded, but {p} is not there")),
                    Some(b) if b != t.as_bytes() => return Some(format!("the script succeeded, but {p} is not the one of the archive ({} bytes instead of {})", b.len(), t.len())),
                    _ => {}
                }
            }
        } else if self.text("fired").is_empty() {
            return Some(format!("the script failed ({}) although nothing went wrong", libc::WEXITSTATUS(r.st)));
        }
        let downloads: Vec<bool> = self.text("log").lines().filter_map(|l| Some(l.strip_prefix("curl ")?.split('\t').nth(1)? == "0")).collect();
        let untouched = !killed_before && !downloads.contains(&true);
        for (p, b) in &now {
            let was = old.get(&p[..]).map(|t| t.as_bytes());
            if untouched && was != Some(b) {
                return Some(format!("nothing could be downloaded, yet {p} changed"));
            }
            if !fresh.contains_key(&p[..]) && was != Some(b) {
                return Some(format!("{p} was written"));
            }
        }
        if untouched {
            if let Some(p) = old.keys().find(|p| !now.contains_key(**p)) {
                return Some(format!("nothing could be downloaded, yet {p} is gone"));
            }
        }
        None
    }
}
impl Drop for ArchiveTree {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

pub fn judge_archive(c: &ArchiveCase, env: &mut Env) -> Verdict {
    const LACKS: Verdict = Verdict::Skipped("the script uses a part of curl that the stand-in lacks");
    let t = ArchiveTree::new(env, c);
    let r = t.run(env, c, true, -1);
    if t.root.join("stub-lacks").exists() {
        return LACKS;
    }
    if let Some(w) = t.wrong(c, &r, false) {
        return Verdict::Violated(w);
    }
    let fired = !t.text("fired").is_empty();
    // again, after a failure or in the middle of it
    if let Some(k) = c.kill {
        drop(t);
        let t = ArchiveTree::new(env, c);
        let at = k as u64 % r.events.max(1);
        let x = t.run(env, c, true, at as i64);
        if !x.killed {
            return Verdict::Skipped("the script ended before the event at which it was to be killed");
        }
        let r = t.run(env, c, false, -1);
        if let Some(w) = t.wrong(c, &r, true) {
            return Verdict::Violated(format!("killed at event {at} and run again: {w}"));
        }
    } else if fired {
        let r = t.run(env, c, false, -1);
        if let Some(w) = t.wrong(c, &r, true) {
            return Verdict::Violated(format!("run again after a failure: {w}"));
        }
    }
    Verdict::Held { nontrivial: fired || c.kill.is_some(), key: fnv(&format!("{c:?}")) }
}

pub fn simpler_archive(c: &ArchiveCase) -> Vec<ArchiveCase> {
    let mut v = Vec::new();
    let mut with = |f: &dyn Fn(&mut ArchiveCase)| {
        let mut q = c.clone();
        f(&mut q);
        if q != *c {
            v.push(q);
        }
    };
    for k in 0..c.files.len() {
        with(&|q| drop(q.files.remove(k)));
    }
    for k in 0..c.old.len() {
        with(&|q| drop(q.old.remove(k)));
    }
    with(&|q| q.faults.clear());
    with(&|q| q.kill = None);
    with(&|q| q.leftover = None);
    with(&|q| q.from_elsewhere = false);
    if let Some(n) = c.kill {
        for m in 0..n.min(24) {
            with(&|q| q.kill = Some(m));
        }
    }
    v
}

// ---- C22: the sampled documents ----

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Part {
    /// namespace, doctype, version
    pub set: (String, String, String),
    pub day: String,
    pub number: u32,
    /// One of "json", "crc", "success".
    pub kind: String,
    /// The lines: a document (as text) wrapped in its metadata, or something else altogether.
    pub lines: Vec<Line>,
    pub newline: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Line {
    Doc(String),
    Raw(String),
}
impl Part {
    fn key(&self) -> String {
        let (n, t, v) = &self.set;
        let end = match &self.kind[..] {
            "json" => ".c000.json",
            "crc" => ".c000.json.crc",
            _ => ".c000.txt",
        };
        format!("sanitized-landfill-sample/v3/submission_date_s3={}/namespace={n}/doc_type={t}/doc_version={v}/part-{:05}-tid-2954272513278013416-c06a39af{end}", self.day, self.number)
    }
    fn name(&self) -> String {
        format!("{}.{}.{}", self.set.0, self.set.1, self.set.2)
    }
    fn text(&self) -> String {
        let mut s = self.lines.iter().map(|l| match l {
            // as Spark writes it: not escaping what need not be
            Line::Doc(d) => json!({"namespace": self.set.0, "content": d, "doc_id": "c0ffee"}).to_string(),
            Line::Raw(t) => t.clone(),
        }).collect::<Vec<_>>().join("\n");
        if self.newline {
            s.push('\n');
        }
        s
    }
    fn wanted(&self) -> bool {
        self.kind == "json" && self.day == DAY
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SampleCase {
    pub schemas: Vec<((String, String, String), Value)>,
    pub parts: Vec<Part>,
    /// How many names the store lists at a time.
    pub page: usize,
    /// Failing requests: operation, which call, how.
    pub faults: Vec<(String, u32, String)>,
    pub plan: Plan,
    pub stale: Vec<String>,
    pub again: bool,
    pub from_elsewhere: bool,
}

const SAMPLE_SCRIPT: &str = "scripts/mps-download-sampled-data.py";
const DAY: &str = "20190310";

fn schema(r: &mut Rng, depth: usize) -> Value {
    let ty = *r.pick(&["string", "integer", "number", "boolean", "object", "array", "null"]);
    match ty {
        "object" if depth > 0 => object(r, depth - 1),
        "array" if depth > 0 => json!({"type": "array", "items": schema(r, depth - 1)}),
        "string" if r.chance(1, 3) => json!({"type": "string", "enum": ["a", "b", "ü"]}),
        "integer" if r.chance(1, 3) => json!({"type": ["integer", "null"]}),
        _ => json!({ "type": ty }),
    }
}
fn object(r: &mut Rng, depth: usize) -> Value {
    let names = ["a", "b", "c-d", "e.f", "payload", "clientId"];
    let mut p = Map::new();
    for n in names {
        if r.coin() {
            p.insert(n.into(), schema(r, depth));
        }
    }
    let req: Vec<String> = p.keys().filter(|_| r.chance(1, 2)).cloned().collect();
    let mut s = json!({"$schema": "http://json-schema.org/draft-04/schema#", "type": "object", "properties": p, "required": req});
    if r.chance(1, 3) {
        s["additionalProperties"] = if r.coin() { json!(false) } else { schema(r, 0) };
    }
    s
}
fn text(r: &mut Rng) -> String {
    r.pick(&["", "a", "b", "ü", "x\u{2028}y", "line\u{85}", "a\u{b}b\u{c}c", "tab\t", "new\nline", "\r\n", "\"quoted\"", "back\\slash", "\u{1f600}", "\u{feff}bom", " ends "]).to_string()
}
fn fitting(r: &mut Rng, s: &Value) -> Value {
    let t = match &s["type"] {
        Value::Array(v) => r.pick(v).clone(),
        t => t.clone(),
    };
    match t.as_str().unwrap_or("") {
        "string" => match s["enum"].as_array() {
            Some(v) => r.pick(v).clone(),
            None => json!(text(r)),
        },
        "integer" => json!(r.below(1000) as i64 - 500),
        "number" => json!(r.below(1000) as f64 / 8.0),
        "boolean" => json!(r.coin()),
        "array" => Value::Array((0..r.below(4)).map(|_| fitting(r, &s["items"])).collect()),
        "object" => {
            let mut m = Map::new();
            let req: Vec<&str> = s["required"].as_array().into_iter().flatten().filter_map(|x| x.as_str()).collect();
            for (k, v) in s["properties"].as_object().into_iter().flatten() {
                if req.contains(&&k[..]) || r.coin() {
                    m.insert(k.clone(), fitting(r, v));
                }
            }
            match &s["additionalProperties"] {
                Value::Bool(false) => {}
                Value::Object(_) => {
                    if r.coin() {
                        m.insert("more".into(), fitting(r, &s["additionalProperties"]));
                    }
                }
                _ => {
                    if r.coin() {
                        m.insert(r.pick(&["more", "z", "ü"]).to_string(), json!(text(r)));
                    }
                }
            }
            Value::Object(m)
        }
        _ => Value::Null,
    }
}
fn fits(d: &Value, s: &Value) -> bool {
    if let Value::Bool(b) = s {
        return *b;
    }
    let types: Vec<&str> = match &s["type"] {
        Value::Array(v) => v.iter().filter_map(|x| x.as_str()).collect(),
        Value::String(t) => vec![t],
        _ => vec![],
    };
    let is = |t: &str| match d {
        Value::Null => t == "null",
        Value::Bool(_) => t == "boolean",
        Value::Number(n) => t == "number" || (t == "integer" && !n.is_f64()),
        Value::String(_) => t == "string",
        Value::Array(_) => t == "array",
        Value::Object(_) => t == "object",
    };
    if !types.is_empty() && !types.iter().any(|t| is(t)) {
        return false;
    }
    if s["enum"].as_array().map_or(false, |v| !v.contains(d)) {
        return false;
    }
    match d {
        Value::Object(m) => {
            s["required"].as_array().into_iter().flatten().all(|k| m.contains_key(k.as_str().unwrap_or("")))
                && m.iter().all(|(k, v)| match s["properties"].get(k).or(s.get("additionalProperties")) {
                    Some(s) => fits(v, s),
                    None => true,
                })
        }
        Value::Array(v) => s.get("items").map_or(true, |s| v.iter().all(|d| fits(d, s))),
        _ => true,
    }
}

pub fn gen_sample(r: &mut Rng) -> SampleCase {
    let set = |r: &mut Rng| {
        let t = r.pick(&["main", "event", "x-y", "a", "main-x", "json"]).to_string();
        (r.pick(&["telemetry", "a", "org-x", "eng_workflow"]).to_string(), t, r.pick(&["1", "2", "10", "4"]).to_string())
    };
    let mut schemas: Vec<((String, String, String), Value)> = Vec::new();
    for _ in 0..r.range(1, 6) {
        let s = set(r);
        if !schemas.iter().any(|x| x.0 == s) {
            let d = if r.chance(1, 10) { schema(r, 2) } else { object(r, 2) };
            schemas.push((s, d));
        }
    }
    let mut parts: Vec<Part> = Vec::new();
    let n = match r.below(8) {
        0 => r.below(2),
        1 => r.range(8, 24),
        _ => r.range(1, 8),
    };
    for _ in 0..n {
        let k = r.below(schemas.len());
        let (s, sch) = if r.chance(1, 8) { (set(r), json!({})) } else { schemas[k].clone() };
        let number = if r.coin() { r.below(3) as u32 } else { r.below(400) as u32 };
        let mut lines = Vec::new();
        let m = match r.below(10) {
            0 => r.range(30, 120),
            _ => r.range(1, 6),
        };
        for _ in 0..m {
            lines.push(match r.below(12) {
                0 => {
                    let other = schema(r, 1);
                    Line::Doc(fitting(r, &other).to_string())
                }
                1 => Line::Doc(r.pick(&["", "{", "{\"a\": }", "not json", "{} {}", "[1,", "\u{feff}{}"]).to_string()),
                _ => {
                    let d = fitting(r, &sch);
                    Line::Doc(if r.chance(1, 4) { serde_json::to_string_pretty(&d).unwrap() } else { d.to_string() })
                }
            });
        }
        if r.chance(1, 14) {
            let at = r.below(lines.len() + 1);
            lines.insert(at, Line::Raw(r.pick(&["{\"content\": \"{", "", "{\"doc_id\": \"x\"}", "{\"content\": null}", "[]", "nonsense"]).to_string()));
        }
        if r.chance(1, 30) {
            lines.clear();
        }
        let p = Part {
            set: s,
            day: if r.chance(1, 10) { "20190309".into() } else { DAY.into() },
            number,
            kind: r.pick(&["json", "json", "json", "json", "json", "json", "json", "json", "crc", "success"]).to_string(),
            lines,
            newline: r.chance(3, 4),
        };
        if !parts.iter().any(|q| q.key() == p.key()) {
            parts.push(p);
        }
    }
    let mut faults = Vec::new();
    let mut plan = Plan { mode: 2, hash_seed: r.u64() >> 12, ..Plan::default() };
    match r.below(12) {
        0 => faults.push(("list".into(), r.below(3) as u32, "fail".to_string())),
        1 | 2 | 3 if !parts.is_empty() => {
            let how = if r.coin() { "fail".into() } else { format!("part:{}", r.below(600)) };
            faults.push((format!("get:{}", r.pick(&parts).key()), 0, how));
        }
        4 => {
            plan.input.err_at = r.below(600) as i64;
            plan.input.err_no = libc::EIO;
            plan.input.err_count = if r.coin() { ALWAYS } else { 1 };
        }
        5 | 6 => {
            plan.output.err_at = r.below(1200) as i64;
            plan.output.err_no = *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]);
            plan.output.err_count = *r.pick(&[ALWAYS, ALWAYS, 1, 2]);
        }
        7 | 8 => {
            plan.kill_at = r.below(30) as i64;
            plan.kill_sig = *r.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGINT]);
            plan.kill_when = r.below(3) as u32;
        }
        9 => plan.open_errno = *r.pick(&[libc::EACCES, libc::EMFILE, libc::EIO]),
        10 => {
            plan.input.chunks = vec![r.range(1, 300) as u32];
            plan.output.chunks = vec![r.range(1, 300) as u32];
            plan.input.eintr = (0..r.below(5)).map(|_| r.below(12) as u32).collect();
            plan.output.eintr = (0..r.below(5)).map(|_| r.below(12) as u32).collect();
        }
        _ => {}
    }
    let stale = schemas.iter().filter(|_| r.chance(1, 4)).map(|((n, t, v), _)| format!("{n}.{t}.{v}")).collect();
    SampleCase { schemas, parts, page: if r.coin() { 1000 } else { r.range(1, 5) }, faults, plan, stale, again: r.chance(1, 3), from_elsewhere: r.chance(1, 4) }
}

struct SampleTree {
    root: PathBuf,
    uid: u32,
}
impl SampleTree {
    fn new(env: &mut Env, c: &SampleCase) -> SampleTree {
        let (root, uid) = tree(env, &["tree/schemas"], &["python3", "python"], SAMPLE_SCRIPT);
        copy_all(&shim::verif().join("sim/pystubs"), &root.join("site"));
        for ((n, t, v), s) in &c.schemas {
            put(&root.join(format!("tree/schemas/{n}/{t}/{t}.{v}.schema.json")), serde_json::to_string_pretty(s).unwrap().as_bytes(), &root, uid);
        }
        put(&root.join("tree/schemas/README.md"), b"no schema", &root, uid);
        for s in &c.stale {
            put(&root.join(format!("tree/data/{s}.ndjson")), STALE.as_bytes(), &root, uid);
        }
        SampleTree { root, uid }
    }
    fn plan_path(&self) -> PathBuf {
        self.root.join("plans").join(SAMPLE_SCRIPT.rsplit('/').next().unwrap())
    }
    fn run(&self, env: &mut Env, c: &SampleCase, faults: bool) -> Run {
        let objects: Map<String, Value> = c.parts.iter().map(|p| (p.key(), json!(p.text()))).collect();
        let f = if faults { json!(c.faults) } else { json!([]) };
        put(&self.root.join("site/s3.json"), json!({"bucket": "telemetry-parquet", "objects": objects, "page": c.page, "faults": f}).to_string().as_bytes(), &self.root, self.uid);
        let _ = std::fs::remove_file(self.root.join("fired"));
        let p = if faults { c.plan.clone() } else { Plan { mode: 2, hash_seed: c.plan.hash_seed ^ 1, ..Plan::default() } };
        let first = c.schemas.first().map(|((n, t, v), _)| self.root.join(format!("tree/schemas/{n}/{t}/{t}.{v}.schema.json")));
        shim::plan_file(&self.plan_path(), &p, first.as_deref(), 0);
        shim::chown(&self.plan_path(), self.uid);
        let argv = vec!["/usr/bin/env".to_string(), "python3".into(), if c.from_elsewhere { format!("../tree/{SAMPLE_SCRIPT}") } else { SAMPLE_SCRIPT.into() }];
        let cwd = self.root.join(if c.from_elsewhere { "elsewhere" } else { "tree" });
        let r = run_script(env, &self.root, self.uid, &argv, &cwd, 1, -1, &[self.plan_path()]);
        for l in self.fired().lines() {
            env.count(&format!("fault/store: {}", l.split(':').next().unwrap()), 1);
        }
        r
    }
    fn fired(&self) -> String {
        std::fs::read_to_string(self.root.join("fired")).unwrap_or_default()
    }
    fn wrong(&self, c: &SampleCase, r: &Run) -> Option<String> {
        let Some(code) = r.status.values().next().copied() else { return Some("the script did not run".into()) };
        let res = shim::plan_results(&self.plan_path());
        let hard = res.as_ref().map_or(0, |x| x.err.iter().sum::<u64>() + x.open_err + x.killed);
        let mut want: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        let mut malformed = !c.parts.iter().any(Part::wanted);
        let mut schemas = BTreeMap::new();
        for ((n, t, v), s) in &c.schemas {
            schemas.insert(format!("{n}.{t}.{v}"), s);
        }
        for p in c.parts.iter().filter(|p| p.wanted()) {
            let Some(s) = schemas.get(&p.name()) else { continue };
            let docs = want.entry(p.name()).or_default();
            malformed |= p.lines.is_empty();
            for l in &p.lines {
                match l {
                    Line::Raw(_) => malformed = true,
                    Line::Doc(d) => docs.extend(serde_json::from_str::<Value>(d).ok().filter(|d| fits(d, s))),
                }
            }
        }
        if code != 0 {
            if hard == 0 && !malformed && self.fired().is_empty() {
                return Some(format!("the script failed ({code}) although nothing went wrong"));
            }
            return None;
        }
        let mut now = files(&self.root.join("tree/data"));
        for (name, docs) in &mut want {
            let f = now.remove(&format!("{name}.ndjson"));
            let Some(f) = f else {
                if docs.is_empty() {
                    continue;
                }
                return Some(format!("the script succeeded, but {name}.ndjson is not there"));
            };
            let f = String::from_utf8_lossy(&f).into_owned();
            if !f.is_empty() && !f.ends_with('\n') {
                return Some(format!("the last line of {name}.ndjson is not complete"));
            }
            let mut got = Vec::new();
            for l in f.split_terminator('\n') {
                match serde_json::from_str::<Value>(l) {
                    Ok(d) => got.push(d),
                    Err(e) => return Some(format!("a line of {name}.ndjson is not a document: {e}")),
                }
            }
            let sorted = |v: &[Value]| {
                let mut t: Vec<String> = v.iter().map(|d| d.to_string()).collect();
                t.sort();
                t
            };
            if sorted(&got) != sorted(docs) {
                return Some(format!("{name}.ndjson holds {} documents, the sample has {} valid ones{}", got.len(), docs.len(), if got.len() == docs.len() { " (others)" } else { "" }));
            }
        }
        for (f, b) in &now {
            let n = f.strip_suffix(".ndjson").unwrap_or("");
            if !c.stale.iter().any(|s| s == n) || b != STALE.as_bytes() {
                return Some(format!("data also holds {f}"));
            }
        }
        None
    }
}
const STALE: &str = "{\"of\": \"an earlier day\"}\n";
impl Drop for SampleTree {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

pub fn judge_sample(c: &SampleCase, env: &mut Env) -> Verdict {
    const LACKS: Verdict = Verdict::Skipped("the script uses a part of boto3 or rapidjson that the stand-in lacks");
    let t = SampleTree::new(env, c);
    let r = t.run(env, c, true);
    if t.root.join("stub-lacks").exists() {
        return LACKS;
    }
    if let Some(w) = t.wrong(c, &r) {
        return Verdict::Violated(w);
    }
    let hard = r.status.values().any(|s| *s != 0);
    if hard || c.again {
        let r = t.run(env, c, false);
        if t.root.join("stub-lacks").exists() {
            return LACKS;
        }
        if let Some(w) = t.wrong(c, &r) {
            return Verdict::Violated(format!("run again: {w}"));
        }
    }
    Verdict::Held { nontrivial: hard || c.parts.len() > 1, key: fnv(&format!("{c:?}")) }
}

pub fn simpler_sample(c: &SampleCase) -> Vec<SampleCase> {
    let mut v = Vec::new();
    let mut with = |f: &dyn Fn(&mut SampleCase)| {
        let mut q = c.clone();
        f(&mut q);
        if q != *c {
            v.push(q);
        }
    };
    for k in 0..c.parts.len() {
        with(&|q| drop(q.parts.remove(k)));
    }
    for k in 0..c.schemas.len() {
        with(&|q| drop(q.schemas.remove(k)));
    }
    with(&|q| q.faults.clear());
    with(&|q| q.stale.clear());
    with(&|q| q.again = false);
    with(&|q| q.from_elsewhere = false);
    with(&|q| q.page = 1000);
    for p in cli_checks::simpler_plan(&c.plan) {
        with(&|q| q.plan = p.clone());
    }
    for k in 0..c.parts.len() {
        for j in 0..c.parts[k].lines.len() {
            with(&|q| drop(q.parts[k].lines.remove(j)));
        }
    }
    v
}

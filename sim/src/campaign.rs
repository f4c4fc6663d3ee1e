//! Workers, the driver, shrinking, replay files and evidence.

use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::avrodata::{self, DataCase};
use crate::batch::{self, BatchCase};
use crate::cli_checks::{self, CliCase};
use crate::engine::{self, LibCase, Op, Refs, RunResult};
use crate::gen::Ctx;
use crate::lib_checks::{self, SameCase};
use crate::fetch::{self, ArchiveCase, SampleCase};
use crate::loadbq::{self, LoadCase};
use crate::rng::{mix, Rng};
use crate::sched::{Clock, Policy};
use crate::shim::{self, Ran, World};
use crate::testgen::{self, GenCase};

pub const PROPS: &[&str] = &[
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22",
];

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Case {
    Same(SameCase),
    Lib(LibCase),
    Cli(CliCase),
    Batch(BatchCase),
    Gen(GenCase),
    Data(DataCase),
    Load(LoadCase),
    Archive(ArchiveCase),
    Sample(SampleCase),
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict {
    Held { nontrivial: bool, key: u64 },
    Violated(String),
    Skipped(&'static str),
}

pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001B3))
}

/// What a worker carries from case to case: caches and counts, nothing a verdict depends on.
#[derive(Default)]
pub struct Env {
    pub refs: Refs,
    world: Option<World>,
    pub counts: BTreeMap<String, u64>,
    pub sim_ns: i128,
    pub quiet_counts: bool,
    pub digest: u64,
}

impl Env {
    pub fn count(&mut self, k: &str, n: u64) {
        if n > 0 {
            *self.counts.entry(k.to_string()).or_default() += n;
        }
    }
    pub fn world(&mut self) -> &World {
        self.world.get_or_insert_with(World::new)
    }
    pub fn note_run(&mut self, r: &RunResult) {
        self.digest = mix(self.digest ^ r.digest());
        self.count("library runs", 1);
        self.count("scheduling points", r.steps);
        self.count("context switches", r.switches);
        self.count("accesses to static memory", r.statics);
        self.count("blocked waits", r.blocks);
        self.count("clock readings", r.clock_reads);
        self.count("fault/clock jump", r.clock_jumps);
        self.count("log calls", r.log_calls);
        self.count("environment lookups", r.env_reads);
        self.count("threads started by the code under test", r.spawned);
        self.sim_ns += r.sim_ns as i128;
    }
    pub fn note_cli(&mut self, r: &Ran) {
        self.digest = mix(self.digest ^ r.digest());
        if std::env::var_os("JST_TRACE").is_some() {
            eprintln!("{:016x} code {:?} signal {:?} events {} log {:016x} mallocs {} stdout {}", r.digest(), r.code, r.signal, r.events, r.log_hash, r.mallocs, r.stdout.len());
        }
        if self.quiet_counts {
            self.count("fault-free reference runs of the command", 1);
            return;
        }
        self.count("process runs", 1);
        self.sim_ns += r.clk_elapsed.unsigned_abs() as i128;
        self.count("I/O events", r.events);
        for (k, n) in ["input", "output", "diagnostics"].iter().enumerate() {
            let rw = if k == 0 { "read" } else { "write" };
            self.count(&format!("fault/short {rw} on {n}"), r.short[k]);
            self.count(&format!("fault/interrupted {rw} on {n}"), r.eintr[k]);
            self.count(&format!("fault/failing {rw} on {n}"), r.err[k]);
        }
        self.count("fault/input ends early", (r.eof_fired > 0) as u64);
        self.count("fault/open fails", r.open_err);
        self.count("fault/open interrupted", r.open_eintr);
        self.count("fault/allocation fails", r.malloc_fail);
        self.count("fault/killed", r.killed);
        self.count("fault/clock jump", r.clock_jumps);
        self.count("fault/directory order changed", r.dir_shuffles);
        self.count("clock readings", r.clock_calls);
        self.count("timer waits", r.timer_waits);
        self.count("environment lookups", r.env_reads);
        self.count("questions about the input's kind or size", r.stats_asked);
        self.count("seeks on the input", r.seeks);
    }
}

pub fn gen_case(prop: &str, seed: u64, env: &mut Env) -> Case {
    let mut r = Rng::new(seed);
    let r = &mut r;
    match prop {
        "C01" | "C02" | "C03" | "C04" => Case::Same(lib_checks::gen_same(r, prop)),
        "C05" | "C06" | "C07" | "C08" => Case::Lib(lib_checks::gen_lib(r, prop)),
        "C16" => Case::Batch(batch::gen(r, env)),
        "C17" => Case::Gen(testgen::gen(r)),
        "C19" => Case::Data(avrodata::gen(r, env)),
        "C20" => Case::Load(loadbq::gen(r, env)),
        "C21" => Case::Archive(fetch::gen_archive(r)),
        "C22" => Case::Sample(fetch::gen_sample(r)),
        _ => Case::Cli(cli_checks::gen_cli(r, prop, env)),
    }
}

pub fn judge(prop: &str, case: &Case, env: &mut Env) -> Verdict {
    match case {
        Case::Same(c) => lib_checks::judge_same(c, prop, env),
        Case::Lib(c) => lib_checks::judge_lib(c, prop, env),
        Case::Cli(c) => cli_checks::judge(c, prop, env),
        Case::Batch(c) => batch::judge(c, env),
        Case::Gen(c) => testgen::judge(c, env),
        Case::Data(c) => avrodata::judge(c, env),
        Case::Load(c) => loadbq::judge(c, env),
        Case::Archive(c) => fetch::judge_archive(c, env),
        Case::Sample(c) => fetch::judge_sample(c, env),
    }
}

// ---- shrinking ----

pub fn simpler_ctx(c: &Ctx) -> Vec<Ctx> {
    let mut v = Vec::new();
    if *c != Ctx::default() {
        v.push(Ctx::default());
    }
    if c.resolve != 0 {
        v.push(Ctx { resolve: 0, ..c.clone() });
    }
    if c.case {
        v.push(Ctx { case: false, ..c.clone() });
    }
    if c.nullable {
        v.push(Ctx { nullable: false, ..c.clone() });
    }
    if c.tuple {
        v.push(Ctx { tuple: false, ..c.clone() });
    }
    if c.maps {
        v.push(Ctx { maps: false, ..c.clone() });
    }
    if c.regex.is_some() {
        v.push(Ctx { regex: None, ..c.clone() });
    }
    v
}

/// Documents with one subtree removed or replaced, larger changes first.
pub fn simpler_json(v: &Value) -> Vec<Value> {
    fn go(v: &Value, out: &mut Vec<(usize, Value)>) {
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    let mut q = m.clone();
                    q.remove(k);
                    out.push((x.to_string().len(), Value::Object(q)));
                    if x.is_object() && x.get("type").is_some() && x.as_object().unwrap().len() > 1 {
                        let mut q = m.clone();
                        q.insert(k.clone(), json!({"type": "integer"}));
                        out.push((x.to_string().len() - 16, Value::Object(q)));
                    }
                }
                for (k, x) in m {
                    let mut sub = Vec::new();
                    go(x, &mut sub);
                    for (n, y) in sub {
                        let mut q = m.clone();
                        q.insert(k.clone(), y);
                        out.push((n, Value::Object(q)));
                    }
                }
            }
            Value::Array(a) => {
                for i in 0..a.len() {
                    let mut q = a.clone();
                    let x = q.remove(i);
                    out.push((x.to_string().len(), Value::Array(q)));
                }
                for i in 0..a.len() {
                    let mut sub = Vec::new();
                    go(&a[i], &mut sub);
                    for (n, y) in sub {
                        let mut q = a.clone();
                        q[i] = y;
                        out.push((n, Value::Array(q)));
                    }
                }
            }
            Value::String(s) if s.len() > 40 => {
                let k = s.char_indices().nth(s.chars().count() / 2).map_or(0, |x| x.0);
                out.push((s.len() / 2, Value::String(s[..k].to_string())));
            }
            _ => {}
        }
    }
    let mut out = Vec::new();
    if v.to_string().len() < 30_000 {
        go(v, &mut out);
    } else if let Some(Value::Object(p)) = v.get("properties") {
        for keep in [0, 1] {
            let q: serde_json::Map<String, Value> = p.iter().enumerate().filter(|(i, _)| i % 2 == keep).map(|(_, (k, x))| (k.clone(), x.clone())).collect();
            let mut d = v.clone();
            d["properties"] = Value::Object(q);
            out.push((1, d));
        }
    }
    out.sort_by(|a, b| b.0.cmp(&a.0));
    out.into_iter().map(|x| x.1).collect()
}

fn simpler_same(c: &SameCase) -> Vec<SameCase> {
    let mut v = Vec::new();
    for k in 0..c.variants.len() {
        if c.variants.len() > 1 {
            let mut q = c.clone();
            q.variants.remove(k);
            v.push(q);
        }
        let x = &c.variants[k];
        let with = |y| {
            let mut q = c.clone();
            q.variants[k] = y;
            q
        };
        let n = x.hashes.len();
        if n > 1 {
            v.push(with(lib_checks::Variant { hashes: x.hashes[..n / 2].to_vec(), ..x.clone() }));
            v.push(with(lib_checks::Variant { hashes: x.hashes[n / 2..].to_vec(), ..x.clone() }));
            for j in 0..n {
                let mut h = x.hashes.clone();
                h.remove(j);
                v.push(with(lib_checks::Variant { hashes: h, ..x.clone() }));
            }
        }
        if x.clock != Clock::default() {
            v.push(with(lib_checks::Variant { clock: Clock::default(), ..x.clone() }));
        }
        if x.log_level != 0 {
            v.push(with(lib_checks::Variant { log_level: 0, ..x.clone() }));
        }
        if x.heap_seed != 0 {
            v.push(with(lib_checks::Variant { heap_seed: 0, ..x.clone() }));
        }
        if x.env_seed != 0 {
            v.push(with(lib_checks::Variant { env_seed: 0, ..x.clone() }));
        }
    }
    v.extend(simpler_ctx(&c.ctx).into_iter().map(|ctx| SameCase { ctx, ..c.clone() }));
    v.extend(simpler_json(&c.doc).into_iter().map(|doc| SameCase { doc, ..c.clone() }));
    v
}

fn drop_thread(c: &LibCase, k: usize) -> LibCase {
    let mut q = c.clone();
    q.threads.remove(k);
    let fix = |x: usize| if x > k { x - 1 } else { x };
    q.policy = match &c.policy {
        Policy::Serial(o) => Policy::Serial(o.iter().filter(|x| **x != k).map(|x| fix(*x)).collect()),
        Policy::Trace(t) => Policy::Trace(t.iter().filter(|x| x.1 != k).map(|x| (x.0, fix(x.1))).collect()),
        p => p.clone(),
    };
    q
}

fn simpler_lib(c: &LibCase) -> Vec<LibCase> {
    let mut v = Vec::new();
    if let Policy::Random { .. } | Policy::Few { .. } | Policy::Traps { .. } | Policy::Shared { .. } = &c.policy {
        // The schedule as it was, then parts of it left out.
        let r = engine::run(c, 10 * engine::CAP);
        let t = r.recorded.clone();
        v.push(LibCase { policy: Policy::Trace(t), ..c.clone() });
    }
    if c.threads.len() > 1 {
        for k in 0..c.threads.len() {
            v.push(drop_thread(c, k));
        }
    }
    for k in 0..c.threads.len() {
        let n = c.threads[k].ops.len();
        if n > 3 {
            for half in [0..n / 2, n / 2..n] {
                let mut q = c.clone();
                q.threads[k].ops.drain(half);
                v.push(q);
            }
        }
        if n > 40 {
            for at in (0..n).step_by(n / 8) {
                let mut q = c.clone();
                q.threads[k].ops.drain(at..(at + n / 8).min(n));
                v.push(q);
            }
        } else if n > 1 {
            for j in 0..n {
                let mut q = c.clone();
                q.threads[k].ops.remove(j);
                v.push(q);
            }
        }
    }
    if let Policy::Trace(t) = &c.policy {
        let n = t.len();
        let mut k = n / 2;
        while k >= 1 && v.len() < 300 {
            let mut at = 0;
            while at < n {
                let mut q = t.clone();
                q.drain(at..(at + k).min(n));
                v.push(LibCase { policy: Policy::Trace(q), ..c.clone() });
                at += k;
            }
            k /= 2;
        }
    }
    if c.log_level != 0 && c.log_panics.is_empty() {
        v.push(LibCase { log_level: 0, ..c.clone() });
    }
    for k in 0..c.log_panics.len() {
        let mut q = c.clone();
        q.log_panics.remove(k);
        v.push(q);
    }
    if c.clock != Clock::default() {
        v.push(LibCase { clock: Clock::default(), ..c.clone() });
    }
    // documents nobody uses any more
    let used: HashSet<usize> = c.threads.iter().flat_map(|t| &t.ops).filter_map(|o| if let Op::Convert { doc, .. } = o { Some(*doc) } else { None }).collect();
    for k in (0..c.docs.len()).rev() {
        if !used.contains(&k) {
            let mut q = c.clone();
            q.docs.remove(k);
            for o in q.threads.iter_mut().flat_map(|t| &mut t.ops) {
                if let Op::Convert { doc, .. } = o {
                    if *doc > k {
                        *doc -= 1;
                    }
                }
            }
            v.push(q);
        }
    }
    let trace = matches!(c.policy, Policy::Trace(ref t) if !t.is_empty());
    for k in 0..c.docs.len() {
        for d in simpler_json(&c.docs[k]).into_iter().take(if trace { 30 } else { 200 }) {
            let mut q = c.clone();
            q.docs[k] = d;
            v.push(q);
        }
    }
    for k in 0..c.threads.len() {
        for j in 0..c.threads[k].ops.len().min(60) {
            if let Op::Convert { ctx, .. } = &c.threads[k].ops[j] {
                for x in simpler_ctx(ctx) {
                    let mut q = c.clone();
                    if let Op::Convert { ctx, .. } = &mut q.threads[k].ops[j] {
                        *ctx = x;
                    }
                    v.push(q);
                }
            }
        }
    }
    v
}

fn simpler(c: &Case) -> Vec<Case> {
    match c {
        Case::Same(c) => simpler_same(c).into_iter().map(Case::Same).collect(),
        Case::Lib(c) => simpler_lib(c).into_iter().map(Case::Lib).collect(),
        Case::Cli(c) => cli_checks::simpler(c).into_iter().map(Case::Cli).collect(),
        Case::Batch(c) => batch::simpler(c).into_iter().map(Case::Batch).collect(),
        Case::Gen(c) => testgen::simpler(c).into_iter().map(Case::Gen).collect(),
        Case::Data(c) => avrodata::simpler(c).into_iter().map(Case::Data).collect(),
        Case::Load(c) => loadbq::simpler(c).into_iter().map(Case::Load).collect(),
        Case::Archive(c) => fetch::simpler_archive(c).into_iter().map(Case::Archive).collect(),
        Case::Sample(c) => fetch::simpler_sample(c).into_iter().map(Case::Sample).collect(),
    }
}

/// The smallest violating case found within the time given.
pub fn shrink(prop: &str, case: Case, msg: String, env: &mut Env, limit: Duration) -> (Case, String, u64) {
    let t0 = Instant::now();
    let (mut best, mut msg, mut tried) = (case, msg, 0);
    let mut improved = true;
    while improved && t0.elapsed() < limit {
        improved = false;
        for c in simpler(&best) {
            if t0.elapsed() >= limit {
                break;
            }
            tried += 1;
            if let Verdict::Violated(m) = judge(prop, &c, env) {
                best = c;
                msg = m;
                improved = true;
                break;
            }
        }
    }
    (best, msg, tried)
}

// ---- worker ----

#[derive(Serialize, Deserialize, Default)]
pub struct WorkerOut {
    pub cases: u64,
    pub held: u64,
    pub nontrivial: u64,
    pub skipped: BTreeMap<String, u64>,
    pub counts: BTreeMap<String, u64>,
    pub sim_s: f64,
    pub keys: Vec<u64>,
    pub samples: Vec<Value>,
    pub cov: Vec<u32>,
    pub cov_n: usize,
    pub refs: u64,
    pub reruns: u64,
    pub rerun_mismatches: Vec<u64>,
    pub violation: Option<Value>,
    pub known: Vec<String>,
    pub wall_s: f64,
}

pub fn case_seed(base: u64, prop: &str, index: u64) -> u64 {
    mix(mix(base ^ fnv(prop)) ^ index.wrapping_mul(0x9E3779B97F4A7C15))
}

pub struct Job<'a> {
    pub rerun_all: bool,
    pub prop: &'a str,
    pub base: u64,
    pub from: u64,
    pub stride: u64,
    pub until: u64,
    pub secs: f64,
    pub stop: PathBuf,
    pub build: &'a str,
    pub known: Vec<String>,
}

/// Names a case in the findings file.
pub fn fingerprint(c: &Case) -> String {
    format!("{:016x}", fnv(&serde_json::to_string(c).unwrap()))
}

pub fn worker(j: &Job) -> WorkerOut {
    let t0 = Instant::now();
    let mut env = Env::default();
    let mut out = WorkerOut::default();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut i = j.from;
    while i < j.until && t0.elapsed().as_secs_f64() < j.secs && !(out.cases % 16 == 0 && j.stop.exists()) {
        let seed = case_seed(j.base, j.prop, i);
        let case = gen_case(j.prop, seed, &mut env);
        env.digest = 0;
        let v = judge(j.prop, &case, &mut env);
        let d = env.digest;
        out.cases += 1;
        // The simulator's own promise: the same case is the same execution.
        if (out.cases % 64 == 1 || j.rerun_all) && matches!(v, Verdict::Held { .. }) {
            let mut again = Env { world: env.world.take(), ..Env::default() };
            let same = gen_case(j.prop, seed, &mut again) == case;
            again.digest = 0;
            let v2 = judge(j.prop, &case, &mut again);
            env.world = again.world.take();
            out.reruns += 1;
            if again.digest != d || !same || v2 != v {
                out.rerun_mismatches.push(seed);
            }
        }
        match v {
            Verdict::Held { nontrivial, key } => {
                out.held += 1;
                if nontrivial {
                    out.nontrivial += 1;
                    if keys.len() < 400_000 {
                        keys.insert(key);
                    }
                    if out.samples.len() < 2 && serde_json::to_string(&case).unwrap().len() < 3000 {
                        out.samples.push(json!({"seed": seed, "case": case}));
                    }
                }
            }
            Verdict::Skipped(why) => *out.skipped.entry(why.into()).or_default() += 1,
            Verdict::Violated(msg) => {
                if j.known.is_empty() {
                    let _ = std::fs::write(&j.stop, b"");
                }
                let (small, m, tried) = shrink(j.prop, case.clone(), msg.clone(), &mut env, Duration::from_secs(40));
                // A listed finding is not what this search is for.
                if j.known.contains(&fingerprint(&small)) {
                    out.known.push(m);
                    i += j.stride;
                    continue;
                }
                out.violation = Some(json!({
                    "property": j.prop, "build": j.build, "base_seed": j.base, "index": i, "seed": seed,
                    "violation": m, "case": small, "first_seen_as": msg, "original_case": case, "shrink_attempts": tried,
                }));
                break;
            }
        }
        i += j.stride;
    }
    out.refs = env.refs.computed;
    out.sim_s = env.sim_ns as f64 / 1e9;
    out.counts = env.counts.clone();
    out.keys = keys.into_iter().collect();
    let (_, n) = engine::coverage();
    out.cov = engine::coverage_ids();
    out.cov_n = n;
    out.wall_s = t0.elapsed().as_secs_f64();
    out
}

// ---- replay ----

pub fn replay(file: &Path) -> i32 {
    let v: Value = serde_json::from_slice(&std::fs::read(file).expect("replay file")).expect("replay file");
    let prop = v["property"].as_str().unwrap().to_string();
    let build = v["build"].as_str().unwrap_or("default");
    if build == "oniguruma" && !cfg!(feature = "oniguruma") {
        let exe = shim::verif().join("build/sim-onig/debug/jstsim");
        return Command::new(exe).arg("replay").arg(file).status().unwrap().code().unwrap_or(2);
    }
    let case: Case = serde_json::from_value(v["case"].clone()).expect("case");
    let mut env = Env::default();
    match judge(&prop, &case, &mut env) {
        Verdict::Violated(m) => {
            println!("VIOLATION property={prop} replay={}", file.display());
            println!("{m}");
            println!("{}", if v["violation"] == json!(m) { "reproduced exactly" } else { "reproduced, with a different description" });
            println!("execution digest {:016x}", env.digest);
            1
        }
        v => {
            println!("no violation: {v:?}");
            0
        }
    }
}

// ---- driver ----

struct Tier {
    cases: u64,
    secs: f64,
}

fn tier(prop: &str, thorough: bool) -> Tier {
    let (cases, secs) = match prop {
        "C01" | "C02" | "C03" | "C04" => (16_000, 55.0),
        "C05" => (10_000, 60.0),
        "C06" => (6_000, 55.0),
        "C07" => (5_000, 60.0),
        "C08" => (4_500, 55.0),
        "C16" => (2_400, 40.0),
        "C17" => (10_000, 40.0),
        "C19" => (1_500, 40.0),
        "C20" => (3_000, 40.0),
        "C21" => (7_000, 40.0),
        "C22" => (2_400, 45.0),
        _ => (24_000, 40.0),
    };
    if thorough {
        Tier { cases: cases * 40, secs: 720.0 }
    } else {
        Tier { cases, secs }
    }
}

fn rule(prop: &str) -> &'static str {
    match prop {
        "C01" => "one seeded schema, option set and format, converted under 12 seeded hash keys in two processes, the second with its own clock, log level, heap layout and environment answers; non-trivial: accepted with at least three named columns; distinct by schema, options and format",
        "C02" => "as C01 with 16 hash keys, schemas made of groups of names that collide after renaming; non-trivial: accepted and some object really has a collision; distinct by schema, options and format",
        "C03" => "as C01 with 16 hash keys, schemas made of overlapping patternProperties and oneOf alternatives; non-trivial: accepted and at least one merge of two or more alternatives; distinct by schema, options and format",
        "C04" => "as C01 with 16 hash keys, all resolve modes, schemas with incompatible and unusable parts, comparing accept or reject; non-trivial: at least two typed parts; distinct by schema, options and format",
        "C05" => "one process, a seeded history of 3-36 conversions and snake-casings of related documents; every call is compared with the same call alone in a fresh process; non-trivial: three or more calls; distinct by execution path (hash of all basic blocks in order) and documents",
        "C06" => "as C05, on one or several threads, with calls that fail (unusable schema or options, panic mode, log sink failing at a seeded log call); non-trivial: a call succeeded after a failure; distinct by execution path and documents",
        "C07" => "2-5 threads, 1-4 calls each, a seeded scheduler choosing who runs at every basic block, allocation, lock wait and log call; non-trivial: at least two context switches; distinct interleavings by hash of (thread, basic block) in order",
        "C08" => "histories and interleavings of conversions with and without their own pattern (valid, invalid, not a string) and with a pattern option; compares the set of JSON columns with a fresh process and with the same pattern given as an option; non-trivial: at least one document carries the setting; distinct by execution path and documents",
        "C09" => "one document, option set, delivery (stdin, -, file), seeded short and interrupted reads, writes and opens; compared with the library; non-trivial: at least one short or interrupted call fired; distinct by document, options and I/O event sequence",
        "C10" => "failing opens and reads, early ends, torn, corrupted and trailing data; non-trivial: reading failed or the bytes delivered are not one JSON document; distinct by document, options and I/O event sequence",
        "C11" => "standard output failing at a seeded byte with a seeded error, for good or a few times; non-trivial: the failure fired; distinct by document, options and I/O event sequence",
        "C12" => "seeded log levels and standard-error faults against the silent run; non-trivial: something was written to standard error; distinct by document, options and I/O event sequence",
        "C13" => "allocation k fails (k seeded over the whole run), once, a few times or from then on; non-trivial: the failure fired; distinct by document, options, k and I/O event sequence",
        "C14" => "seeded storms of interruptions and one-byte pieces, persistent failures and early ends on every stream; non-trivial: a fault fired; distinct by document, options and I/O event sequence",
        "C15" => "two runs of one document and option set in two seeded environments (hash seed, heap, clock, variables, folder, names, terminals, flag spelling); non-trivial: the document converts; distinct by the whole case",
        "C16" => "the real batch script over a seeded tree of schemas, with command runs that fail, are killed, lose their input or fill the disk, and with the script killed at a seeded event and run again; non-trivial: a fault fired; distinct by tree, flags and fault plan",
        "C17" => "the real build step over a seeded resource folder in a seeded listing order, with short, interrupted and failing I/O or a kill at a seeded event, then run again; non-trivial: a fault fired or the order was changed; distinct by folder, settings and I/O event sequence",
        "C19" => "the real data script and its helper over a seeded set of schemas and documents, with data cut short or unreadable, documents that do not fit, helper runs that are killed, lose their input or fill the disk, and with the script killed at a seeded event and run again; non-trivial: some set failed or the script was killed; distinct by the whole case",
        "C20" => "the real load script over a seeded folder of data and a simulated cloud in a seeded state, with gcloud, gsutil and bq failing, cut short, killed or failing after the fact, and with the script killed at a seeded event and run again; non-trivial: a fault fired, SKIP_EXISTING was set or some data is refused; distinct by the whole case",
        "C21" => "the real script that downloads the schemas, over a seeded archive and an earlier run's schemas, with curl and tar failing, cut short, killed or failing after the fact, an error page instead of the archive, and with the script killed at a seeded event and run again; non-trivial: a fault fired or the script was killed; distinct by the whole case",
        "C22" => "the real script that downloads sampled documents, over a seeded store with several parts per set and pages of names, with requests failing, bodies cut short, reads, writes and opens failing, kills at a seeded I/O event, and run again; non-trivial: the first run failed or there are several parts; distinct by the whole case",
        _ => "the command killed at a seeded I/O event (before, after, part-way) or allocation, or running to its end; non-trivial: the kill fired; distinct by document, options and I/O event sequence",
    }
}

pub fn level(prop: &str) -> &'static str {
    match prop {
        _ => "exploration",
    }
}

fn real_components(prop: &str) -> (Vec<&'static str>, Vec<&'static str>) {
    match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" | "C07" | "C08" => (
            vec!["the jst library built from /repo (every module), its dependencies, the Rust standard library, real threads"],
            vec!["kernel scheduler (replaced by the seeded scheduler)", "getrandom", "clocks and sleeps", "futex", "getenv", "the application's log sink"],
        ),
        "C16" => (
            vec!["scripts/mps-generate-schemas.sh under the real bash", "the real command built from /repo", "coreutils, find"],
            vec!["cargo (does nothing; the command is already built)", "order in which find lists files", "C library I/O, allocation, clock and randomness of the command"],
        ),
        "C19" => (
            vec!["scripts/mps-generate-avro-data.sh under the real bash", "scripts/mps-generate-avro-data-helper.py under the real Python", "the Avro schemas made by the real command built from /repo", "coreutils"],
            vec!["the Python packages avro and fastavro (not installed here; small stand-ins in sim/pystubs)", "C library I/O results of the helper"],
        ),
        "C20" => (
            vec!["scripts/mps-load-avro-bq.sh under the real bash", "coreutils, sed, grep"],
            vec!["gcloud, gsutil and bq (a small model of buckets, datasets and load jobs over scratch files)"],
        ),
        "C21" => (
            vec!["scripts/mps-download-schemas.sh under the real bash", "tar, gzip, coreutils"],
            vec!["curl (one archive on a server that may fail)"],
        ),
        "C22" => (
            vec!["scripts/mps-download-sampled-data.py under the real Python"],
            vec!["the Python packages boto3 and rapidjson (not installed here; small stand-ins in sim/pystubs: a store of objects, a validator of the keywords used)", "C library I/O results of the script"],
        ),
        "C17" => (vec!["build.rs built from /repo", "serde_json", "the file system of a scratch folder"], vec!["C library I/O results, directory order, clock, randomness"]),
        _ => (
            vec!["the real jsonschema-transpiler command built from /repo: main, clap, env_logger, serde_json, the library"],
            vec!["C library read, write, open, malloc, getrandom, clock, getenv, isatty (answered from the plan; the bytes themselves are moved by the kernel)"],
        ),
    }
}

pub fn check(prop: &str, thorough: bool, base: u64) -> i32 {
    let t0 = Instant::now();
    let root = shim::verif();
    let mut t = tier(prop, thorough);
    if let Ok(s) = std::env::var("JST_CASES") {
        t.cases = s.parse().unwrap();
    }
    if let Ok(s) = std::env::var("JST_SECS") {
        t.secs = s.parse().unwrap();
    }
    let n: u64 = std::env::var("JST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let both = matches!(prop, "C05" | "C06" | "C07");
    let stop = std::env::temp_dir().join(format!("jstsim-stop-{}", std::process::id()));
    let _ = std::fs::remove_file(&stop);
    let mut kids = Vec::new();
    for w in 0..n {
        // A quarter of the workers of the history and concurrency checks use the oniguruma build.
        let onig = both && w % 4 == 3;
        let exe = root.join(if onig { "build/sim-onig/debug/jstsim" } else { "build/sim/debug/jstsim" });
        let mut c = Command::new(exe);
        c.arg("worker").arg(prop).arg(base.to_string()).arg(w.to_string()).arg(n.to_string()).arg(t.cases.to_string()).arg(t.secs.to_string()).arg(&stop);
        c.stdout(Stdio::piped()).stderr(Stdio::piped()).env("JST_VERIF", &root);
        unsafe {
            use std::os::unix::process::CommandExt;
            c.pre_exec(|| {
                // Fixed addresses: one seed is one execution, whatever process runs it.
                libc::personality(0x0040000);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let kid = c.spawn().expect("start worker");
        let pid = kid.id();
        kids.push((pid, std::thread::spawn(move || kid.wait_with_output())));
    }
    let mut outs: Vec<WorkerOut> = Vec::new();
    let mut broken = Vec::new();
    for (pid, h) in kids {
        let o = h.join().unwrap().expect("worker");
        let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("jstsim-{pid}")));
        let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("jstbatch-{pid}")));
        match serde_json::from_slice::<WorkerOut>(&o.stdout) {
            Ok(w) if o.status.success() => outs.push(w),
            _ => broken.push(format!("{:?}: {}", o.status, String::from_utf8_lossy(&o.stderr[o.stderr.len().saturating_sub(1500)..]))),
        }
    }
    let _ = std::fs::remove_file(&stop);

    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut skipped: BTreeMap<String, u64> = BTreeMap::new();
    let mut keys: HashSet<u64> = HashSet::new();
    let mut samples = Vec::new();
    let mut cov: HashSet<u32> = HashSet::new();
    let (mut cases, mut refs, mut reruns) = (0, 0, 0);
    let mut mismatches: Vec<u64> = Vec::new();
    let mut sim_s = 0.0;
    let mut cov_n = 0;
    let mut viols: Vec<Value> = Vec::new();
    for (w, o) in outs.iter().enumerate() {
        cases += o.cases;
        refs += o.refs;
        reruns += o.reruns;
        sim_s += o.sim_s;
        mismatches.extend(&o.rerun_mismatches);
        for (k, v) in &o.counts {
            *counts.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.skipped {
            *skipped.entry(k.clone()).or_default() += v;
        }
        keys.extend(&o.keys);
        if samples.len() < 4 {
            samples.extend(o.samples.iter().take(1).cloned());
        }
        if !(both && w % 4 == 3) {
            cov.extend(&o.cov);
            cov_n = cov_n.max(o.cov_n);
        }
        viols.extend(o.violation.clone());
    }
    let wall = t0.elapsed().as_secs_f64();
    let known: std::collections::BTreeSet<String> = outs.iter().flat_map(|o| o.known.iter().cloned()).collect();
    for k in known {
        println!("KNOWN-FINDING: property={prop} {k}");
    }
    let mut reported = Vec::new();
    for v in viols {
        let dir = root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let f = dir.join(format!("{prop}-{:016x}.json", v["seed"].as_u64().unwrap_or(0)));
        std::fs::write(&f, serde_json::to_vec_pretty(&v).unwrap()).expect("write replay");
        reported.push((f, v));
    }
    reported.sort_by_key(|(_, v)| v["case"].to_string().len());

    let (faults, measures): (BTreeMap<_, _>, BTreeMap<_, _>) = counts.into_iter().partition(|(k, _)| k.starts_with("fault/"));
    let faults: BTreeMap<String, u64> = faults.into_iter().map(|(k, v)| (k["fault/".len()..].to_string(), v)).collect();
    let (real, stub) = real_components(prop);
    let runs = measures.get("library runs").copied().unwrap_or(0) + measures.get("process runs").copied().unwrap_or(0) + measures.get("script runs").copied().unwrap_or(0);
    let mut coverage = json!({
        "evaluations": cases,
        "distinct_nontrivial": keys.len(),
        "rule": rule(prop),
        "samples": samples,
        "skipped": skipped,
        "simulated_runs": runs,
        "runs_per_hour": (runs as f64 / wall * 3600.0) as u64,
        "seeds_per_hour": (cases as f64 / wall * 3600.0) as u64,
        "simulated_time_s": sim_s,
        "faults_injected": faults,
        "measures": measures,
        "reference_runs_in_fresh_processes": refs,
        "replayed_for_determinism": reruns,
        "determinism_mismatches": mismatches,
        "workers": n,
        "components_real": real,
        "components_stubbed": stub,
    });
    if !cov.is_empty() {
        coverage["instrumented_edges_reached"] = json!(cov.len());
        coverage["instrumented_edges_total"] = json!(cov_n);
    }
    let ev = json!({
        "property": prop,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": base,
        "level": level(prop),
        "coverage": coverage,
        "assumptions": ["the C library and kernel deliver the bytes the plan lets through unaltered", "serde_json parses JSON correctly"],
        "wall_s": wall,
        "violations": reported.len(),
    });
    let _ = std::fs::create_dir_all(root.join("evidence"));
    std::fs::write(root.join("evidence").join(format!("{prop}.json")), serde_json::to_vec_pretty(&ev).unwrap()).expect("write evidence");
    println!("{prop}: {cases} cases, {runs} simulated runs, {} distinct non-trivial, {} skipped, {wall:.1} s", keys.len(), skipped.values().sum::<u64>());
    if !mismatches.is_empty() {
        println!("note: {} of {reruns} cases run twice took a different path the second time", mismatches.len());
    }
    let _ = std::io::stdout().flush();
    if let Some((f, v)) = reported.first() {
        println!("VIOLATION property={prop} replay={}", f.display());
        println!("{}", v["violation"].as_str().unwrap_or(""));
        return 1;
    }
    if !broken.is_empty() {
        for b in broken {
            eprintln!("worker failed: {b}");
        }
        return 2;
    }
    if cases == 0 {
        eprintln!("no case was run");
        return 2;
    }
    0
}

/// Fingerprints of the cases listed as known findings (not the fixed ones).
pub fn known_findings(root: &Path, prop: &str) -> Vec<String> {
    let Ok(t) = std::fs::read_to_string(root.join("known-findings.txt")) else { return vec![] };
    t.lines()
        .filter(|l| l.starts_with("finding:") && l.contains(&format!("property={prop} ")))
        .filter_map(|l| l.split("case=").nth(1).map(|x| x.split_whitespace().next().unwrap_or("").to_string()))
        .collect()
}

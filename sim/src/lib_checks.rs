//! C01-C08: the library under simulated hash keys, histories, failures and interleavings.

use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::campaign::{fnv, Env, Verdict};
use crate::facets;
use crate::engine::{self, LibCase, Op, Out, Refs, Thr};
use crate::gen::{self, Ctx, Focus};
use crate::rng::Rng;
use crate::sched::{Clock, Policy};

/// One environment in which the same call is made once per hash key.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Variant {
    pub hashes: Vec<u64>,
    #[serde(default)]
    pub clock: Clock,
    #[serde(default)]
    pub log_level: u8,
    #[serde(default)]
    pub heap_seed: u64,
    #[serde(default)]
    pub env_seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SameCase {
    pub doc: Value,
    pub ctx: Ctx,
    pub avro: bool,
    pub variants: Vec<Variant>,
}

// ---- C01-C04: one call, many environments ----

pub fn clock(r: &mut Rng) -> Clock {
    let start = *r.pick(&[0i64, 1_700_000_000_000_000_000, 2_208_988_800_000_000_000, 4_102_444_800_000_000_000, 86_399_999_999_999]);
    let step = *r.pick(&[0i64, 1, 1000, 1_000_000, 7_000_000_000]);
    let n = r.below(3);
    let jumps = (0..n)
        .map(|_| (r.below(20) as u64 + 1, *r.pick(&[-3_600_000_000_000i64, 3_600_000_000_000, -1, 86_400_000_000_000_000, -1_000_000_000])))
        .collect();
    Clock { start_ns: start, step_ns: step, jumps }
}

pub fn gen_same(r: &mut Rng, prop: &str) -> SameCase {
    let focus = match prop {
        "C02" => Focus::Collide,
        "C03" => Focus::Merge,
        "C04" => *r.pick(&[Focus::Verdict, Focus::Verdict, Focus::General, Focus::Merge, Focus::Collide]),
        _ => *r.pick(&[Focus::General, Focus::General, Focus::General, Focus::Json]),
    };
    let mut g = gen::Gen::new(r, focus);
    if focus == Focus::Collide || focus == Focus::Merge {
        g.max_depth = r.range(1, 4);
    }
    if prop == "C04" && r.chance(1, 3) {
        g.bad = r.range(8, 60) as u64;
    }
    let mut doc = if prop == "C01" && r.chance(1, 25) { r.pick(gen::corpus()).clone() } else { g.doc(r) };
    if r.chance(1, 8) {
        gen::decoys(r, &mut doc);
    }
    let mut ctx = gen::ctx(r);
    if prop == "C04" {
        ctx.resolve = r.below(3) as u8;
    }
    if r.chance(1, 10) {
        ctx.regex = Some(gen::regex(r));
    }
    let k = if prop == "C01" { 6 } else { 8 };
    let mut variants = Vec::new();
    for v in 0..2 {
        let hashes = (0..k).map(|_| r.u64() >> 12).collect();
        let mut x = Variant { hashes, clock: Clock::default(), log_level: 0, heap_seed: 0, env_seed: 0 };
        if v > 0 {
            x.clock = clock(r);
            x.log_level = r.below(6) as u8;
            x.heap_seed = r.u64() >> 12;
            if r.coin() {
                x.env_seed = r.u64() >> 12;
            }
        }
        variants.push(x);
    }
    SameCase { doc, ctx, avro: r.coin(), variants }
}

fn same_run(c: &SameCase, v: &Variant) -> LibCase {
    let op = Op::Convert { doc: 0, ctx: c.ctx.clone(), avro: c.avro };
    LibCase {
        docs: vec![c.doc.clone()],
        threads: v.hashes.iter().map(|h| Thr { hash: *h, ops: vec![op.clone()] }).collect(),
        policy: Policy::Serial((0..v.hashes.len()).collect()),
        clock: v.clock.clone(),
        log_level: v.log_level,
        log_panics: vec![],
        heap_seed: v.heap_seed,
        env_seed: v.env_seed,
    }
}

pub fn judge_same(c: &SameCase, prop: &str, env: &mut Env) -> Verdict {
    let mut first: Option<(Out, u64)> = None;
    let mut runs = 0;
    for v in &c.variants {
        let r = engine::run(&same_run(c, v), 10 * engine::CAP);
        env.note_run(&r);
        if let Some(a) = &r.abort {
            if a == engine::TOO_LARGE {
                return Verdict::Skipped("results too large");
            }
            if prop == "C04" || a.starts_with("livelock") || a.starts_with("deadlock") {
                // A crash of the process is a verdict too; it must be the same everywhere.
                let n = v.hashes.len();
                let single: Vec<bool> = (0..n).map(|k| engine::solo(Some(&c.doc), &Op::Convert { doc: 0, ctx: c.ctx.clone(), avro: c.avro }, v.hashes[k]).is_err()).collect();
                if single.iter().any(|x| *x) && !single.iter().all(|x| *x) {
                    return Verdict::Violated(format!("the conversion ends the process ({a}) under some hash keys only"));
                }
            }
            return Verdict::Skipped("process ended (stack or memory exhausted)");
        }
        for (k, o) in r.outs.iter().enumerate() {
            let o = o[0].clone().unwrap();
            runs += 1;
            match &first {
                None => first = Some((o, v.hashes[k])),
                Some((f, h0)) => {
                    let differs = if prop == "C04" { matches!(f, Out::Ok(_)) != matches!(o, Out::Ok(_)) } else { *f != o };
                    if differs {
                        return Verdict::Violated(format!(
                            "{} conversion of one schema with one set of options gives different results: hash key {:#x} gives {} / hash key {:#x} (log level {}, clock {} ns, heap {:#x}, environment {:#x}) gives {}",
                            if c.avro { "Avro" } else { "BigQuery" }, h0, f.brief(), v.hashes[k], v.log_level, v.clock.start_ns, v.heap_seed, v.env_seed, o.brief()
                        ));
                    }
                }
            }
        }
    }
    env.count("conversions", runs);
    let (f, _) = first.unwrap();
    match &f {
        Out::Ok(_) => env.count("accepted", 1),
        _ => env.count("rejected", 1),
    }
    let text = c.doc.to_string();
    let nontrivial = match prop {
        // something for the order to matter to
        "C04" => text.matches("\"type\"").count() >= 2,
        "C02" => matches!(&f, Out::Ok(_)) && has_collision(&c.doc, c.ctx.case),
        "C03" => matches!(&f, Out::Ok(_)) && merges(&c.doc),
        _ => matches!(&f, Out::Ok(s) if s.matches("\"name\"").count() >= 3),
    };
    Verdict::Held { nontrivial, key: fnv(&format!("{:?}{}{}", c.ctx, c.avro, text)) }
}

fn has_collision(v: &Value, case: bool) -> bool {
    match v {
        Value::Object(m) => {
            if let Some(Value::Object(p)) = m.get("properties") {
                let mut seen = std::collections::HashSet::new();
                for k in p.keys() {
                    let mut n = k.replace(['.', '-'], "_");
                    if n.starts_with(|c: char| c.is_numeric()) {
                        n.insert(0, '_');
                    }
                    if case {
                        n = n.to_lowercase().replace('_', "");
                    }
                    if !seen.insert(n) {
                        return true;
                    }
                }
            }
            m.values().any(|x| has_collision(x, case))
        }
        Value::Array(a) => a.iter().any(|x| has_collision(x, case)),
        _ => false,
    }
}
fn merges(v: &Value) -> bool {
    match v {
        Value::Object(m) => {
            matches!(m.get("patternProperties"), Some(Value::Object(p)) if p.len() + m.contains_key("additionalProperties") as usize >= 2)
                || matches!(m.get("oneOf"), Some(Value::Array(p)) if p.len() >= 2)
                || m.values().any(merges)
        }
        Value::Array(a) => a.iter().any(merges),
        _ => false,
    }
}

// ---- C05-C08: histories, failures, interleavings ----

fn pool_docs(r: &mut Rng, prop: &str) -> Vec<Value> {
    let focus = if prop == "C08" { Focus::Json } else { *r.pick(&[Focus::General, Focus::General, Focus::Json, Focus::Collide, Focus::Merge]) };
    let n = r.range(2, 5);
    let mut v: Vec<Value> = Vec::new();
    for _ in 0..n {
        let d = if !v.is_empty() && r.chance(1, 2) {
            let b = r.pick(&v).clone();
            if r.coin() {
                gen::mutate(r, &b)
            } else {
                gen::twin(r, &b)
            }
        } else {
            let mut g = gen::Gen::new(r, focus);
            g.budget = r.heavy(4, 30) as i32;
            if prop == "C06" && r.chance(1, 3) {
                g.bad = 10;
            } else if r.chance(1, 12) {
                g.bad = 12;
            }
            g.doc(r)
        };
        v.push(d);
    }
    if prop == "C08" || prop == "C06" || r.chance(1, 4) {
        for d in v.iter_mut() {
            if let Value::Object(m) = d {
                match r.below(10) {
                    0..=3 => gen::set_regex(m, &gen::regex(r)),
                    4 => gen::set_regex(m, r.pick(gen::BAD_REGEXES)),
                    5 if prop == "C08" => drop(m.insert("mozPipelineMetadata".into(), serde_json::json!({"json_object_path_regex": 5}))),
                    6 if prop == "C08" => drop(m.insert("mozPipelineMetadata".into(), serde_json::json!({"bq_dataset": "x"}))),
                    7 if prop == "C08" => {}
                    _ => drop(m.remove("mozPipelineMetadata")),
                }
            }
        }
    }
    if r.chance(1, 5) {
        // same identity, different content
        for d in v.iter_mut() {
            if let Value::Object(m) = d {
                m.insert("$id".into(), "same".into());
            }
        }
    }
    if r.chance(1, 8) {
        // the same document with its properties' types swapped around, same keys
        let b = v[0].clone();
        v.push(gen::mutate(r, &b));
    }
    v
}

fn snake_pool(r: &mut Rng) -> Vec<String> {
    let n = r.range(1, 5);
    let mut v = Vec::new();
    for _ in 0..n {
        match r.below(3) {
            0 => {
                let case = r.coin();
                v.extend(gen::colliding(r, case, 3));
            }
            1 => v.extend(gen::names(r, 3, Focus::General)),
            _ => {
                let w = gen::word(r);
                v.push(w.to_uppercase());
                v.push(w.to_lowercase());
                v.push(format!("{}{}", w, w));
                v.push(w);
            }
        }
    }
    v
}

pub fn gen_lib(r: &mut Rng, prop: &str) -> LibCase {
    if r.coin() {
        return facets::gen(r, prop);
    }
    let docs = pool_docs(r, prop);
    let snakes = snake_pool(r);
    let nthreads = match prop {
        "C05" => r.range(1, 3),
        "C06" | "C08" => r.range(1, 4),
        _ => r.range(2, 5),
    };
    let serial = match prop {
        "C05" => true,
        "C07" => false,
        _ => r.coin(),
    };
    let ctxs: Vec<Ctx> = (0..r.range(1, 3))
        .map(|_| {
            let mut c = gen::ctx(r);
            if prop == "C06" && r.chance(1, 3) {
                c.resolve = 2;
            }
            if prop == "C08" {
                c.resolve = *r.pick(&[0, 0, 0, 1, 2]);
                if r.chance(1, 4) {
                    c.regex = Some(gen::regex(r));
                }
            } else if r.chance(1, 8) {
                c.regex = Some(if r.chance(1, 4) { r.pick(gen::BAD_REGEXES).to_string() } else { gen::regex(r) });
            }
            c
        })
        .collect();
    let only = if r.chance(1, 3) { Some(r.coin()) } else { None };
    // Now and then only one kind of call, so that both sides meet in the same place.
    let snake_share = *r.pick(&[0u64, 1, 3, 12]);
    let mut threads = Vec::new();
    for _ in 0..nthreads {
        let n = if serial { r.range(3, 12) } else { r.range(1, 4) };
        let ops = (0..n)
            .map(|_| {
                if r.chance(snake_share, 16) && prop != "C08" {
                    Op::Snake { name: r.pick(&snakes).clone() }
                } else {
                    let avro = only.unwrap_or(if prop == "C08" { r.chance(1, 5) } else { r.coin() });
                    Op::Convert { doc: r.below(docs.len()), ctx: r.pick(&ctxs).clone(), avro }
                }
            })
            .collect();
        threads.push(Thr { hash: r.u64() >> 12, ops });
    }
    let policy = if serial {
        let mut order: Vec<usize> = threads.iter().enumerate().flat_map(|(k, t)| vec![k; t.ops.len()]).collect();
        r.shuffle(&mut order);
        Policy::Serial(order)
    } else {
        facets::policy(r)
    };
    let mut log_level = if r.chance(1, 3) { r.below(6) as u8 } else { 0 };
    let mut log_panics = vec![];
    if prop == "C06" && r.chance(1, 2) {
        log_level = r.range(2, 5) as u8;
        let n = r.range(1, 3);
        for _ in 0..n {
            log_panics.push(r.heavy(0, 40) as u64);
        }
    }
    LibCase {
        docs,
        threads,
        policy,
        clock: if r.chance(1, 4) { clock(r) } else { Clock::default() },
        log_level,
        log_panics,
        heap_seed: 0,
        env_seed: 0,
    }
}

fn json_paths(v: &Value, at: &str, out: &mut Vec<String>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| json_paths(x, at, out)),
        Value::Object(m) => {
            let p = format!("{at}.{}", m.get("name").and_then(Value::as_str).unwrap_or("?"));
            if m.get("type").and_then(Value::as_str) == Some("JSON") {
                out.push(p.clone());
            }
            if let Some(f) = m.get("fields") {
                json_paths(f, &p, out);
            }
        }
        _ => {}
    }
}

/// What C08 is about: which columns are JSON, and whether the schema was accepted.
fn json_columns(o: &Out, avro: bool) -> String {
    match o {
        Out::Ok(s) if !avro => {
            let mut v = Vec::new();
            json_paths(&serde_json::from_str(s).unwrap(), "", &mut v);
            v.join(" ")
        }
        Out::Ok(_) => "accepted".into(),
        Out::Reject => "rejected".into(),
        Out::Injected => "injected".into(),
    }
}

fn describe(op: &Op) -> String {
    match op {
        Op::Convert { doc, ctx, avro } => format!("{} of document {doc} (options {})", if *avro { "convert_avro" } else { "convert_bigquery" }, serde_json::to_string(ctx).unwrap()),
        Op::Snake { name } => format!("to_snake_case({name:?})"),
    }
}

pub fn judge_lib(c: &LibCase, prop: &str, env: &mut Env) -> Verdict {
    // References first: what each call gives alone in a fresh process.
    let mut refs: Vec<Vec<Out>> = Vec::new();
    let mut alone = 0;
    for t in &c.threads {
        let mut v = Vec::new();
        for op in &t.ops {
            let (o, steps) = env.refs.get(&c.docs, op);
            alone += steps;
            match o {
                Ok(o) => v.push(o),
                Err(_) => return Verdict::Skipped("a call alone ends the process"),
            }
        }
        refs.push(v);
    }
    if prop == "C08" {
        if let Some(v) = own_pattern(c, &mut env.refs, &refs) {
            return v;
        }
    }
    // Far more steps than the calls take alone: they keep each other from finishing.
    let r = engine::run(c, 5_000_000 + 10 * alone);
    env.note_run(&r);
    if let Some(a) = &r.abort {
        if a == engine::TOO_LARGE {
            return Verdict::Skipped("results too large");
        }
        if prop == "C08" && !a.starts_with("crash") {
            return Verdict::Skipped("deadlock (judged by C06 and C07)");
        }
        if a.starts_with("crash") && c.threads.iter().any(|t| t.ops.iter().any(|o| engine::solo(doc_of(c, o), o, t.hash).is_err())) {
            return Verdict::Skipped("a call alone ends the process");
        }
        return Verdict::Violated(format!("{a} in a run whose calls all return when made alone"));
    }
    let (mut failed, mut injected, mut after_failure) = (0, 0, 0);
    for (k, t) in c.threads.iter().enumerate() {
        for (j, op) in t.ops.iter().enumerate() {
            let o = r.outs[k][j].as_ref().unwrap();
            if *o == Out::Injected {
                injected += 1;
                continue;
            }
            if *o == Out::Reject {
                failed += 1;
            } else if failed + injected > 0 {
                after_failure += 1;
            }
            let e = &refs[k][j];
            let avro = matches!(op, Op::Convert { avro: true, .. });
            let same = if prop == "C08" { json_columns(o, avro) == json_columns(e, avro) } else { o == e };
            if !same {
                if engine::unstable(&c.docs, op) {
                    return Verdict::Skipped("result depends on hash keys (judged by C01-C04)");
                }
                return Verdict::Violated(format!(
                    "thread {k} call {j}: {} gives {} but alone in a fresh process it gives {}",
                    describe(op),
                    o.brief(),
                    e.brief()
                ));
            }
        }
    }
    env.count("calls", c.threads.iter().map(|t| t.ops.len() as u64).sum());
    env.count("fault/call rejected (unusable input or options)", failed);
    env.count("fault/log sink failed mid-conversion", injected);
    let nontrivial = match prop {
        "C05" => c.threads.iter().map(|t| t.ops.len()).sum::<usize>() >= 3,
        "C06" => failed + injected > 0 && after_failure > 0,
        "C07" => r.switches >= 2,
        _ => c.docs.iter().any(|d| d.get("mozPipelineMetadata").is_some()),
    };
    Verdict::Held { nontrivial, key: r.path ^ fnv(&serde_json::to_string(&c.docs).unwrap()) }
}

fn doc_of<'a>(c: &'a LibCase, op: &Op) -> Option<&'a Value> {
    match op {
        Op::Convert { doc, .. } => Some(&c.docs[*doc]),
        _ => None,
    }
}

/// A schema's own pattern acts exactly as the same pattern given as an option.
fn own_pattern(c: &LibCase, memo: &mut Refs, refs: &[Vec<Out>]) -> Option<Verdict> {
    for (k, t) in c.threads.iter().enumerate() {
        for (j, op) in t.ops.iter().enumerate() {
            let Op::Convert { doc, ctx, avro } = op else { continue };
            let d = &c.docs[*doc];
            if d.get("mozPipelineMetadata").is_none() && ctx.regex.is_none() {
                if let Out::Ok(_) = refs[k][j] {
                    let cols = json_columns(&refs[k][j], *avro);
                    if !*avro && !cols.is_empty() {
                        return Some(Verdict::Violated(format!("thread {k} call {j}: {}: neither the schema nor the options give a pattern, but the JSON columns are [{cols}]", describe(op))));
                    }
                }
            }
            let Some(p) = d.get("mozPipelineMetadata").and_then(|m| m.get("json_object_path_regex")).and_then(Value::as_str) else { continue };
            let mut d2 = d.clone();
            d2.as_object_mut().unwrap().remove("mozPipelineMetadata");
            let mut c2 = ctx.clone();
            c2.regex = Some(p.to_string());
            let op2 = Op::Convert { doc: 0, ctx: c2, avro: *avro };
            let Ok(e) = memo.get(&[d2], &op2).0 else { continue };
            let o = &refs[k][j];
            if json_columns(o, *avro) != json_columns(&e, *avro) {
                if engine::unstable(&c.docs, op) {
                    return Some(Verdict::Skipped("result depends on hash keys (judged by C01-C04)"));
                }
                return Some(Verdict::Violated(format!(
                    "thread {k} call {j}: {}: with its own pattern {p:?} the JSON columns are [{}], with the same pattern as an option they are [{}]",
                    describe(op),
                    json_columns(o, *avro),
                    json_columns(&e, *avro)
                )));
            }
        }
    }
    None
}

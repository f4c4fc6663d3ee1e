//! Runs whose calls are nearly the same and differ in one respect: what one call leaves behind
//! is then most easily taken for the other's.

use serde_json::{json, Map, Value};

use crate::engine::{LibCase, Op, Thr};
use crate::gen::{self, Ctx, Focus, Gen};
use crate::lib_checks::clock;
use crate::rng::Rng;
use crate::sched::{Clock, Policy};

/// What the calls of a run have to say, and how often each is made.
struct Calls {
    docs: Vec<Value>,
    ops: Vec<Op>,
}

fn convert(doc: usize, ctx: &Ctx, avro: bool) -> Op {
    Op::Convert { doc, ctx: ctx.clone(), avro }
}

fn letters(r: &mut Rng, n: usize) -> String {
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}

fn json_able(r: &mut Rng) -> Value {
    match r.below(5) {
        0 | 1 => json!({"type": "object"}),
        2 => json!({}),
        3 => json!({"type": ["string", "integer"]}),
        _ => json!({"type": "object", "properties": {"data": {"type": "object"}, "id": {"type": "string"}}}),
    }
}

/// Documents that differ in their patterns only.
fn patterns(r: &mut Rng, prop: &str) -> Calls {
    let len = r.range(2, 8);
    let n = r.range(2, 6);
    let mut cols: Vec<String> = (0..n).map(|_| letters(r, len)).collect();
    cols.sort();
    cols.dedup();
    let nested = r.chance(1, 4);
    let mut p = Map::new();
    for c in &cols {
        p.insert(c.clone(), json_able(r));
    }
    if r.chance(1, 3) {
        for i in 0..r.range(5, 30) {
            p.insert(format!("fill{i}"), json!({"type": "string"}));
        }
    }
    if r.chance(1, 4) {
        p.insert("list".into(), json!({"type": "array", "items": {"type": "object"}}));
    }
    let mut base = json!({"type": "object", "properties": p});
    let prefix = if nested {
        base = json!({"type": "object", "properties": {"in": base}});
        "in."
    } else {
        ""
    };
    let pad = *r.pick(&[1usize, 1, 1, 2, 3, 6, 12, 40, 130]);
    let shape = r.below(5);
    let pattern = |c: &str| {
        let one = match shape {
            0 => format!(r"\.?{prefix}{c}"),
            1 => format!(".*{c}"),
            2 => format!("{prefix}{c}"),
            3 => format!(r"(root)?\.?{prefix}{c}$"),
            _ => format!(".*({c})"),
        };
        vec![one; pad].join("|")
    };
    let mut docs = Vec::new();
    let mut extra = Vec::new();
    let k = r.range(2, cols.len().max(2));
    for i in 0..k {
        let mut d = base.clone();
        gen::set_regex(d.as_object_mut().unwrap(), &pattern(&cols[i % cols.len()]));
        if r.chance(1, 8) {
            d["$id"] = json!("same");
        }
        docs.push(d);
    }
    for _ in 0..r.below(3) {
        let mut d = base.clone();
        match r.below(5) {
            0 | 1 => {}
            2 => gen::set_regex(d.as_object_mut().unwrap(), r.pick(gen::BAD_REGEXES)),
            3 => d["mozPipelineMetadata"] = json!({"json_object_path_regex": 5}),
            _ => d["mozPipelineMetadata"] = json!({"bq_table": "x"}),
        }
        extra.push(d);
    }
    docs.extend(extra);
    let mut ctxs = vec![Ctx::default()];
    if r.chance(1, 3) {
        ctxs = vec![gen::ctx(r)];
    }
    if r.chance(1, 4) {
        // the same by an option instead
        let c = Ctx { regex: Some(pattern(r.pick(&cols))), ..ctxs[0].clone() };
        ctxs.push(c);
    }
    if r.chance(1, 6) {
        let c = Ctx { regex: Some(pattern(r.pick(&cols))), ..ctxs[0].clone() };
        ctxs.push(c);
    }
    if r.chance(1, 6) {
        // fails in the middle
        ctxs.push(Ctx { resolve: 2, ..ctxs[0].clone() });
    }
    let mut ops = Vec::new();
    for d in 0..docs.len() {
        for c in &ctxs {
            ops.push(convert(d, c, false));
            if r.chance(1, 8) || (prop != "C08" && r.chance(1, 4)) {
                ops.push(convert(d, c, true));
            }
        }
    }
    Calls { docs, ops }
}

/// A document on which every option has an effect.
fn rich(r: &mut Rng) -> Value {
    let w = gen::word(r);
    let mut p = Map::new();
    p.insert(format!("{w}Id"), json!({"type": "integer"}));
    p.insert("someName".into(), json!({"type": "string"}));
    if r.coin() {
        p.insert("pair".into(), json!({"type": "array", "items": [{"type": "integer"}, {"type": "string"}], "additionalItems": {"type": "boolean"}, "minItems": 1, "maxItems": 3}));
    }
    if r.coin() {
        p.insert("mapLike".into(), json!({"type": "object", "additionalProperties": {"type": "object"}}));
    }
    if r.coin() {
        p.insert("bag".into(), json!({"type": "object"}));
    }
    if r.coin() {
        p.insert("mixed".into(), json!({"oneOf": [{"type": "integer"}, {"type": "string"}]}));
    }
    if r.coin() {
        p.insert("deep".into(), json!({"type": "object", "properties": {"innerOne": {"type": "array", "items": {"type": "object", "properties": {"xY": {"type": "number"}}}}}, "required": ["innerOne"]}));
    }
    if r.coin() {
        let mut g = Gen::new(r, Focus::General);
        g.budget = 8;
        p.insert("more".into(), g.schema(r, 1));
    }
    let mut req: Vec<String> = p.keys().cloned().collect();
    req.retain(|_| r.coin());
    json!({"type": "object", "properties": p, "required": req})
}

fn flips(r: &mut Rng) -> Vec<Ctx> {
    let base = if r.coin() { Ctx::default() } else { gen::ctx(r) };
    let mut v = vec![base.clone()];
    for _ in 0..r.range(1, 4) {
        let mut c = if r.chance(2, 3) { base.clone() } else { r.pick(&v).clone() };
        match r.below(7) {
            0 => c.case = !c.case,
            1 => c.nullable = !c.nullable,
            2 => c.tuple = !c.tuple,
            3 => c.maps = !c.maps,
            4 => c.resolve = (c.resolve + 1) % 3,
            5 => c.resolve = (c.resolve + 2) % 3,
            _ => c.regex = if c.regex.is_some() { None } else { Some(".*".into()) },
        }
        v.push(c);
    }
    v
}

fn options(r: &mut Rng) -> Calls {
    let docs: Vec<Value> = (0..r.range(1, 2)).map(|_| rich(r)).collect();
    let ctxs = flips(r);
    let both = r.coin();
    let avro = r.coin();
    let mut ops = Vec::new();
    for d in 0..docs.len() {
        for c in &ctxs {
            ops.push(convert(d, c, avro));
            if both {
                ops.push(convert(d, c, !avro));
            }
        }
    }
    Calls { docs, ops }
}

/// Names that are alike under some coarser comparison.
fn alike(r: &mut Rng) -> Vec<String> {
    let n = r.range(2, 6);
    match r.below(8) {
        6 => {
            let l = r.range(2, 8);
            let w = letters(r, l);
            (0..n).map(|_| gen::permuted(r, &w)).collect()
        }
        7 => {
            // a common beginning, and characters that no column name may have
            let l = *r.pick(&[1, 4, 7, 15, 23, 31, 63, 127]);
            let p = letters(r, l);
            (0..n).map(|_| format!("{p}{}{}", r.pick(&["", "a", " ", "é", "$", "/", "_", ":", "A"]), r.pick(&["", "b", "x1"]))).collect()
        }
        0 => {
            let case = r.coin();
            gen::colliding(r, case, n)
        }
        1 => {
            let w = format!("{}{}", gen::word(r), gen::word(r));
            let f = |r: &mut Rng| -> String { w.chars().map(|c| if r.coin() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
            (0..n).map(|_| f(r)).collect()
        }
        2 => {
            // one length, one first and last letter
            let (a, b) = (letters(r, 1), letters(r, 1));
            let l = r.range(1, 12);
            (0..n)
                .map(|_| {
                    let m: String = (0..l).map(|_| *r.pick(&['a', 'B', '_', 'c', 'D', '1'])).collect();
                    format!("{a}{m}{b}")
                })
                .collect()
        }
        3 => {
            // a long common beginning
            let l = *r.pick(&[7, 8, 15, 16, 23, 31, 32, 63, 64, 127, 255]);
            let p = letters(r, l);
            (0..n).map(|_| format!("{p}{}", r.pick(&["A", "Ab", "_a", "1", "aB", "", "a", "AB", "B"]))).collect()
        }
        4 => {
            // a long common end
            let l = *r.pick(&[7, 8, 15, 16, 31, 63]);
            let p = letters(r, l);
            (0..n).map(|_| format!("{}{p}", r.pick(&["A", "aB", "a_", "1", "", "a", "AB", "X"]))).collect()
        }
        _ => (0..n).map(|_| format!("{}{}", r.pick(&["x", "X", "é", "É", "_", "1", "ß", "İ"]), r.pick(&["Name", "name", "NAME", "_name", "1", ""]))).collect(),
    }
}

/// Records inside records, named alike.
fn nested(r: &mut Rng) -> Calls {
    let pool = alike(r);
    fn build(r: &mut Rng, pool: &[String], depth: usize) -> Value {
        if depth == 0 {
            return json!({"type": r.pick(&["integer", "string"])});
        }
        let mut p = Map::new();
        for _ in 0..r.range(1, 2) {
            let d = depth - 1 - r.below(2).min(depth - 1);
            p.insert(r.pick(pool).clone(), build(r, pool, d));
        }
        let o = json!({"type": "object", "properties": p});
        match r.below(8) {
            0 => json!({"type": "array", "items": o}),
            1 => json!({"type": "object", "additionalProperties": o}),
            _ => o,
        }
    }
    let depth = r.range(2, 4);
    let mut docs = vec![build(r, &pool, depth)];
    for _ in 0..r.range(1, 3) {
        let d = if r.coin() { build(r, &pool, depth) } else { gen::twin(r, &docs[0]) };
        docs.push(d);
    }
    let ctx = gen::ctx(r);
    let avro = r.chance(2, 3);
    let ops = (0..docs.len()).map(|d| convert(d, &ctx, avro)).collect();
    Calls { docs, ops }
}

fn names(r: &mut Rng) -> Calls {
    let pool = alike(r);
    let mut docs = Vec::new();
    for _ in 0..r.range(1, 3) {
        let mut p = Map::new();
        for _ in 0..r.range(1, 4) {
            p.insert(r.pick(&pool).clone(), json!({"type": r.pick(&["integer", "string"])}));
        }
        docs.push(json!({"type": "object", "properties": p}));
    }
    let mut ops = Vec::new();
    for n in &pool {
        ops.push(Op::Snake { name: n.clone() });
    }
    let avro = r.coin();
    let case = r.chance(2, 3);
    for d in 0..docs.len() {
        ops.push(convert(d, &Ctx { case, ..Ctx::default() }, avro));
        if r.chance(1, 3) {
            ops.push(convert(d, &Ctx::default(), avro));
        }
    }
    Calls { docs, ops }
}

/// Same shape, same names, same identity; other types.
fn retype(r: &mut Rng, v: &mut Value) {
    match v {
        Value::Object(m) => {
            let atom = matches!(m.get("type").and_then(Value::as_str), Some("string" | "integer" | "number" | "boolean"));
            if atom && r.chance(2, 3) {
                m.insert("type".into(), json!(r.pick(&["string", "integer", "number", "boolean"])));
            }
            if m.contains_key("required") && r.chance(1, 3) {
                m.remove("required");
            }
            m.iter_mut().filter(|(k, _)| k.as_str() != "type").for_each(|(_, x)| retype(r, x));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| retype(r, x)),
        _ => {}
    }
}

fn contents(r: &mut Rng) -> Calls {
    let mut base = if r.coin() {
        rich(r)
    } else {
        let focus = *r.pick(&[Focus::General, Focus::Merge, Focus::Collide]);
        let mut g = Gen::new(r, focus);
        g.budget = r.range(4, 20) as i32;
        g.doc(r)
    };
    if let Value::Object(m) = &mut base {
        if r.coin() {
            m.insert("$id".into(), json!("https://example.com/same.schema.json"));
        }
        if r.chance(1, 4) {
            m.insert("title".into(), json!("same"));
        }
    }
    let mut docs = vec![base.clone()];
    for _ in 0..r.range(1, 3) {
        let mut d = base.clone();
        if r.coin() {
            retype(r, &mut d);
        } else {
            d = gen::twin(r, &base);
        }
        docs.push(d);
    }
    let ctx = gen::ctx(r);
    let avro = r.coin();
    let both = r.chance(1, 3);
    let mut ops = Vec::new();
    for d in 0..docs.len() {
        ops.push(convert(d, &ctx, avro));
        if both {
            ops.push(convert(d, &ctx, !avro));
        }
    }
    Calls { docs, ops }
}

/// A call that fails at a chosen depth, and good calls of about the same depth.
fn failures(r: &mut Rng) -> (Calls, Vec<Op>) {
    let depth = r.range(1, 6);
    let bad = match r.below(8) {
        0 => json!({"type": "strin"}),
        1 => json!({"oneOf": []}),
        2 => json!({"type": "object", "properties": {"": {"type": "string"}}}),
        3 => json!({"type": "object", "patternProperties": {}}),
        4 => json!({"type": "array", "items": [{"type": "integer"}]}),
        _ => json!({"type": ["string", "integer"]}),
    };
    let wrap = |r: &mut Rng, mut v: Value, depth: usize| {
        for i in 0..depth {
            v = match r.below(6) {
                0 => json!({"type": "array", "items": v}),
                1 => json!({"type": "object", "additionalProperties": v}),
                2 => json!({"oneOf": [v, {"type": "null"}]}),
                _ => json!({"type": "object", "properties": {format!("p{i}"): v, "otherOne": {"type": "integer"}}}),
            };
        }
        v
    };
    let mut docs = vec![wrap(r, bad, depth)];
    if r.chance(1, 4) {
        gen::set_regex(docs[0].as_object_mut().unwrap(), r.pick(gen::BAD_REGEXES));
    }
    for _ in 0..r.range(1, 2) {
        let d = r.range(1, 6);
        let leaf = if r.coin() { json!({"type": "integer"}) } else { rich(r) };
        docs.push(wrap(r, leaf, d));
    }
    let ctx = Ctx { resolve: 2, ..gen::ctx(r) };
    let good = if r.coin() { Ctx { resolve: 0, ..ctx.clone() } } else { ctx.clone() };
    let avro = r.coin();
    let mut ops = Vec::new();
    for d in 1..docs.len() {
        ops.push(convert(d, &good, r.coin()));
    }
    (Calls { docs, ops }, vec![convert(0, &ctx, avro)])
}

/// Few small calls, made very often; or documents with very many names.
fn long(r: &mut Rng, wide: bool) -> Calls {
    if !wide {
        let n = r.range(2, 5);
        let docs: Vec<Value> = (0..n)
            .map(|_| {
                let mut g = Gen::new(r, Focus::General);
                g.budget = 3;
                g.max_depth = 2;
                g.doc(r)
            })
            .collect();
        let ctx = gen::ctx(r);
        let mut ops: Vec<Op> = (0..n).map(|d| convert(d, &ctx, r.coin())).collect();
        for w in alike(r) {
            ops.push(Op::Snake { name: w });
        }
        Calls { docs, ops }
    } else {
        let n = r.range(2, 6);
        let per = *r.pick(&[60, 150, 300, 600]);
        let docs: Vec<Value> = (0..n)
            .map(|_| {
                let mut p = Map::new();
                for _ in 0..per {
                    let l = r.range(2, 9);
                    let k = format!("{}{}{}", letters(r, 2), letters(r, 1).to_uppercase(), letters(r, l));
                    p.insert(k, json!({"type": "string"}));
                }
                json!({"type": "object", "properties": p})
            })
            .collect();
        let ctx = Ctx { case: true, ..Ctx::default() };
        let mut ops: Vec<Op> = (0..n).map(|d| convert(d, &ctx, r.coin())).collect();
        for w in alike(r) {
            ops.push(Op::Snake { name: w });
        }
        Calls { docs, ops }
    }
}

pub fn few(r: &mut Rng) -> Policy {
    let horizon = *r.pick(&[300usize, 1000, 3000, 10_000, 30_000]);
    let mut at: Vec<u64> = (0..r.range(1, 4)).map(|_| 1 + r.below(horizon) as u64).collect();
    at.sort();
    at.dedup();
    Policy::Few { seed: r.u64() >> 12, at }
}

pub fn policy(r: &mut Rng) -> Policy {
    match r.below(12) {
        0..=2 => few(r),
        3..=5 => Policy::Shared { seed: r.u64() >> 12, one_in: *r.pick(&[1u64, 2, 2, 3, 6, 15]) },
        6..=8 => Policy::Random { seed: r.u64() >> 12, gap: *r.pick(&[1, 2, 4, 10, 30, 100, 300, 1000, 4000]) },
        _ => Policy::Traps { seed: r.u64() >> 12, one_in: *r.pick(&[10u64, 40, 150, 150, 500, 1500]), most: *r.pick(&[1u64, 1, 2, 5, 40]) },
    }
}

pub fn gen(r: &mut Rng, prop: &str) -> LibCase {
    let serial = match prop {
        "C05" => true,
        "C07" => false,
        _ => r.coin(),
    };
    let mut repeat = 1;
    let mut failing = vec![];
    let calls = match prop {
        "C08" => patterns(r, prop),
        "C06" if r.chance(2, 3) => {
            let (c, f) = failures(r);
            failing = f;
            if serial && r.coin() {
                repeat = {
                    let most = *r.pick(&[4, 20, 80, 300]);
                    r.range(2, most)
                };
            }
            c
        }
        _ if serial && r.chance(1, 40) => {
            let wide = r.coin();
            repeat = if wide { r.range(1, 6) } else { r.range(20, 300) };
            long(r, wide)
        }
        _ => match r.below(7) {
            0 => patterns(r, prop),
            1 | 2 => options(r),
            3 => names(r),
            4 => nested(r),
            _ => contents(r),
        },
    };
    let nthreads = if serial { r.range(1, 3) } else { r.range(2, 4) };
    let mut threads = Vec::new();
    for t in 0..nthreads {
        let n = if serial { r.range(3, 12) } else { r.range(1, 3) };
        // A thread mostly makes one call, the others make others.
        let main = if r.chance(3, 4) { t % calls.ops.len() } else { r.below(calls.ops.len()) };
        let loyal = *r.pick(&[0u64, 2, 3, 4]);
        let mut ops = Vec::new();
        for _ in 0..n {
            if !failing.is_empty() && r.coin() {
                let f = r.pick(&failing).clone();
                let k = if r.coin() { repeat } else { 1 };
                ops.extend(vec![f; k]);
            }
            let one = if r.chance(loyal, 4) { calls.ops[main].clone() } else { r.pick(&calls.ops).clone() };
            ops.push(one);
        }
        if failing.is_empty() && repeat > 1 {
            let once = ops.clone();
            for _ in 1..repeat {
                ops.extend(once.iter().cloned());
            }
            ops.truncate(2000);
        }
        threads.push(Thr { hash: r.u64() >> 12, ops });
    }
    let policy = if serial {
        let mut order: Vec<usize> = threads.iter().enumerate().flat_map(|(k, t)| vec![k; t.ops.len()]).collect();
        if r.chance(1, 2) {
            r.shuffle(&mut order);
        }
        Policy::Serial(order)
    } else {
        policy(r)
    };
    let mut log_level = if r.chance(1, 3) { r.below(6) as u8 } else { 0 };
    let mut log_panics = vec![];
    if prop == "C06" && r.chance(1, 2) && repeat == 1 {
        log_level = r.range(2, 5) as u8;
        for _ in 0..r.range(1, 3) {
            log_panics.push(r.heavy(0, 40) as u64);
        }
    }
    LibCase {
        docs: calls.docs,
        threads,
        policy,
        clock: if r.chance(1, 4) { clock(r) } else { Clock::default() },
        log_level,
        log_panics,
        heap_seed: if r.chance(1, 6) { r.u64() >> 12 } else { 0 },
        env_seed: 0,
    }
}

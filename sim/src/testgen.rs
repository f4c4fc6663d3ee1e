//! C17: the real build step over a scratch folder of test suites.

use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

use crate::campaign::{fnv, simpler_json, Env, Verdict};
use crate::cli_checks;
use crate::gen::{self, Focus};
use crate::rng::Rng;
use crate::shim::{self, Launch, Plan, Ran, Stdin, ALWAYS};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct GenCase {
    /// Name and suite; how it is laid out in the file.
    pub files: Vec<(String, Value, u8)>,
    pub dotfiles: Vec<String>,
    pub format: Option<String>,
    pub backup: Option<String>,
    pub plan: Plan,
    /// Directory orders of the undisturbed, the faulty and the repeated run.
    pub orders: [u64; 3],
}

const TRUE: &[&str] = &["1", "true", "y", "YES", "t", "True"];
const FALSE: &[&str] = &["0", "false", "no", "", "off", "truee"];

fn truthy(v: &Option<String>, default: bool) -> bool {
    v.as_ref().map_or(default, |s| ["y", "yes", "t", "true", "1"].contains(&s.to_lowercase().as_str()))
}

fn suite(r: &mut Rng, name: &str) -> Value {
    let n = r.heavy(0, 5);
    let tests: Vec<Value> = (0..n)
        .map(|k| {
            let d = loop {
                let d = gen::doc(r, Focus::General);
                if d.to_string().len() < 4000 {
                    break d;
                }
            };
            let mut t = Map::new();
            let mut test = json!({"avro": r.pick(&[json!({"type": "string"}), json!(null), d.clone()]), "bigquery": r.pick(&[json!([]), json!([{"name": "root", "type": "STRING", "mode": "REQUIRED"}]), json!(null)]), "json": d});
            if r.chance(1, 3) {
                test["context"] = r.pick(&[json!(null), json!({"normalize_case": true, "resolve_method": "Drop"}), json!({})]).clone();
            }
            t.insert("test".into(), test);
            t.insert("name".into(), json!(format!("{}_{k}_{}", name.replace(|c: char| !c.is_ascii_alphanumeric(), "_"), gen::word(r))));
            if r.coin() {
                t.insert("compatible".into(), json!(r.coin()));
            }
            if r.coin() {
                t.insert("description".into(), r.pick(&[json!("text"), json!(["a", "b"]), json!(null), json!("é\n\"q\"")]).clone());
            }
            Value::Object(t)
        })
        .collect();
    let mut s = json!({"name": name, "tests": tests});
    if r.coin() {
        s["description"] = r.pick(&[json!("suite"), json!(["x"]), json!(null)]).clone();
    }
    s
}

pub fn gen(r: &mut Rng) -> GenCase {
    let pool = ["a.json", "b.json", "B.json", "allof.json", "map.json", "test-one-of.json", "z1.json", "z10.json", "z2.json", "_x.json", "é.json"];
    let mut names: Vec<&str> = pool.to_vec();
    r.shuffle(&mut names);
    let n = r.range(1, 6);
    let files = names[..n].iter().map(|n| (n.to_string(), suite(r, n.trim_end_matches(".json")), r.below(3) as u8)).collect();
    let dotfiles = [".a.json", ".b.json.swp", ".DS_Store"].iter().filter(|_| r.chance(1, 4)).map(|s| s.to_string()).collect();
    let flag = |r: &mut Rng| match r.below(5) {
        0 => None,
        1 | 2 => Some(r.pick(TRUE).to_string()),
        _ => Some(r.pick(FALSE).to_string()),
    };
    let format = flag(r);
    let backup = flag(r);
    let mut plan = Plan { mode: 1, hash_seed: r.u64() >> 12, ..Plan::default() };
    let small = |r: &mut Rng| (0..r.range(1, 6)).map(|_| r.range(1, 900) as u32).collect::<Vec<_>>();
    if r.coin() {
        plan.input.chunks = small(r);
        plan.output.chunks = small(r);
    }
    if r.coin() {
        plan.input.eintr = (0..r.below(6)).map(|_| r.heavy(0, 30) as u32).collect();
        plan.output.eintr = (0..r.below(6)).map(|_| r.heavy(0, 60) as u32).collect();
    }
    match r.below(8) {
        0 => {
            plan.input.err_at = r.heavy(0, 9000) as i64;
            plan.input.err_no = *r.pick(&[libc::EIO, libc::ESTALE, libc::ENOMEM]);
            plan.input.err_count = if r.coin() { ALWAYS } else { 1 };
        }
        1 | 2 => {
            plan.output.err_at = r.heavy(0, 30000) as i64;
            plan.output.err_no = *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, 0]);
            plan.output.err_count = if r.coin() { ALWAYS } else { 1 };
        }
        3 => {
            plan.malloc_fail_at = r.heavy(0, 5000) as i64;
            plan.malloc_fail_count = ALWAYS;
        }
        4 | 5 | 6 => {
            plan.kill_at = r.heavy(0, 120) as i64;
            plan.kill_when = r.below(3) as u32;
            plan.kill_sig = *r.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGINT]);
        }
        _ => {}
    }
    GenCase { files, dotfiles, format, backup, plan, orders: [r.u64() >> 12 | 1, r.u64() >> 12 | 1, r.u64() >> 12 | 1] }
}

fn text(f: &(String, Value, u8)) -> Vec<u8> {
    match f.2 {
        0 => serde_json::to_vec(&f.1).unwrap(),
        1 => serde_json::to_vec_pretty(&f.1).unwrap(),
        _ => format!("\n{}  \n\n", f.1).into_bytes(),
    }
}

type Files = BTreeMap<String, Vec<u8>>;

fn setup(env: &mut Env, c: &GenCase) -> PathBuf {
    let w = env.world();
    let d = w.dir.join("gen");
    let _ = std::fs::remove_dir_all(&d);
    let t = d.join("tests/resources/translate");
    std::fs::create_dir_all(&t).expect("mkdir");
    for p in [&t, &d.join("tests/resources"), &d.join("tests"), &d] {
        shim::chown(p, w.uid);
    }
    let put = |n: &str, b: &[u8]| {
        std::fs::write(t.join(n), b).expect("write resource");
        shim::chown(&t.join(n), w.uid);
    };
    for f in &c.files {
        put(&f.0, &text(f));
    }
    for n in &c.dotfiles {
        put(n, b"not a suite");
    }
    d
}

fn snapshot(d: &Path) -> Files {
    fn go(d: &Path, pre: &str, m: &mut Files) {
        for e in std::fs::read_dir(d).expect("list").flatten() {
            let n = format!("{pre}{}", e.file_name().to_string_lossy());
            if e.file_type().unwrap().is_dir() {
                go(&e.path(), &format!("{n}/"), m);
            } else {
                m.insert(n, std::fs::read(e.path()).unwrap_or_default());
            }
        }
    }
    let mut m = Files::new();
    go(d, "", &mut m);
    m
}

fn run(env: &mut Env, c: &GenCase, d: &Path, plan: &Plan) -> Ran {
    let w = env.world();
    let mut ev = w.base_env();
    for (k, v) in [("FORMAT_TESTS", &c.format), ("FORMAT_TESTS_BACKUP", &c.backup)] {
        if let Some(v) = v {
            ev.push((k.into(), v.clone()));
        }
    }
    let r = w.run(&Launch { exe: &w.dir.join("bin/testgen"), argv: vec![b"build-script-build".to_vec()], env: ev, cwd: d, stdin: Stdin::Empty, input_file: None, closed: 0, plan });
    env.note_cli(&r);
    r
}

fn differ(a: &Files, b: &Files, skip: impl Fn(&str) -> bool) -> Option<String> {
    for k in a.keys().chain(b.keys()) {
        if !skip(k) && a.get(k) != b.get(k) {
            let len = |m: &Files| m.get(k).map_or("absent".to_string(), |x| format!("{} bytes", x.len()));
            return Some(format!("{k} ({} instead of {})", len(b), len(a)));
        }
    }
    None
}

const RES: &str = "tests/resources/translate/";

pub fn judge(c: &GenCase, env: &mut Env) -> Verdict {
    let plain = |k: usize| Plan { mode: 1, dir_seed: c.orders[k], hash_seed: c.plan.hash_seed ^ k as u64, ..Plan::default() };
    let (format, backup) = (truthy(&c.format, true), truthy(&c.backup, false));
    let err = |r: &Ran| String::from_utf8_lossy(&r.stderr[..r.stderr.len().min(160)]).replace('\n', " ");

    let d = setup(env, c);
    let orig = snapshot(&d);
    env.quiet_counts = true;
    let u = run(env, c, &d, &plain(0));
    env.quiet_counts = false;
    if !u.ok() {
        return Verdict::Violated(format!("an undisturbed run over well-formed suites ends with {}: {}", u.ending(), err(&u)));
    }
    let want = snapshot(&d);
    // The same again on what the first run left.
    let is_bak = |k: &str| k.ends_with(".bak");
    env.quiet_counts = true;
    let u = run(env, c, &d, &plain(1));
    env.quiet_counts = false;
    if !u.ok() {
        return Verdict::Violated(format!("a second run ends with {}: {}", u.ending(), err(&u)));
    }
    if let Some(x) = differ(&want, &snapshot(&d), is_bak) {
        return Verdict::Violated(format!("a second run changes {x}"));
    }

    let d = setup(env, c);
    let r = run(env, c, &d, &Plan { dir_seed: c.orders[1], ..c.plan.clone() });
    let got = snapshot(&d);
    if r.hang {
        return Verdict::Violated(format!("the build step did not end: stopped after {} I/O events", r.events));
    }
    let hard = r.err.iter().sum::<u64>() + r.open_err + r.malloc_fail;
    if r.ok() {
        if r.err[0] + r.err[1] > 0 {
            return Verdict::Violated(format!("{} I/O calls failed, but the build step exited 0", r.err[0] + r.err[1]));
        }
        if let Some(x) = differ(&want, &got, |_| false) {
            return Verdict::Violated(format!("another directory order, short and interrupted I/O change {x}"));
        }
    } else {
        if hard == 0 && r.killed == 0 {
            return Verdict::Violated(format!("the build step ended with {} although nothing failed: {}", r.ending(), err(&r)));
        }
        // Nothing is lost: each resource is whole, or its backup is.
        let mut restored = true;
        for f in &c.files {
            let k = format!("{RES}{}", f.0);
            let whole = |b: Option<&Vec<u8>>| b.is_some() && (b == orig.get(&k) || b == want.get(&k));
            if whole(got.get(&k)) {
                continue;
            }
            let bak = got.get(&format!("{k}.bak"));
            if format && backup && whole(bak) {
                std::fs::write(d.join(&k), bak.unwrap()).expect("restore");
            } else if format && !backup {
                restored = false;
            } else {
                return Verdict::Violated(format!("after {} neither {} nor its backup is whole", r.ending(), f.0));
            }
        }
        if restored {
            let again = run(env, c, &d, &plain(2));
            if !again.ok() {
                return Verdict::Violated(format!("after {} another run ends with {}: {}", r.ending(), again.ending(), err(&again)));
            }
            let now = snapshot(&d);
            if let Some(x) = differ(&want, &now, is_bak) {
                return Verdict::Violated(format!("after {} another run gives a different {x}", r.ending()));
            }
            for (k, b) in &now {
                if let Some(f) = k.strip_suffix(".bak") {
                    if orig.get(f) != Some(b) && want.get(f) != Some(b) {
                        return Verdict::Violated(format!("after {} and another run {k} is not a whole copy", r.ending()));
                    }
                }
            }
        }
    }
    let nontrivial = hard + r.killed + r.short[0] + r.short[1] + r.eintr[0] + r.eintr[1] > 0 || c.files.len() > 2;
    Verdict::Held { nontrivial, key: fnv(&format!("{:?}{:?}{:?}", c.files, c.format, c.backup)) ^ r.log_hash ^ c.orders[1] }
}

pub fn simpler(c: &GenCase) -> Vec<GenCase> {
    let mut v = Vec::new();
    for k in 0..c.files.len() {
        if c.files.len() > 1 {
            let mut q = c.clone();
            q.files.remove(k);
            v.push(q);
        }
    }
    if !c.dotfiles.is_empty() {
        v.push(GenCase { dotfiles: vec![], ..c.clone() });
    }
    v.extend(cli_checks::simpler_plan(&c.plan).into_iter().map(|plan| GenCase { plan, ..c.clone() }));
    for f in [None, Some("false".to_string())] {
        if c.format != f {
            v.push(GenCase { format: f.clone(), ..c.clone() });
        }
        if c.backup != f {
            v.push(GenCase { backup: f.clone(), ..c.clone() });
        }
    }
    for k in 0..c.files.len() {
        if let Some(ts) = c.files[k].1["tests"].as_array() {
            for j in 0..ts.len() {
                let mut q = c.clone();
                q.files[k].1["tests"].as_array_mut().unwrap().remove(j);
                v.push(q);
                for x in simpler_json(&ts[j]["test"]["json"]).into_iter().take(20) {
                    let mut q = c.clone();
                    q.files[k].1["tests"][j]["test"]["json"] = x;
                    v.push(q);
                }
            }
        }
        if c.files[k].2 != 0 {
            let mut q = c.clone();
            q.files[k].2 = 0;
            v.push(q);
        }
    }
    v
}

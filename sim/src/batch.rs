//! C16: the real batch script over a scratch tree, with the programs it starts behind a seam.

use std::collections::{BTreeMap, BTreeSet};
use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::campaign::{fnv, simpler_ctx, simpler_json, Env, Verdict};
use crate::cli_checks::{self, flags};
use crate::gen::{self, Ctx};
use crate::rng::Rng;
use crate::shim::{self, Launch, Plan, Stdin, Stream, ALWAYS};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Schema {
    /// Below schemas/.
    pub path: String,
    pub doc: Value,
    /// Cut the file after this many bytes.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cut: Option<usize>,
    #[serde(default)]
    pub plan: Plan,
}
impl Schema {
    fn bytes(&self) -> Vec<u8> {
        let mut b = serde_json::to_vec(&self.doc).unwrap();
        if let Some(c) = self.cut {
            b.truncate(c);
        }
        b
    }
    fn ns(&self) -> &str {
        self.path.rsplit('/').nth(2).unwrap_or("schemas")
    }
    /// The output file's name is longer than a file name can be.
    fn unstorable(&self) -> bool {
        self.file().len() > 255
    }
    fn file(&self) -> String {
        format!("{}.{}", self.ns(), self.path.rsplit('/').next().unwrap())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct BatchCase {
    pub schemas: Vec<Schema>,
    /// None: no arguments at all (the folder is then "avro").
    pub outdir: Option<String>,
    pub ctx: Ctx,
    pub avro: bool,
    pub spelling: u64,
    /// Files in the output folder before the run; None = no such folder.
    pub stale: Option<Vec<(String, String)>>,
    pub noise: Vec<String>,
    pub find_seed: u64,
    /// Kill the whole script at event `kill % events`, then run it again.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kill: Option<u32>,
    pub from_elsewhere: bool,
}

pub fn gen(r: &mut Rng, env: &mut Env) -> BatchCase {
    let n = match r.below(8) {
        0 => r.below(2),
        1 => r.range(7, 12),
        _ => r.range(2, 6),
    };
    let kill = if r.chance(2, 5) { Some((r.u64() >> 40) as u32) } else { None };
    let mut seen = BTreeSet::new();
    let mut schemas: Vec<Schema> = Vec::new();
    let ctx = Ctx { regex: None, ..gen::ctx(r) };
    let avro = r.coin();
    for _ in 0..n {
        let ns = *r.pick(&["telemetry", "a", "org-mozilla-x", "ns_2", "A", "eng.workflow"]);
        let ty = *r.pick(&["main", "event", "core", "baseline", "a", "x-y"]);
        let v = r.range(1, 3);
        let deep = r.chance(1, 8);
        // A name that no folder can hold: the schema's file cannot be created.
        let (ns, ty) = if r.chance(1, 10) && !schemas.iter().any(|s| s.unstorable()) { (format!("{ns}-{}", "n".repeat(r.range(120, 180))), format!("{ty}-{}", "t".repeat(r.range(125, 180)))) } else { (ns.to_string(), ty.to_string()) };
        let path = if deep { format!("extra/{ns}/{ty}/{ty}.{v}.schema.json") } else { format!("{ns}/{ty}/{ty}.{v}.schema.json") };
        if !seen.insert(format!("{ns}.{ty}.{v}")) {
            continue;
        }
        let mut doc = if r.chance(1, 3) && !schemas.is_empty() { schemas[r.below(schemas.len())].doc.clone() } else { cli_checks::doc(r) };
        if doc.to_string().len() > 60_000 {
            doc = serde_json::json!({"type": "object", "properties": {"a": {"type": "integer"}}});
        }
        let mut s = Schema { path, doc, cut: None, plan: Plan { hash_seed: r.u64() >> 12, ..Plan::default() } };
        let len = s.bytes().len();
        let out = |r: &mut Rng, env: &mut Env, s: &Schema| {
            let b = baseline(env, &ctx, avro, s);
            (b.stdout.len().max(1), b.events.max(1), b.mallocs.max(1), r.u64())
        };
        match r.below(12) {
            0 => s.cut = Some(r.below(len)),
            1 => {
                // the disk is full
                let (l, _, _, x) = out(r, env, &s);
                s.plan.output = Stream { err_at: (x % l as u64) as i64, err_no: *r.pick(&[libc::ENOSPC, libc::EDQUOT, libc::EIO]), err_count: ALWAYS, ..Stream::default() };
                if r.coin() {
                    s.plan.output.chunks = vec![r.range(1, 900) as u32];
                }
            }
            2 | 3 => {
                let (_, e, _, x) = out(r, env, &s);
                s.plan.kill_at = if r.coin() { e as i64 - 1 } else { (x % e) as i64 };
                s.plan.kill_sig = *r.pick(&[libc::SIGKILL, libc::SIGTERM, libc::SIGSEGV, libc::SIGABRT]);
                s.plan.kill_when = r.below(3) as u32;
            }
            4 => {
                s.plan.input.err_at = r.below(len + 1) as i64;
                s.plan.input.err_no = libc::EIO;
                s.plan.input.err_count = ALWAYS;
            }
            5 => s.plan.open_errno = *r.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE]),
            6 => {
                let (_, _, m, x) = out(r, env, &s);
                s.plan.malloc_fail_at = (x % m) as i64;
                s.plan.malloc_fail_count = ALWAYS;
            }
            7 => {
                s.plan.input.chunks = vec![r.range(1, 300) as u32];
                s.plan.output.chunks = vec![r.range(1, 300) as u32];
                s.plan.input.eintr = vec![0, 1];
                s.plan.output.eintr = vec![0];
            }
            _ => {}
        }
        schemas.push(s);
    }
    let outdir = if r.chance(1, 8) { None } else { Some(r.pick(&["out", "bq", "avro", "integration", "out-1", "schemas-out", "./o"]).to_string()) };
    let stale = if r.coin() {
        let mut v = vec![("junk.txt".to_string(), "old".to_string())];
        for s in &schemas {
            if r.coin() {
                if !s.unstorable() {
                    v.push((s.file(), "[]\n".into()));
                }
            }
        }
        if r.chance(1, 3) {
            v.push(("gone.old.1.schema.json".into(), "{}".into()));
        }
        Some(v)
    } else {
        None
    };
    let noise = ["README.md", "telemetry/main/main.1.parquetmr.txt", "telemetry/main/schema.json", "a/a/x.schema.json.bak", "metadata.toml"].iter().filter(|_| r.chance(1, 4)).map(|s| s.to_string()).collect();
    BatchCase { schemas, outdir, ctx, avro, spelling: if r.coin() { r.u64() >> 12 | 1 } else { 0 }, stale, noise, find_seed: r.u64() >> 12, kill, from_elsewhere: r.chance(1, 4) }
}

/// The command alone on this schema, fault-free, with the same hash seed.
pub fn baseline(env: &mut Env, ctx: &Ctx, avro: bool, s: &Schema) -> shim::Ran {
    env.quiet_counts = true;
    let b = s.bytes();
    let w = env.world();
    let exe = w.dir.join("bin/jsonschema-transpiler");
    let f = w.dir.join("in/batch.schema.json");
    std::fs::write(&f, &b).expect("write input");
    let mut argv: Vec<Vec<u8>> = vec![b"jsonschema-transpiler".to_vec()];
    argv.extend(flags(ctx, avro, 0).into_iter().map(String::into_bytes));
    argv.push(f.as_os_str().as_bytes().to_vec());
    let plan = Plan { hash_seed: s.plan.hash_seed, ..Plan::default() };
    let r = w.run(&Launch { exe: &exe, argv, env: w.base_env(), cwd: &w.dir.join("cwd"), stdin: Stdin::Empty, input_file: Some(&f), closed: 0, plan: &plan });
    let _ = std::fs::remove_file(f);
    env.note_cli(&r);
    env.quiet_counts = false;
    r
}

const STUBBED: &[&str] = &["cargo", "find", "rm", "mkdir", "mv", "cp"];

struct Tree {
    root: PathBuf,
    tree: PathBuf,
    uid: u32,
}

pub fn mkdirs(p: &Path, top: &Path, uid: u32) {
    std::fs::create_dir_all(p).expect("mkdir");
    let mut q = p;
    while q.starts_with(top) {
        shim::chown(q, uid);
        q = q.parent().unwrap();
    }
}

impl Tree {
    fn new(env: &mut Env, c: &BatchCase) -> Tree {
        let w = env.world();
        let root = w.dir.join("batch");
        let _ = std::fs::remove_dir_all(&root);
        let t = Tree { tree: root.join("tree"), root, uid: w.uid };
        mkdirs(&t.root, &t.root, t.uid);
        for d in ["stubs", "plans", "tree/scripts", "tree/target/debug", "tree/schemas", "elsewhere"] {
            mkdirs(&t.root.join(d), &t.root, t.uid);
        }
        let stub = shim::verif().join("build/stub");
        std::fs::copy(&stub, t.root.join("stubs/stub")).expect("stub");
        for s in STUBBED {
            std::os::unix::fs::symlink("stub", t.root.join("stubs").join(s)).unwrap();
        }
        std::os::unix::fs::symlink("../../../stubs/stub", t.tree.join("target/debug/jsonschema-transpiler")).unwrap();
        std::fs::copy("/repo/scripts/mps-generate-schemas.sh", t.tree.join("scripts/mps-generate-schemas.sh")).expect("script");
        for s in &c.schemas {
            let p = t.tree.join("schemas").join(&s.path);
            mkdirs(p.parent().unwrap(), &t.root, t.uid);
            std::fs::write(&p, s.bytes()).expect("write schema");
        }
        for s in &c.noise {
            let p = t.tree.join("schemas").join(s);
            mkdirs(p.parent().unwrap(), &t.root, t.uid);
            std::fs::write(&p, "noise").expect("write noise");
        }
        t.stale(c);
        t
    }
    fn outdir(&self, c: &BatchCase) -> PathBuf {
        self.tree.join(c.outdir.as_deref().unwrap_or("avro"))
    }
    fn stale(&self, c: &BatchCase) {
        let d = self.outdir(c);
        let _ = std::fs::remove_dir_all(&d);
        if let Some(v) = &c.stale {
            mkdirs(&d, &self.root, self.uid);
            for (n, t) in v {
                std::fs::write(d.join(n), t).expect("write stale");
                shim::chown(&d.join(n), self.uid);
            }
        }
    }
    fn plan_path(&self, s: &Schema) -> PathBuf {
        let name = format!("schemas/{}", s.path).replace('/', "%");
        self.root.join("plans").join(&name[name.len().saturating_sub(240)..])
    }
    /// Fresh plans; `faults` = as the case says, else fault-free.
    fn plans(&self, c: &BatchCase, faults: bool, events: &[u64]) {
        for (s, e) in c.schemas.iter().zip(events) {
            let p = if faults { s.plan.clone() } else { Plan { hash_seed: s.plan.hash_seed, ..Plan::default() } };
            let f = self.plan_path(s);
            shim::plan_file(&f, &p, Some(&self.tree.join("schemas").join(&s.path)), (*e as u32).saturating_sub(1));
            shim::chown(&f, self.uid);
        }
    }
    /// One run of the script.
    fn run(&self, env: &mut Env, c: &BatchCase, kill_at: i64) -> Run {
        let mut argv = vec!["/bin/bash".to_string()];
        argv.push(if c.from_elsewhere { "../tree/scripts/mps-generate-schemas.sh".into() } else { "scripts/mps-generate-schemas.sh".into() });
        if let Some(o) = &c.outdir {
            argv.push(o.clone());
            argv.extend(flags(&c.ctx, c.avro, c.spelling));
        }
        let cwd = if c.from_elsewhere { self.root.join("elsewhere") } else { self.tree.clone() };
        let plans: Vec<PathBuf> = c.schemas.iter().map(|s| self.plan_path(s)).collect();
        run_script(env, &self.root, self.uid, &argv, &cwd, c.find_seed, kill_at, &plans)
    }
    fn listing(&self, c: &BatchCase) -> Option<BTreeMap<String, Vec<u8>>> {
        let mut m = BTreeMap::new();
        for e in std::fs::read_dir(self.outdir(c)).ok()?.flatten() {
            m.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default());
        }
        Some(m)
    }
}
impl Drop for Tree {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

/// One run of a script in the scratch folder `root`, with `root/stubs` first on PATH.
pub fn run_script(env: &mut Env, root: &Path, uid: u32, argv: &[String], cwd: &Path, find_seed: u64, kill_at: i64, plans: &[PathBuf]) -> Run {
    let ctl = root.join("ctl");
    let mut b = vec![0u8; 48];
    b[8..16].copy_from_slice(&kill_at.to_le_bytes());
    b[24..32].copy_from_slice(&find_seed.to_le_bytes());
    std::fs::write(&ctl, &b).expect("control file");
    let log = root.join("runs.log");
    std::fs::write(&log, b"").expect("log");
    shim::chown(&ctl, uid);
    shim::chown(&log, uid);
    let envp = [
        format!("PATH={}:/usr/bin:/bin", root.join("stubs").display()),
        format!("JST_BATCH={}", root.display()),
        format!("HOME={}", root.display()),
        "LC_ALL=C".into(),
    ];
    let cs = |v: &[String]| -> Vec<CString> { v.iter().map(|a| CString::new(a.clone()).unwrap()).collect() };
    let (a, e) = (cs(argv), cs(&envp));
    let ptrs = |v: &[CString]| -> Vec<*const libc::c_char> { v.iter().map(|x| x.as_ptr()).chain(std::iter::once(std::ptr::null())).collect() };
    let (ap, ep) = (ptrs(&a), ptrs(&e));
    let cwd = CString::new(cwd.as_os_str().as_bytes()).unwrap();
    let out = shim::memfd("script-out");
    let mut st = 0;
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::setpgid(0, 0);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
            libc::dup2(null, 0);
            libc::dup2(out, 201);
            libc::dup2(201, 1);
            libc::dup2(null, 2);
            libc::close_range(3, u32::MAX, 0);
            libc::signal(libc::SIGPIPE, libc::SIG_DFL);
            libc::alarm(200);
            if libc::chdir(cwd.as_ptr()) != 0 {
                libc::_exit(88);
            }
            shim::drop_privileges(uid);
            libc::execve(ap[0], ap.as_ptr(), ep.as_ptr());
            libc::_exit(89);
        }
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        libc::kill(-pid, libc::SIGKILL);
    }
    let text = String::from_utf8_lossy(&shim::drain(out)).into_owned();
    unsafe { libc::close(out) };
    let b = std::fs::read(&ctl).expect("control file");
    let word = |k: usize| u64::from_le_bytes(b[k * 8..k * 8 + 8].try_into().unwrap());
    let mut status: BTreeMap<String, i32> = BTreeMap::new();
    for l in std::fs::read_to_string(&log).unwrap_or_default().lines() {
        if let Some((p, s)) = l.rsplit_once('\t') {
            status.insert(p.replace('%', "/"), s.parse().unwrap_or(-1));
        }
    }
    env.count("script runs", 1);
    env.count("programs with a plan started by the script", status.len() as u64);
    env.count("program starts and ends of the script", word(0));
    env.count("fault/script killed", word(2));
    env.count("fault/directory order changed", word(4));
    env.count("removals outside the scratch tree refused", word(5));
    for p in plans {
        if let Some(r) = shim::plan_results(p) {
            env.note_cli(&r);
        }
    }
    if std::env::var_os("JST_TRACE").is_some() {
        eprintln!("script: {text:?} {status:?} events {} kill_at {kill_at} killed {}", word(0), word(2));
    }
    env.digest = crate::rng::mix(env.digest ^ fnv(&format!("{text}{status:?}{}", word(0))));
    Run { text, status, events: word(0), killed: word(2) > 0, st }
}

pub struct Run {
    pub text: String,
    pub status: BTreeMap<String, i32>,
    pub events: u64,
    pub killed: bool,
    pub st: i32,
}

/// What one undisturbed script run must have left.
fn wrong(c: &BatchCase, t: &Tree, r: &Run, base: &[shim::Ran]) -> Option<String> {
    if r.st != 0 && libc::WIFSIGNALED(r.st) {
        return Some(format!("the script ended with signal {}", libc::WTERMSIG(r.st)));
    }
    let Some(mut files) = t.listing(c) else { return Some("the output folder does not exist".into()) };
    let mut failed = BTreeSet::new();
    for (s, b) in c.schemas.iter().zip(base) {
        let p = format!("schemas/{}", s.path);
        let code = match r.status.get(&p) {
            // There is nowhere to put the result, whatever the command says.
            _ if s.unstorable() => &1,
            Some(c) => c,
            None => return Some(format!("{p} was not attempted")),
        };
        let f = files.remove(&s.file());
        if *code != 0 {
            failed.insert(p.clone());
            if let Some(f) = f {
                return Some(format!("the conversion of {p} failed ({code}), but {} exists ({} bytes)", s.file(), f.len()));
            }
            continue;
        }
        match f {
            None => return Some(format!("the conversion of {p} succeeded, but {} does not exist", s.file())),
            Some(_) if !b.ok() => return Some(format!("{} exists, but the command fails on {p} when it is run alone", s.file())),
            Some(f) if f != b.stdout => return Some(format!("{} is not the command's complete output: {} bytes instead of {}", s.file(), f.len(), b.stdout.len())),
            _ => {}
        }
    }
    if let Some(f) = files.keys().next() {
        return Some(format!("the output folder also holds {f}"));
    }
    // the report: which ones failed, and how many did not
    let named: BTreeSet<String> = r.text.lines().filter(|l| l.contains("ailed")).flat_map(|l| l.split_whitespace()).filter(|x| x.ends_with(".schema.json")).map(clean_path).collect();
    if named != failed {
        return Some(format!("the script names {named:?} as failed, failed were {failed:?}"));
    }
    let want = format!("{}/{}", c.schemas.len() - failed.len(), c.schemas.len());
    let last = r.text.lines().last().unwrap_or("");
    if !last.split_whitespace().any(|w| w == want) {
        return Some(format!("the final count is {last:?}, right is {want}"));
    }
    None
}

fn clean_path(p: &str) -> String {
    let i = p.find("schemas/").unwrap_or(0);
    let mut q = p[i..].to_string();
    while q.contains("//") {
        q = q.replace("//", "/");
    }
    q
}

pub fn judge(c: &BatchCase, env: &mut Env) -> Verdict {
    // Without arguments the script gives the command no flags.
    let (ctx, avro) = if c.outdir.is_some() { (c.ctx.clone(), c.avro) } else { (Ctx::default(), true) };
    let base: Vec<shim::Ran> = c.schemas.iter().map(|s| baseline(env, &ctx, avro, s)).collect();
    let events: Vec<u64> = base.iter().map(|b| b.events).collect();
    let t = Tree::new(env, c);
    t.plans(c, true, &events);
    let r = t.run(env, c, -1);
    if let Some(w) = wrong(c, &t, &r, &base) {
        return Verdict::Violated(w);
    }
    env.count("fault/output files that cannot be created", c.schemas.iter().filter(|s| s.unstorable()).count() as u64);
    let mut fired: u64 = c.schemas.iter().filter(|s| r.status.get(&format!("schemas/{}", s.path)) != Some(&0)).count() as u64;
    if let Some(k) = c.kill {
        t.stale(c);
        t.plans(c, true, &events);
        let at = k as u64 % r.events.max(1);
        let x = t.run(env, c, at as i64);
        if !x.killed {
            return Verdict::Skipped("the script ended before the event at which it was to be killed");
        }
        fired += 1;
        t.plans(c, false, &events);
        let r = t.run(env, c, -1);
        if let Some(w) = wrong(c, &t, &r, &base) {
            return Verdict::Violated(format!("killed at event {at} and run again: {w}"));
        }
    }
    let key = fnv(&format!("{c:?}"));
    Verdict::Held { nontrivial: fired > 0, key }
}

pub fn simpler(c: &BatchCase) -> Vec<BatchCase> {
    let mut v = Vec::new();
    for k in 0..c.schemas.len() {
        let mut q = c.clone();
        q.schemas.remove(k);
        v.push(q);
    }
    if c.kill.is_some() {
        v.push(BatchCase { kill: None, ..c.clone() });
        for k in 0..20 {
            if c.kill > Some(k) {
                v.push(BatchCase { kill: Some(k), ..c.clone() });
            }
        }
    }
    if c.stale.is_some() {
        v.push(BatchCase { stale: None, ..c.clone() });
    }
    if !c.noise.is_empty() {
        v.push(BatchCase { noise: vec![], ..c.clone() });
    }
    if c.from_elsewhere {
        v.push(BatchCase { from_elsewhere: false, ..c.clone() });
    }
    if c.spelling != 0 {
        v.push(BatchCase { spelling: 0, ..c.clone() });
    }
    v.extend(simpler_ctx(&c.ctx).into_iter().map(|ctx| BatchCase { ctx, ..c.clone() }));
    for k in 0..c.schemas.len() {
        let s = &c.schemas[k];
        let mut with = |s: Schema| {
            let mut q = c.clone();
            q.schemas[k] = s;
            v.push(q);
        };
        for p in cli_checks::simpler_plan(&s.plan) {
            with(Schema { plan: p, ..s.clone() });
        }
        if s.cut.is_some() {
            with(Schema { cut: None, ..s.clone() });
        }
        for d in simpler_json(&s.doc).into_iter().take(40) {
            with(Schema { doc: d, ..s.clone() });
        }
    }
    v
}

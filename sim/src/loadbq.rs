//! C20: the real load script over a scratch tree and a simulated Google Cloud (sim/shim/stub.c).

use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

use serde::{Deserialize, Serialize};

use crate::batch::{mkdirs, run_script, Run};
use crate::campaign::{fnv, Env, Verdict};
use crate::rng::Rng;
use crate::shim;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct DataFile {
    /// namespace.doctype.version
    pub name: String,
    pub size: usize,
    /// BigQuery refuses it.
    #[serde(default)]
    pub bad: bool,
    /// An earlier version of it was uploaded.
    #[serde(default)]
    pub uploaded: bool,
    /// Its table is there from an earlier run.
    #[serde(default)]
    pub loaded: bool,
}
impl DataFile {
    fn bytes(&self) -> Vec<u8> {
        let mut b = b"Obj\x01".to_vec();
        b.extend(self.name.bytes().cycle().take(self.size));
        b.extend(if self.bad { b"!BAD" } else { b"sync" });
        b
    }
    fn table(&self) -> String {
        let n = self.name.replace('-', "_");
        let p: Vec<&str> = n.split('.').collect();
        format!("{}__{}_v{}", p[0], p[1], p[2])
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LoadCase {
    pub files: Vec<DataFile>,
    /// The value of SKIP_EXISTING.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub skip: Option<String>,
    /// Tables of other sets that are there.
    #[serde(default)]
    pub others: Vec<String>,
    /// The dataset is there from an earlier run.
    pub dataset: bool,
    /// What goes wrong: program or load, how many times, how.
    pub faults: Vec<(String, u32, String)>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub kill: Option<u32>,
    pub from_elsewhere: bool,
}

pub fn gen(r: &mut Rng, _env: &mut Env) -> LoadCase {
    let n = match r.below(8) {
        0 => r.below(2),
        1 => r.range(7, 14),
        _ => r.range(1, 6),
    };
    let mut tables = BTreeSet::new();
    let mut files: Vec<DataFile> = Vec::new();
    for _ in 0..n {
        let ns = *r.pick(&["telemetry", "a", "b-a", "org-mozilla-x", "eng_workflow", "z", "a-z", "Firefox", "my-avro", "xyz"]);
        let ty = *r.pick(&["main", "event", "a", "x-y", "x-main", "main-x", "avro", "bq"]);
        let name = format!("{ns}.{ty}.{}", r.pick(&["1", "2", "10", "11", "4"]));
        let f = DataFile { name, size: r.range(1, 60), bad: r.chance(1, 12), uploaded: r.chance(1, 3), loaded: r.chance(1, 3) };
        if tables.insert(f.table().to_lowercase()) {
            files.push(f);
        }
    }
    let others = (0..r.below(3)).map(|_| format!("{}__{}_v{}", r.pick(&["q", "b_z", "aa"]), r.pick(&["main", "x_a", "event"]), r.pick(&["1", "12"]))).collect();
    let mut faults = Vec::new();
    let k = if r.chance(1, 4) { 0 } else { r.range(1, 3) };
    for _ in 0..k {
        let how = r.pick(&["fail", "fail", "late", "kill"]).to_string();
        let times = if r.chance(1, 3) { 1 } else { 9999 };
        let f = match r.below(10) {
            0 => ("gcloud".into(), 9999, how),
            1 | 2 => ("gsutil".into(), times, if r.coin() { format!("part:{}", r.below(n + 1)) } else { how }),
            3 => ("rm".into(), times, how),
            4 => ("mk".into(), times, how),
            5 => ("ls".into(), r.range(1, 4) as u32, "fail".into()),
            _ if !files.is_empty() => (format!("load:{}", r.pick(&files).table()), times, how),
            _ => ("rm".into(), 1, how),
        };
        faults.push(f);
    }
    LoadCase {
        files,
        skip: if r.coin() { Some(r.pick(&["1", "true", ""]).to_string()) } else { None },
        others,
        dataset: r.chance(2, 3),
        faults,
        kill: if r.chance(1, 4) { Some((r.u64() >> 40) as u32) } else { None },
        from_elsewhere: r.chance(1, 4),
    }
}

const SCRIPT: &str = "scripts/mps-load-avro-bq.sh";
const DATASET: &str = "test_avro";
const BUCKET: &str = "gs://proj-1/data";

struct Tree {
    root: PathBuf,
    tree: PathBuf,
    uid: u32,
}

struct Load {
    table: String,
    uri: String,
    rc: i32,
    existed: bool,
}

impl Tree {
    fn new(env: &mut Env, c: &LoadCase) -> Tree {
        let w = env.world();
        let root = w.dir.join("batch");
        let _ = std::fs::remove_dir_all(&root);
        let t = Tree { tree: root.join("tree"), root, uid: w.uid };
        mkdirs(&t.root, &t.root, t.uid);
        for d in ["stubs", "plans", "tree/scripts", "tree/avro-data", "cloud/gs", "cloud/bq", "elsewhere"] {
            mkdirs(&t.root.join(d), &t.root, t.uid);
        }
        std::fs::copy(shim::verif().join("build/stub"), t.root.join("stubs/stub")).expect("stub");
        for s in ["gcloud", "gsutil", "bq", "find", "rm", "mkdir", "mv", "cp"] {
            std::os::unix::fs::symlink("stub", t.root.join("stubs").join(s)).unwrap();
        }
        std::fs::copy(Path::new("/repo").join(SCRIPT), t.tree.join(SCRIPT)).expect("script");
        let put = |p: PathBuf, b: &[u8]| {
            std::fs::write(&p, b).expect("write");
            shim::chown(&p, t.uid);
        };
        for f in &c.files {
            put(t.tree.join("avro-data").join(format!("{}.avro", f.name)), &f.bytes());
            if f.uploaded {
                put(t.root.join("cloud/gs").join(format!("proj-1%data%{}.avro", f.name)), b"Obj\x01 of an earlier day");
            }
        }
        if c.dataset {
            let d = t.root.join("cloud/bq").join(DATASET);
            mkdirs(&d, &t.root, t.uid);
            for n in c.others.iter().cloned().chain(c.files.iter().filter(|f| f.loaded).map(DataFile::table)) {
                put(d.join(n), b"Obj\x01 rows of an earlier day");
            }
        }
        t
    }
    fn run(&self, env: &mut Env, c: &LoadCase, faults: bool, kill_at: i64) -> Run {
        let cloud = self.root.join("cloud");
        for e in std::fs::read_dir(&cloud).unwrap().flatten() {
            if e.file_type().unwrap().is_file() {
                let _ = std::fs::remove_file(e.path());
            }
        }
        let plan: String = if faults { c.faults.iter().map(|(k, n, a)| format!("{k} {n} {a}\n")).collect() } else { String::new() };
        std::fs::write(cloud.join("plan"), plan).expect("plan");
        let mut argv = vec!["/usr/bin/env".to_string()];
        if let Some(v) = &c.skip {
            argv.push(format!("SKIP_EXISTING={v}"));
        }
        argv.push("/bin/bash".into());
        argv.push(if c.from_elsewhere { format!("../tree/{SCRIPT}") } else { SCRIPT.into() });
        let cwd = if c.from_elsewhere { self.root.join("elsewhere") } else { self.tree.clone() };
        let r = run_script(env, &self.root, self.uid, &argv, &cwd, 1, kill_at, &[]);
        for l in self.text("fired").lines() {
            let what = l.split([' ', ':']).next().unwrap_or("");
            env.count(&format!("fault/{} {}", if what == "load" { "bq load" } else { what }, l.rsplit(' ').next().unwrap().split(':').next().unwrap()), 1);
        }
        let loads = self.loads();
        env.count("tables loaded", loads.iter().filter(|l| l.rc == 0).count() as u64);
        env.count("loads refused", loads.iter().filter(|l| l.rc != 0).count() as u64);
        r
    }
    fn text(&self, f: &str) -> String {
        std::fs::read_to_string(self.root.join("cloud").join(f)).unwrap_or_default()
    }
    fn loads(&self) -> Vec<Load> {
        self.text("log")
            .lines()
            .filter_map(|l| {
                let f: Vec<&str> = l.strip_prefix("load ")?.split('\t').collect();
                Some(Load { table: f[0].into(), uri: f[1].into(), rc: f[2].parse().ok()?, existed: f[3] == "1" })
            })
            .collect()
    }
    fn held(&self, table: &str) -> Option<Vec<u8>> {
        std::fs::read(self.root.join("cloud/bq").join(DATASET).join(table)).ok()
    }

    fn wrong(&self, c: &LoadCase, r: &Run) -> Option<String> {
        if r.st != 0 && libc::WIFSIGNALED(r.st) {
            return Some(format!("the script ended with signal {}", libc::WTERMSIG(r.st)));
        }
        let fired: Vec<String> = self.text("fired").lines().map(|l| l.split(' ').next().unwrap().to_string()).collect();
        let setup = fired.iter().any(|f| matches!(f.as_str(), "gcloud" | "gsutil" | "rm" | "mk"));
        let loads = self.loads();
        let by_table: BTreeMap<String, &DataFile> = c.files.iter().map(|f| (f.table(), f)).collect();
        // every load is of one set's own object into its own table
        for l in &loads {
            let named = match by_table.get(&l.table) {
                Some(f) => l.uri == format!("{BUCKET}/{}.avro", f.name) || (fired.iter().any(|f| f == "gcloud") && l.uri.ends_with(&format!("/{}.avro", f.name))),
                None => false,
            };
            if !named {
                return Some(format!("{} is loaded into table {}", l.uri, l.table));
            }
        }
        let (mut good, mut tried, mut left) = (0, 0, Vec::new());
        for f in &c.files {
            let t = f.table();
            let Some(l) = loads.iter().filter(|l| l.table == t).last() else {
                left.push(f);
                continue;
            };
            tried += 1;
            if l.rc == 0 {
                good += 1;
                if self.held(&t) != Some(f.bytes()) {
                    return Some(format!("table {t} is counted as loaded, but does not hold the data of {}.avro", f.name));
                }
            } else if !setup && !f.bad && !fired.contains(&format!("load:{t}")) {
                return Some(format!("the load of {} failed ({}) although nothing went wrong", f.name, l.rc));
            }
            if c.skip.is_some() && l.existed && loads.iter().filter(|l| l.table == t).count() == 1 && !fired.iter().any(|f| f == "ls") {
                return Some(format!("{} was loaded although its table was there and SKIP_EXISTING is set", f.name));
            }
        }
        // the count
        let mut count = None;
        for l in r.text.lines() {
            let w: Vec<&str> = l.split(|c: char| c.is_whitespace() || c == ',').filter(|x| !x.is_empty()).collect();
            let ratio = w.iter().find_map(|x| {
                let (a, b) = x.split_once('/')?;
                Some((a.parse::<i64>().ok()?, b.parse::<i64>().ok()?))
            });
            let skipped = w.iter().position(|x| x.starts_with("skipped")).and_then(|i| w.get(i.checked_sub(1)?)?.parse::<i64>().ok());
            if let (Some((a, b)), Some(k)) = (ratio, skipped) {
                count = Some((a, b, k));
            }
        }
        let Some((a, b, k)) = count else {
            if setup || (c.files.is_empty() && r.st != 0) {
                return None; // gave up, and says nothing
            }
            return Some(format!("the script ended without a count ({} of {} sets tried)", tried, c.files.len()));
        };
        for f in &left {
            if c.skip.is_none() {
                return Some(format!("{} was not loaded", f.name));
            }
            if self.held(&f.table()).is_none() {
                return Some(format!("{} was skipped, but there is no table {}", f.name, f.table()));
            }
        }
        if (a, b, k) != (good, tried, left.len() as i64) {
            return Some(format!("the script counts {a}/{b} loaded and {k} skipped; {good} of {tried} loads succeeded and {} sets were left out", left.len()));
        }
        None
    }
}
impl Drop for Tree {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.root);
    }
}

pub fn judge(c: &LoadCase, env: &mut Env) -> Verdict {
    const LACKS: Verdict = Verdict::Skipped("the script uses a part of gcloud, gsutil or bq that the stand-in lacks");
    let t = Tree::new(env, c);
    let mut fired = false;
    if let Some(k) = c.kill {
        let probe = t.run(env, c, true, -1);
        if t.root.join("stub-lacks").exists() {
            return LACKS;
        }
        if let Some(w) = t.wrong(c, &probe) {
            return Verdict::Violated(w);
        }
        drop(t);
        let t = Tree::new(env, c);
        let at = k as u64 % probe.events.max(1);
        let x = t.run(env, c, true, at as i64);
        if !x.killed {
            return Verdict::Skipped("the script ended before the event at which it was to be killed");
        }
        let r = t.run(env, c, false, -1);
        return match t.wrong(c, &r) {
            Some(w) => Verdict::Violated(format!("killed at event {at} and run again: {w}")),
            None => Verdict::Held { nontrivial: true, key: fnv(&format!("{c:?}")) },
        };
    }
    let r = t.run(env, c, true, -1);
    if t.root.join("stub-lacks").exists() {
        return LACKS;
    }
    if let Some(w) = t.wrong(c, &r) {
        return Verdict::Violated(w);
    }
    fired |= !t.text("fired").is_empty() || c.skip.is_some() || c.files.iter().any(|f| f.bad);
    Verdict::Held { nontrivial: fired, key: fnv(&format!("{c:?}")) }
}

pub fn simpler(c: &LoadCase) -> Vec<LoadCase> {
    let mut v = Vec::new();
    let mut with = |f: &dyn Fn(&mut LoadCase)| {
        let mut q = c.clone();
        f(&mut q);
        if q != *c {
            v.push(q);
        }
    };
    for k in 0..c.files.len() {
        with(&|q| drop(q.files.remove(k)));
    }
    for k in 0..c.faults.len() {
        with(&|q| drop(q.faults.remove(k)));
    }
    with(&|q| q.kill = None);
    with(&|q| q.skip = None);
    with(&|q| q.others.clear());
    with(&|q| q.dataset = false);
    with(&|q| q.from_elsewhere = false);
    for k in 0..c.files.len() {
        with(&|q| q.files[k].bad = false);
        with(&|q| q.files[k].uploaded = false);
        with(&|q| q.files[k].loaded = false);
        with(&|q| q.files[k].size = 1);
    }
    if let Some(n) = c.kill {
        for m in 0..n.min(24) {
            with(&|q| q.kill = Some(m));
        }
    }
    v
}

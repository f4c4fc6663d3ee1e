//! Runs one simulated execution of the library in a forked, pristine process.

use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::*;
use std::sync::OnceLock;

use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::gen::Ctx;
use crate::rt::{self, SimThread};
use crate::sched::{Clock, Inner, Policy, Sched};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Op {
    Convert { doc: usize, ctx: Ctx, avro: bool },
    Snake { name: String },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Thr {
    pub hash: u64,
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct LibCase {
    pub docs: Vec<Value>,
    pub threads: Vec<Thr>,
    pub policy: Policy,
    #[serde(default)]
    pub clock: Clock,
    /// 0 off .. 5 trace
    #[serde(default)]
    pub log_level: u8,
    #[serde(default)]
    pub log_panics: Vec<u64>,
    #[serde(default)]
    pub heap_seed: u64,
    /// What unset environment variables answer: 0 nothing.
    #[serde(default)]
    pub env_seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Eq)]
#[serde(rename_all = "snake_case")]
pub enum Out {
    Ok(String),
    /// The call panicked.
    Reject,
    /// The injected failure of the log sink came out of the call.
    Injected,
}

impl Out {
    pub fn brief(&self) -> String {
        match self {
            Out::Ok(s) if s.len() > 300 => {
                let mut k = 300;
                while !s.is_char_boundary(k) {
                    k -= 1;
                }
                format!("{}...", &s[..k])
            }
            Out::Ok(s) => s.clone(),
            Out::Reject => "rejected (panic)".into(),
            Out::Injected => "injected log-sink failure".into(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct RunResult {
    pub outs: Vec<Vec<Option<Out>>>,
    /// Deadlock, livelock or crash of the whole process.
    pub abort: Option<String>,
    pub path: u64,
    pub steps: u64,
    pub switches: u64,
    pub statics: u64,
    pub blocks: u64,
    pub recorded: Vec<(u64, usize)>,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub sim_ns: i64,
    pub log_calls: u64,
    pub log_panics_fired: u64,
    pub env_reads: u64,
    pub spawned: u64,
}

impl RunResult {
    pub fn digest(&self) -> u64 {
        let mut h = self.path ^ self.steps;
        for o in self.outs.iter().flatten() {
            let s = match o {
                Some(Out::Ok(s)) => s.as_str(),
                Some(Out::Reject) => "R",
                Some(Out::Injected) => "I",
                None => "-",
            };
            for b in s.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001B3);
            }
            h = h.rotate_left(9);
        }
        h ^ self.abort.as_ref().map_or(0, |a| a.len() as u64)
    }
}

// ---- shared memory for results and reach ----

/// The results of a run do not fit; the run says nothing.
pub const TOO_LARGE: &str = "results too large";
const RES: usize = 48 << 20;
pub const COV_MAX: usize = 1 << 16;

static SH: OnceLock<(usize, usize)> = OnceLock::new();

fn shared() -> (*mut u8, *mut u8) {
    let (res, cov) = SH.get_or_init(|| {
        let m = |n| unsafe {
            let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
            assert!(p != libc::MAP_FAILED);
            p as *mut u8
        };
        let cov = m(COV_MAX);
        rt::COV.store(cov, SeqCst);
        rt::find_statics();
        (m(RES) as usize, cov as usize)
    });
    (*res as *mut u8, *cov as *mut u8)
}

pub fn coverage() -> (usize, usize) {
    let (_, cov) = shared();
    let n = rt::COV_N.load(SeqCst) as usize;
    let hit = (0..COV_MAX).filter(|i| unsafe { *cov.add(*i) } != 0).count();
    (hit, n)
}
pub fn coverage_ids() -> Vec<u32> {
    let (_, cov) = shared();
    (0..COV_MAX).filter(|i| unsafe { *cov.add(*i) } != 0).map(|i| i as u32).collect()
}

// ---- the log sink of the simulated application ----

struct Sink;
pub struct InjectedLogFailure;

impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool {
        true
    }
    fn log(&self, r: &log::Record) {
        let Some(t) = rt::me() else { return };
        // Formats the message, as a real sink does.
        let s = format!("{} {} {}", r.level(), r.target(), r.args());
        std::hint::black_box(&s);
        drop(s);
        if t.quiet.get() == 0 && unsafe { (*t.sched).log_call(t) } {
            std::panic::panic_any(InjectedLogFailure);
        }
    }
    fn flush(&self) {}
}

pub fn init() {
    log::set_logger(&Sink).unwrap();
    log::set_max_level(log::LevelFilter::Off);
    std::panic::set_hook(Box::new(|_| {}));
    shared();
    crate::gen::corpus();
}

// ---- the child ----

fn level(l: u8) -> log::LevelFilter {
    use log::LevelFilter::*;
    [Off, Error, Warn, Info, Debug, Trace][l.min(5) as usize]
}

fn perform(op: &Op, docs: &[Value], slot: &mut Value, quiet: impl Fn(bool)) -> Out {
    let r = match op {
        Op::Convert { doc, ctx, avro } => {
            // The caller hands over a document that lives where the previous one did.
            *slot = docs[*doc].clone();
            let c = ctx.to_jst();
            quiet(false);
            let r = catch_unwind(AssertUnwindSafe(|| if *avro { jst::convert_avro(slot, c) } else { jst::convert_bigquery(slot, c) }));
            quiet(true);
            r.map(|v| serde_json::to_string(&v).unwrap())
        }
        Op::Snake { name } => {
            quiet(false);
            let r = catch_unwind(AssertUnwindSafe(|| jst::casing::to_snake_case(name)));
            quiet(true);
            r
        }
    };
    match r {
        Ok(s) => Out::Ok(s),
        Err(e) if e.is::<InjectedLogFailure>() => Out::Injected,
        Err(_) => Out::Reject,
    }
}

static mut OUTS: *mut Vec<Vec<Option<Out>>> = std::ptr::null_mut();

fn collect(i: &Inner, abort: Option<String>) -> RunResult {
    RunResult {
        outs: unsafe { (*OUTS).clone() },
        abort,
        path: i.path,
        steps: i.step,
        switches: i.switches,
        statics: i.statics,
        blocks: i.blocks,
        recorded: i.recorded.clone(),
        clock_reads: i.clock_reads,
        clock_jumps: i.clock_jumps,
        sim_ns: i.clock_reads as i64 * i.clock.step_ns + i.slept_ns,
        log_calls: i.log_calls,
        log_panics_fired: i.log_panics_fired,
        env_reads: rt::ENV_READS.load(SeqCst),
        spawned: i.spawned,
    }
}

fn publish(r: &RunResult) -> ! {
    let (res, _) = shared();
    let b = serde_json::to_vec(r).unwrap();
    unsafe {
        let b = if b.len() + 8 <= RES {
            b
        } else {
            serde_json::to_vec(&RunResult { abort: Some(TOO_LARGE.into()), ..Default::default() }).unwrap()
        };
        {
            std::ptr::copy_nonoverlapping(b.as_ptr(), res.add(8), b.len());
            *(res as *mut u64) = b.len() as u64;
        }
        rt::raw6(libc::SYS_exit_group, 0, 0, 0, 0, 0, 0);
    }
    unreachable!()
}

fn aborted(why: &str, i: &Inner) -> ! {
    // The running thread holds the baton and is quiet.
    let r = collect(i, Some(why.to_string()));
    publish(&r)
}

fn child(case: &LibCase, cap: u64) -> ! {
    unsafe {
        // Processor time, so that a busy machine makes no difference; the alarm is for real waits.
        let lim = libc::rlimit { rlim_cur: 60, rlim_max: 61 };
        libc::setrlimit(libc::RLIMIT_CPU, &lim);
        libc::alarm(240);
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        let lim = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
        libc::setrlimit(libc::RLIMIT_AS, &lim);
    }
    log::set_max_level(level(case.log_level));
    rt::OUTSIDE_HASH.store(0x1234, SeqCst);
    rt::ENV_SEED.store(case.env_seed, SeqCst);
    let mut keep: Vec<Vec<u8>> = Vec::new();
    if case.heap_seed != 0 {
        let mut r = crate::rng::Rng::new(case.heap_seed);
        for _ in 0..64 {
            let n = r.range(16, 5000);
            keep.push(vec![1; n]);
        }
        r.shuffle(&mut keep);
        let n = r.range(0, 60);
        keep.truncate(n);
    }
    let n = case.threads.len();
    let mut outs: Vec<Vec<Option<Out>>> = case.threads.iter().map(|t| vec![None; t.ops.len()]).collect();
    unsafe { OUTS = &mut outs };
    let sched = Sched::new(n, case.policy.clone(), case.clock.clone(), case.log_panics.clone(), cap, aborted);
    std::thread::scope(|s| {
        let mut handles = Vec::new();
        for (id, thr) in case.threads.iter().enumerate() {
            let (sched, docs) = (&sched, &case.docs);
            let parked = sched.parked_word();
            let h = s.spawn(move || {
                let st = SimThread::new(id, sched, thr.hash);
                let mut slot = Box::new(Value::Null);
                rt::enter(&st);
                st.quiet.set(1);
                sched.parked(id);
                sched.start(id);
                for (k, op) in thr.ops.iter().enumerate() {
                    sched.op_boundary(&st);
                    let o = perform(op, docs, &mut slot, |on| st.quiet.set(on as u32));
                    unsafe { (&mut *OUTS)[id][k] = Some(o) };
                    st.quiet.set(0);
                    sched.event(&st, rt::EV_OP);
                    st.quiet.set(1);
                }
                sched.finish(&st);
                rt::leave();
            });
            handles.push(Some(h));
            sched.wait_parked(parked, id);
        }
        // One thread at a time, its teardown included.
        sched.run(|id| {
            if let Some(Some(h)) = handles.get_mut(id).map(Option::take) {
                let _ = h.join();
            }
        });
    });
    drop(keep);
    let inner = sched.into_inner();
    let r = collect(&inner, None);
    publish(&r)
}

/// Runs one case; the calling process must be single-threaded.
pub fn run(case: &LibCase, cap: u64) -> RunResult {
    let (res, _) = shared();
    unsafe {
        *(res as *mut u64) = 0;
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            child(case, cap);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let n = *(res as *const u64) as usize;
        if n == 0 {
            let why = if libc::WIFSIGNALED(st) {
                let sig = libc::WTERMSIG(st);
                if sig == libc::SIGALRM || sig == libc::SIGXCPU {
                    "hang (no progress)".to_string()
                } else {
                    format!("crash (signal {sig})")
                }
            } else {
                format!("crash (exit {})", libc::WEXITSTATUS(st))
            };
            return RunResult { abort: Some(why), ..Default::default() };
        }
        serde_json::from_slice(std::slice::from_raw_parts(res.add(8), n)).unwrap()
    }
}

/// Steps after which one call alone counts as endless.
pub const CAP: u64 = 40_000_000;

/// What one call gives as the only call of a fresh process.
pub fn solo(doc: Option<&Value>, op: &Op, hash: u64) -> Result<Out, String> {
    solo_steps(doc, op, hash).0
}

fn solo_steps(doc: Option<&Value>, op: &Op, hash: u64) -> (Result<Out, String>, u64) {
    let mut op = op.clone();
    if let Op::Convert { doc, .. } = &mut op {
        *doc = 0;
    }
    let c = LibCase {
        docs: doc.into_iter().cloned().collect(),
        threads: vec![Thr { hash, ops: vec![op] }],
        policy: Policy::Serial(vec![]),
        clock: Clock::default(),
        log_level: 0,
        log_panics: vec![],
        heap_seed: 0,
        env_seed: 0,
    };
    let r = run(&c, CAP);
    match r.abort {
        Some(a) => (Err(a), r.steps),
        None => (Ok(r.outs[0][0].clone().unwrap()), r.steps),
    }
}

#[derive(Default)]
pub struct Refs {
    memo: HashMap<String, (Result<Out, String>, u64)>,
    pub computed: u64,
}
impl Refs {
    /// The call's result alone, and the number of its steps.
    pub fn get(&mut self, docs: &[Value], op: &Op) -> (Result<Out, String>, u64) {
        let doc = match op {
            Op::Convert { doc, .. } => Some(&docs[*doc]),
            _ => None,
        };
        let key = match (op, doc) {
            (Op::Convert { ctx, avro, .. }, Some(d)) => format!("{:?}{avro}{d}", ctx),
            _ => format!("{:?}", op),
        };
        if let Some(o) = self.memo.get(&key) {
            return o.clone();
        }
        if self.memo.len() > 4000 {
            self.memo.clear();
        }
        self.computed += 1;
        let o = solo_steps(doc, op, 0xABCD);
        self.memo.insert(key, o.clone());
        o
    }
}

/// Whether a call's result depends on the hash keys (then it is C01's business, not others').
pub fn unstable(docs: &[Value], op: &Op) -> bool {
    let doc = match op {
        Op::Convert { doc, .. } => Some(&docs[*doc]),
        _ => None,
    };
    let a = solo(doc, op, 0xABCD);
    (1..24).any(|h| solo(doc, op, h * 7919) != a)
}

//! The scheduler: real threads, exactly one of which runs at any time; which one is decided
//! here, from the run's seed or from a recorded trace.

use std::cell::UnsafeCell;
use std::sync::atomic::{AtomicU32, Ordering::*};

use serde::{Deserialize, Serialize};

use crate::rng::{mix, Rng};
use crate::rt::{self, SimThread, EV_FUTEX, EV_YIELD};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Policy {
    /// Calls run one after the other, in this order of threads.
    Serial(Vec<usize>),
    /// Seeded: after each event, switch with probability 1/gap on average.
    Random { seed: u64, gap: u64 },
    /// Seeded: a switch to another thread at each of these events and nowhere else.
    Few { seed: u64, at: Vec<u64> },
    /// Seeded: threads have ranks and the highest that can run does. One block in `one_in`, chosen
    /// by the seed, is a trap: the thread that executes it for the n-th time, n up to `most`, falls
    /// to the lowest rank. This stops threads in rare places as readily as in frequent ones.
    Traps { seed: u64, one_in: u64, most: u64 },
    /// Seeded: as Traps, and the traps are accesses to static memory, each with one chance in `one_in`.
    Shared { seed: u64, one_in: u64 },
    /// Replay of a recorded run: (event number, thread to run next).
    Trace(Vec<(u64, usize)>),
}

#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct Clock {
    pub start_ns: i64,
    pub step_ns: i64,
    /// (reading number, nanoseconds added from then on)
    pub jumps: Vec<(u64, i64)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked(usize, Option<i64>),
    Done,
}

pub struct Inner {
    st: Vec<St>,
    woken_by_timeout: Vec<bool>,
    pub step: u64,
    next: u64,
    cap: u64,
    policy: Policy,
    rng: Rng,
    planned: u64,
    last_switch: u64,
    /// By block: the execution of it at which its trap closes, 0 = none.
    traps: Vec<u16>,
    passed: Vec<u16>,
    ranks: Vec<u64>,
    lowest: u64,
    trace_pos: usize,
    serial_pos: usize,
    pub recorded: Vec<(u64, usize)>,
    pub path: u64,
    pub switches: u64,
    pub blocks: u64,
    pub clock: Clock,
    pub clock_reads: u64,
    pub clock_jumps: u64,
    pub clock_off: i64,
    pub slept_ns: i64,
    pub log_calls: u64,
    pub log_panics: Vec<u64>,
    pub log_panics_fired: u64,
    /// Threads started by the code under test: (pthread_t, id).
    born: Vec<(u64, usize)>,
    pub spawned: u64,
    pub statics: u64,
    /// The run is overdue: turns go round, and only then is it stuck.
    fair: bool,
}

const FAIR_TURN: u64 = 10_000;
const FAIR_STEPS: u64 = 8_000_000;
const QUANTUM: u64 = 400_000;
const MAX_THREADS: usize = 512;

pub struct Sched {
    inner: UnsafeCell<Inner>,
    words: Vec<AtomicU32>,
    main: AtomicU32,
    park: AtomicU32,
    pub abort: fn(&str, &Inner) -> !,
}
unsafe impl Sync for Sched {}

impl Sched {
    pub fn new(n: usize, policy: Policy, clock: Clock, log_panics: Vec<u64>, cap: u64, abort: fn(&str, &Inner) -> !) -> Self {
        let seed0 = match &policy {
            Policy::Random { seed, .. } | Policy::Few { seed, .. } | Policy::Traps { seed, .. } | Policy::Shared { seed, .. } => *seed,
            _ => 0,
        };
        let rng = Rng::new(seed0);
        let traps: Vec<u16> = match &policy {
            Policy::Traps { seed, one_in, most } => (0..=rt::COV_N.load(Relaxed) as u64)
                .map(|b| {
                    let h = mix(*seed ^ mix(b));
                    if h % one_in == 0 {
                        1 + ((h >> 32) % most) as u16
                    } else {
                        0
                    }
                })
                .collect(),
            _ => vec![],
        };
        let s = Sched {
            inner: UnsafeCell::new(Inner {
                st: vec![St::Ready; n],
                woken_by_timeout: vec![false; n],
                step: 0,
                next: u64::MAX,
                cap,
                policy,
                rng,
                planned: 0,
                last_switch: 0,
                passed: vec![0; traps.len() * if traps.is_empty() { 0 } else { n }],
                traps,
                ranks: (0..n as u64).map(|k| (1 << 40) + mix(k ^ seed0) % (1 << 30)).collect(),
                lowest: 1 << 40,
                trace_pos: 0,
                serial_pos: 0,
                recorded: Vec::with_capacity(256),
                path: 0xcbf29ce484222325,
                switches: 0,
                blocks: 0,
                clock,
                clock_reads: 0,
                clock_jumps: 0,
                clock_off: 0,
                slept_ns: 0,
                log_calls: 0,
                log_panics,
                log_panics_fired: 0,
                born: Vec::new(),
                spawned: 0,
                statics: 0,
                fair: false,
            }),
            words: (0..MAX_THREADS).map(|_| AtomicU32::new(0)).collect(),
            main: AtomicU32::new(0),
            park: AtomicU32::new(0),
            abort,
        };
        s.i().set_next();
        s
    }

    #[allow(clippy::mut_from_ref)]
    fn i(&self) -> &mut Inner {
        unsafe { &mut *self.inner.get() }
    }
    /// Only after all threads have finished.
    pub fn into_inner(self) -> Inner {
        self.inner.into_inner()
    }

    // ---- baton ----

    fn give(&self, to: usize) {
        self.words[to].store(1, Release);
        rt::raw_wake(&self.words[to]);
    }
    fn await_turn(&self, me: usize) {
        while self.words[me].swap(0, Acquire) == 0 {
            rt::raw_wait(&self.words[me], 0);
        }
    }
    /// Called by the coordinator: lets the first thread run and stays until all are done. Calls
    /// `gone` for each thread that has finished, while nothing else runs.
    pub fn run(&self, mut gone: impl FnMut(usize)) {
        let mut next = Some(self.i().first_ready());
        while let Some(to) = next {
            self.main.store(0, Release);
            self.give(to);
            let id = loop {
                let v = self.main.load(Acquire);
                if v != 0 {
                    break v as usize - 1;
                }
                rt::raw_wait(&self.main, 0);
            };
            gone(id);
            next = self.next_or_deadlock(usize::MAX);
        }
    }
    // Thread start is serialised: its creator waits until the new thread is at its first action.
    pub fn parked_word(&self) -> u32 {
        self.park.load(Acquire)
    }
    pub fn parked(&self, _id: usize) {
        self.park.fetch_add(1, AcqRel);
        rt::raw_wake(&self.park);
    }
    pub fn wait_parked(&self, before: u32, _id: usize) {
        while self.park.load(Acquire) == before {
            rt::raw_wait(&self.park, before);
        }
    }
    pub fn add_thread(&self) -> Option<usize> {
        let i = self.i();
        if i.st.len() == MAX_THREADS {
            return None;
        }
        i.st.push(St::Ready);
        i.woken_by_timeout.push(false);
        i.lowest -= 1;
        i.ranks.push(i.lowest);
        i.spawned += 1;
        Some(i.st.len() - 1)
    }
    pub fn born(&self, id: usize, th: u64) {
        self.i().born.push((th, id));
    }
    pub fn not_born(&self, id: usize) {
        self.i().st[id] = St::Done;
    }
    pub fn join(&self, t: &SimThread, th: u64) {
        self.event(t, EV_YIELD);
        t.quiet.set(t.quiet.get() + 1);
        let id = self.i().born.iter().rev().find(|b| b.0 == th).map(|b| b.1);
        if let Some(id) = id {
            if self.i().st[id] != St::Done {
                self.block(t, &self.words[id] as *const _ as usize, None);
            }
        }
        t.quiet.set(t.quiet.get() - 1);
    }
    /// The current thread waits on `key`; somebody else runs.
    fn block(&self, t: &SimThread, key: usize, deadline: Option<i64>) {
        let i = self.i();
        i.step += 1;
        i.blocks += 1;
        i.st[t.id] = St::Blocked(key, deadline);
        i.woken_by_timeout[t.id] = false;
        let to = self.next_or_deadlock(t.id).unwrap();
        if to != t.id {
            self.i().switches += 1;
            self.i().last_switch = self.i().step;
            self.give(to);
            self.await_turn(t.id);
        }
    }
    /// A simulated thread's first action.
    pub fn start(&self, me: usize) {
        self.await_turn(me);
    }

    fn switch(&self, t: &SimThread, to: usize) {
        if to == t.id {
            return;
        }
        let i = self.i();
        i.switches += 1;
        i.last_switch = i.step;
        i.path = (i.path ^ (to as u64 + 77)).wrapping_mul(0x100000001B3);
        self.give(to);
        self.await_turn(t.id);
    }

    /// One event of the running thread; the hot path.
    #[inline]
    pub fn event(&self, t: &SimThread, id: u64) {
        let i = self.i();
        i.step += 1;
        i.path = (i.path.rotate_left(5) ^ id ^ ((t.id as u64) << 40)).wrapping_mul(0x9E3779B97F4A7C15);
        if i.step >= i.next {
            self.preempt(t);
        } else if let Some(&k) = i.traps.get(id as usize) {
            if k != 0 {
                self.trap(t, id as usize, k);
            }
        }
    }

    #[cold]
    fn trap(&self, t: &SimThread, block: usize, k: u16) {
        let i = self.i();
        // Threads the code under test starts are not counted by block.
        let Some(n) = i.passed.get_mut(t.id * i.traps.len() + block) else { return };
        *n = n.saturating_add(1);
        if *n == k {
            self.fall(t);
        }
    }

    /// The running thread falls to the lowest rank.
    fn fall(&self, t: &SimThread) {
        let i = self.i();
        t.quiet.set(t.quiet.get() + 1);
        i.lowest -= 1;
        i.ranks[t.id] = i.lowest;
        if let Some(to) = i.choose(t.id, false) {
            self.switch(t, to);
        }
        t.quiet.set(t.quiet.get() - 1);
    }

    #[cold]
    fn preempt(&self, t: &SimThread) {
        t.quiet.set(t.quiet.get() + 1);
        let i = self.i();
        if i.step >= i.cap {
            if i.fair || matches!(i.policy, Policy::Serial(_)) {
                (self.abort)("livelock", i);
            }
            i.fair = true;
            i.cap += FAIR_STEPS;
            i.traps.iter_mut().for_each(|t| *t = 0);
        }
        if i.fair {
            let to = i.choose(t.id, true);
            i.set_next();
            if let Some(to) = to {
                self.switch(t, to);
            }
            t.quiet.set(t.quiet.get() - 1);
            return;
        }
        // A thread that has run for long gives way, so that one waiting for another by
        // spinning is not taken for stuck.
        let long = i.step >= i.last_switch + QUANTUM && !matches!(i.policy, Policy::Serial(_));
        if long {
            i.last_switch = i.step;
            i.lowest -= 1;
            i.ranks[t.id] = i.lowest;
        }
        let to = if long || i.step >= i.planned { i.choose(t.id, long) } else { None };
        i.set_next();
        if let Some(to) = to {
            self.switch(t, to);
        }
        t.quiet.set(t.quiet.get() - 1);
    }

    /// The running thread is about to read or write static memory.
    pub fn static_access(&self, t: &SimThread, off: u64) {
        self.i().statics += 1;
        self.event(t, rt::EV_STATIC + off);
        if let Policy::Shared { one_in, .. } = self.i().policy {
            if !self.i().fair && self.i().rng.u64() % one_in == 0 {
                self.fall(t);
            }
        }
    }

    pub fn forced_yield(&self, t: &SimThread) {
        self.event(t, EV_YIELD);
        t.quiet.set(t.quiet.get() + 1);
        let i = self.i();
        i.step += 1;
        // Who yields steps behind everybody, or two that wait would yield to each other for ever.
        i.lowest -= 1;
        i.ranks[t.id] = i.lowest;
        if let Some(to) = i.choose(t.id, true) {
            self.switch(t, to);
        }
        t.quiet.set(t.quiet.get() - 1);
    }

    /// Serial policy: waits until it is this thread's turn to make a call.
    pub fn op_boundary(&self, t: &SimThread) {
        t.quiet.set(t.quiet.get() + 1);
        loop {
            let i = self.i();
            let Policy::Serial(order) = &i.policy else { break };
            let turn = match order.get(i.serial_pos) {
                Some(&x) => x,
                None => t.id,
            };
            if turn == t.id || i.st[turn] == St::Done {
                i.serial_pos += 1;
                if turn == t.id {
                    break;
                }
                continue;
            }
            if i.st[turn] != St::Ready {
                i.serial_pos += 1;
                continue;
            }
            self.switch(t, turn);
        }
        t.quiet.set(t.quiet.get() - 1);
    }

    pub fn finish(&self, t: &SimThread) {
        t.quiet.set(t.quiet.get() + 1);
        let i = self.i();
        i.step += 1;
        i.st[t.id] = St::Done;
        let key = &self.words[t.id] as *const _ as usize;
        for s in i.st.iter_mut() {
            if matches!(s, St::Blocked(a, _) if *a == key) {
                *s = St::Ready;
            }
        }
        self.main.store(t.id as u32 + 1, Release);
        rt::raw_wake(&self.main);
        // stays quiet: the thread's own teardown is not part of the run
    }

    /// Someone to run when the current thread cannot; None if all are done.
    fn next_or_deadlock(&self, me: usize) -> Option<usize> {
        loop {
            let i = self.i();
            if i.st.iter().all(|s| *s == St::Done) {
                return None;
            }
            if let Some(to) = i.choose(me, true) {
                return Some(to);
            }
            // Nobody can run: time passes until the earliest timeout.
            let mut best: Option<(i64, usize)> = None;
            for (k, s) in i.st.iter().enumerate() {
                if let St::Blocked(_, Some(d)) = s {
                    if best.map_or(true, |b| *d < b.0) {
                        best = Some((*d, k));
                    }
                }
            }
            match best {
                Some((d, k)) => {
                    let now = i.clock_value();
                    if d > now {
                        i.clock_off += d - now;
                        i.slept_ns += d - now;
                    }
                    i.st[k] = St::Ready;
                    i.woken_by_timeout[k] = true;
                }
                None => (self.abort)("deadlock", i),
            }
        }
    }

    // ---- futexes ----

    pub fn futex_wait(&self, t: &SimThread, addr: &AtomicU32, val: u32, deadline: Option<i64>) -> i64 {
        self.event(t, EV_FUTEX);
        t.quiet.set(t.quiet.get() + 1);
        let r = if addr.load(SeqCst) != val {
            -(libc::EAGAIN as i64)
        } else {
            self.block(t, addr as *const _ as usize, deadline);
            if self.i().woken_by_timeout[t.id] {
                -(libc::ETIMEDOUT as i64)
            } else {
                0
            }
        };
        t.quiet.set(t.quiet.get() - 1);
        r
    }

    pub fn futex_wake(&self, t: &SimThread, addr: usize, n: usize) -> usize {
        self.event(t, EV_FUTEX);
        t.quiet.set(t.quiet.get() + 1);
        let i = self.i();
        let mut woken = 0;
        for s in i.st.iter_mut() {
            if woken == n {
                break;
            }
            if matches!(s, St::Blocked(a, _) if *a == addr) {
                *s = St::Ready;
                woken += 1;
            }
        }
        if woken < n {
            // Threads the simulator does not manage may wait too.
            unsafe {
                rt::raw6(libc::SYS_futex, addr as i64, 129, (n - woken).min(i32::MAX as usize) as i64, 0, 0, 0);
            }
        }
        t.quiet.set(t.quiet.get() - 1);
        woken
    }

    // ---- clock ----

    pub fn clock_now(&self) -> i64 {
        self.i().clock_value()
    }
    pub fn clock_read(&self) -> i64 {
        let i = self.i();
        i.clock_reads += 1;
        for (at, d) in i.clock.jumps.clone_quiet() {
            if at == i.clock_reads {
                i.clock_off += d;
                i.clock_jumps += 1;
            }
        }
        i.clock_value()
    }
    pub fn sleep(&self, t: &SimThread, ns: i64) {
        let i = self.i();
        i.clock_off += ns;
        i.slept_ns += ns;
        self.forced_yield(t);
    }

    // ---- log calls ----

    /// True if the log sink must fail at this call.
    pub fn log_call(&self, t: &SimThread) -> bool {
        self.event(t, rt::EV_LOG);
        let i = self.i();
        let k = i.log_calls;
        i.log_calls += 1;
        let fire = i.log_panics.contains(&k) && !std::thread::panicking();
        if fire {
            i.log_panics_fired += 1;
        }
        fire
    }
}

trait CloneQuiet<T> {
    fn clone_quiet(&self) -> Vec<T>;
}
impl<T: Clone> CloneQuiet<T> for Vec<T> {
    fn clone_quiet(&self) -> Vec<T> {
        rt::quiet(|| self.clone())
    }
}

impl Inner {
    fn clock_value(&self) -> i64 {
        (self.clock.start_ns + self.clock_reads as i64 * self.clock.step_ns + self.clock_off).max(0)
    }
    fn first_ready(&mut self) -> usize {
        match &self.policy {
            Policy::Serial(o) => o.first().copied().unwrap_or(0),
            Policy::Random { .. } | Policy::Few { .. } | Policy::Traps { .. } | Policy::Shared { .. } => {
                let n = self.st.len();
                let k = self.rng.below(n);
                self.ranks[k] += 1 << 41;
                self.recorded.push((0, k));
                k
            }
            Policy::Trace(v) => {
                if let Some(&(0, k)) = v.first() {
                    self.trace_pos = 1;
                    k.min(self.st.len() - 1)
                } else {
                    0
                }
            }
        }
    }
    fn set_next(&mut self) {
        if self.fair {
            self.planned = self.step + FAIR_TURN;
            self.next = self.planned.min(self.cap);
            return;
        }
        let n = match &self.policy {
            Policy::Serial(_) | Policy::Traps { .. } | Policy::Shared { .. } => u64::MAX,
            Policy::Random { gap, .. } => {
                // Long runs switch less often.
                let g = (*gap).max(self.step >> 17);
                self.step + 1 + self.rng.u64() % (2 * g)
            }
            Policy::Few { at, .. } => at.iter().copied().find(|x| *x > self.step).unwrap_or(u64::MAX),
            Policy::Trace(v) => v.get(self.trace_pos).map_or(u64::MAX, |x| x.0.max(self.step + 1)),
        };
        self.planned = n;
        let serial = matches!(self.policy, Policy::Serial(_));
        self.next = if serial { n } else { n.min(self.last_switch + QUANTUM) }.min(self.cap).max(self.step + 1);
    }
    /// Picks another ready thread. `forced`: the current one cannot or should not go on.
    fn choose(&mut self, me: usize, forced: bool) -> Option<usize> {
        let ready: Vec<usize> = (0..self.st.len())
            .filter(|k| self.st[*k] == St::Ready && *k != me)
            .collect();
        if self.fair {
            return ready.iter().find(|k| **k > me).or(ready.first()).copied();
        }
        if let Policy::Trace(v) = &self.policy {
            if let Some(&(s, k)) = v.get(self.trace_pos) {
                if s <= self.step {
                    self.trace_pos += 1;
                    if ready.contains(&k) {
                        return Some(k);
                    }
                }
            }
            return if forced { ready.iter().find(|k| **k > me).or(ready.first()).copied() } else { None };
        }
        if ready.is_empty() {
            return None;
        }
        let k = match &self.policy {
            Policy::Serial(o) => match o.get(self.serial_pos) {
                Some(k) if ready.contains(k) => *k,
                _ => ready[0],
            },
            Policy::Traps { .. } | Policy::Shared { .. } => {
                let k = *ready.iter().max_by_key(|k| self.ranks[**k]).unwrap();
                if !forced && self.ranks[k] < self.ranks[me] {
                    return None;
                }
                k
            }
            _ => ready[self.rng.below(ready.len())],
        };
        self.recorded.push((self.step, k));
        Some(k)
    }
}

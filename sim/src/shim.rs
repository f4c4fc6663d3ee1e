//! Runs the real command (or the real build step) in a simulated environment: the interposition
//! library answers every read, write, open, allocation, clock and random request from a plan.

use std::ffi::CString;
use std::os::unix::ffi::OsStrExt;
use std::path::{Path, PathBuf};

use serde::{Deserialize, Serialize};

pub const NPAT: usize = 64;
pub const NLOG: usize = 8192;
const MAGIC: u64 = 0x4a53545f53494d31;
pub const ALWAYS: u32 = u32::MAX;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Stream {
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub chunks: Vec<u32>,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub eintr: Vec<u32>,
    pub err_at: i64,
    pub err_no: i32,
    pub err_count: u32,
    pub eof_at: i64,
}
impl Default for Stream {
    fn default() -> Self {
        Stream { chunks: vec![], eintr: vec![], err_at: -1, err_no: 0, err_count: 0, eof_at: -1 }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Plan {
    pub mode: u64,
    pub hash_seed: u64,
    pub input: Stream,
    pub output: Stream,
    pub diag: Stream,
    pub open_errno: i32,
    pub open_eintr: u32,
    pub malloc_fail_at: i64,
    pub malloc_fail_count: u32,
    pub kill_sig: i32,
    pub kill_at: i64,
    pub kill_when: u32,
    pub kill_at_malloc: i64,
    pub clk_base_ns: i64,
    pub clk_step_ns: i64,
    pub clk_jumps: Vec<(u32, i64)>,
    pub heap_seed: u64,
    pub dir_seed: u64,
    pub max_events: u64,
    pub env_seed: u64,
    pub tty: u64,
    /// 0 regular file; 1 pipe; 2 regular file that reports `in_size` as its size.
    pub in_kind: u64,
    pub in_size: i64,
}
impl Default for Plan {
    fn default() -> Self {
        Plan {
            mode: 0,
            hash_seed: 1,
            input: Stream::default(),
            output: Stream::default(),
            diag: Stream::default(),
            open_errno: 0,
            open_eintr: 0,
            malloc_fail_at: -1,
            malloc_fail_count: 0,
            kill_sig: 0,
            kill_at: -1,
            kill_when: 0,
            kill_at_malloc: -1,
            clk_base_ns: 1_700_000_000_000_000_000,
            clk_step_ns: 1000,
            clk_jumps: vec![],
            heap_seed: 0,
            dir_seed: 0,
            max_events: 4_000_000,
            env_seed: 0,
            tty: 0,
            in_kind: 0,
            in_size: 0,
        }
    }
}

#[repr(C)]
struct RawStream {
    chunk_n: u32,
    chunks: [u32; NPAT],
    eintr_n: u32,
    eintr_at: [u32; NPAT],
    err_at: i64,
    err_no: i32,
    err_count: u32,
    eof_at: i64,
}
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct LogEv {
    pub op: u8,
    pub stream: u8,
    pub err: i16,
    pub req: i32,
    pub ret: i32,
}
#[repr(C)]
struct RawPlan {
    magic: u64,
    mode: u64,
    hash_seed: u64,
    s: [RawStream; 3],
    in_dev: u64,
    in_ino: u64,
    open_errno: i32,
    open_eintr: u32,
    malloc_fail_at: i64,
    malloc_fail_count: u32,
    kill_sig: i32,
    kill_at: i64,
    kill_when: u32,
    pad0: u32,
    kill_at_malloc: i64,
    clk_base_ns: i64,
    clk_step_ns: i64,
    clk_jump_n: u32,
    pad1: u32,
    clk_jump_at: [u32; NPAT],
    clk_jump: [i64; NPAT],
    heap_seed: u64,
    dir_seed: u64,
    max_events: u64,
    env_seed: u64,
    tty: u64,
    in_kind: u64,
    in_size: i64,
    // results
    armed: u64,
    events: u64,
    mallocs: u64,
    off: [u64; 3],
    calls: [u64; 3],
    eintr_fired: [u64; 3],
    short_fired: [u64; 3],
    err_fired: [u64; 3],
    zero_ret: [u64; 3],
    eof_fired: u64,
    open_err_fired: u64,
    open_eintr_fired: u64,
    malloc_fail_fired: u64,
    kill_fired: u64,
    getrandom_calls: u64,
    clock_calls: u64,
    clock_jumps: u64,
    timer_waits: u64,
    dir_shuffles: u64,
    in_eof_seen: u64,
    out_before_eof: u64,
    reads_after_eof: u64,
    fs_effects: u64,
    proc_effects: u64,
    effect: [u8; 256],
    hang: u64,
    env_reads: u64,
    tty_asked: u64,
    stats_asked: u64,
    seeks: u64,
    in_max: u64,
    refused: u64,
    clk_elapsed: i64,
    log_hash: u64,
    nlog: u64,
    log: [LogEv; NLOG],
}

/// What a run did.
#[derive(Clone, Debug, Default)]
pub struct Ran {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub events: u64,
    pub mallocs: u64,
    pub off: [u64; 3],
    pub calls: [u64; 3],
    pub eintr: [u64; 3],
    pub short: [u64; 3],
    pub err: [u64; 3],
    pub eof_fired: u64,
    pub open_err: u64,
    pub open_eintr: u64,
    pub malloc_fail: u64,
    pub killed: u64,
    pub getrandom: u64,
    pub clock_calls: u64,
    pub clock_jumps: u64,
    pub timer_waits: u64,
    pub dir_shuffles: u64,
    pub in_eof_seen: bool,
    pub out_before_eof: u64,
    pub reads_after_eof: u64,
    pub fs_effects: u64,
    pub proc_effects: u64,
    pub effect: String,
    pub hang: bool,
    pub env_reads: u64,
    pub stats_asked: u64,
    pub seeks: u64,
    pub in_max: u64,
    pub clk_elapsed: i64,
    pub log_hash: u64,
    pub nlog: u64,
    pub log: Vec<LogEv>,
}
impl Ran {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn ending(&self) -> String {
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit status {c}"),
            (_, Some(s)) => format!("signal {s}"),
            _ => "?".into(),
        }
    }
    pub fn digest(&self) -> u64 {
        let mut h = self.log_hash ^ (self.code.unwrap_or(300) as u64) << 32 ^ (self.signal.unwrap_or(0) as u64) << 44;
        for b in &self.stdout {
            h = (h ^ *b as u64).wrapping_mul(0x100000001B3);
        }
        h
    }
}

pub enum Stdin<'a> {
    Bytes(&'a [u8]),
    Empty,
}

/// How a process is started.
pub struct Launch<'a> {
    /// Bit per standard descriptor that is closed from the start.
    pub closed: u8,
    pub exe: &'a Path,
    pub argv: Vec<Vec<u8>>,
    pub env: Vec<(String, String)>,
    pub cwd: &'a Path,
    pub stdin: Stdin<'a>,
    /// File that counts as the input stream, if any.
    pub input_file: Option<&'a Path>,
    pub plan: &'a Plan,
}

pub struct World {
    pub dir: PathBuf,
    plan_fd: i32,
    raw: *mut RawPlan,
    in_fd: i32,
    out_fd: i32,
    err_fd: i32,
    pub uid: u32,
}

pub fn memfd(name: &str) -> i32 {
    let n = CString::new(name).unwrap();
    let fd = unsafe { libc::memfd_create(n.as_ptr(), libc::MFD_CLOEXEC) };
    assert!(fd >= 0, "memfd_create");
    fd
}
fn fill(fd: i32, b: &[u8]) {
    unsafe {
        libc::ftruncate(fd, 0);
        libc::lseek(fd, 0, libc::SEEK_SET);
        let mut o = 0;
        while o < b.len() {
            let n = libc::write(fd, b.as_ptr().add(o) as *const _, b.len() - o);
            assert!(n > 0);
            o += n as usize;
        }
        libc::lseek(fd, 0, libc::SEEK_SET);
    }
}
pub fn drain(fd: i32) -> Vec<u8> {
    unsafe {
        let n = libc::lseek(fd, 0, libc::SEEK_END).max(0) as usize;
        let mut v = vec![0u8; n];
        let mut o = 0;
        while o < n {
            let k = libc::pread(fd, v.as_mut_ptr().add(o) as *mut _, n - o, o as i64);
            if k <= 0 {
                v.truncate(o);
                break;
            }
            o += k as usize;
        }
        v
    }
}

pub fn verif() -> PathBuf {
    if let Ok(v) = std::env::var("JST_VERIF") {
        return PathBuf::from(v);
    }
    // <verif>/build/sim/debug/jstsim
    let e = std::env::current_exe().unwrap();
    e.ancestors().nth(4).unwrap().to_path_buf()
}

pub const NOBODY: u32 = 65534;

fn encode(raw: *mut RawPlan, p: &Plan, input_file: Option<&Path>) {
    unsafe {
        std::ptr::write_bytes(raw as *mut u8, 0, std::mem::size_of::<RawPlan>());
        let w = &mut *raw;
        w.magic = MAGIC + std::mem::size_of::<RawPlan>() as u64;
        w.mode = p.mode;
        w.hash_seed = p.hash_seed;
        for (d, s) in w.s.iter_mut().zip([&p.input, &p.output, &p.diag]) {
            d.chunk_n = s.chunks.len().min(NPAT) as u32;
            for (a, b) in d.chunks.iter_mut().zip(&s.chunks) {
                *a = *b;
            }
            d.eintr_n = s.eintr.len().min(NPAT) as u32;
            for (a, b) in d.eintr_at.iter_mut().zip(&s.eintr) {
                *a = *b;
            }
            d.err_at = s.err_at;
            d.err_no = s.err_no;
            d.err_count = s.err_count;
            d.eof_at = s.eof_at;
        }
        if let Some(f) = input_file {
            use std::os::unix::fs::MetadataExt;
            let m = std::fs::metadata(f).expect("input file");
            w.in_dev = m.dev();
            w.in_ino = m.ino();
        }
        w.open_errno = p.open_errno;
        w.open_eintr = p.open_eintr;
        w.malloc_fail_at = p.malloc_fail_at;
        w.malloc_fail_count = p.malloc_fail_count;
        w.kill_sig = p.kill_sig;
        w.kill_at = p.kill_at;
        w.kill_when = p.kill_when;
        w.kill_at_malloc = p.kill_at_malloc;
        w.clk_base_ns = p.clk_base_ns;
        w.clk_step_ns = p.clk_step_ns;
        w.clk_jump_n = p.clk_jumps.len().min(NPAT) as u32;
        for (k, (a, d)) in p.clk_jumps.iter().take(NPAT).enumerate() {
            w.clk_jump_at[k] = *a;
            w.clk_jump[k] = *d;
        }
        w.heap_seed = p.heap_seed;
        w.dir_seed = p.dir_seed;
        w.max_events = p.max_events;
        w.env_seed = p.env_seed;
        w.tty = p.tty;
        w.in_kind = p.in_kind;
        w.in_size = p.in_size;
    }
}

fn results(w: &RawPlan) -> Ran {
    Ran {
            events: w.events,
            mallocs: w.mallocs,
            off: w.off,
            calls: w.calls,
            eintr: w.eintr_fired,
            short: w.short_fired,
            err: w.err_fired,
                eof_fired: w.eof_fired,
            open_err: w.open_err_fired,
            open_eintr: w.open_eintr_fired,
            malloc_fail: w.malloc_fail_fired,
            killed: w.kill_fired,
            getrandom: w.getrandom_calls,
            clock_calls: w.clock_calls,
            clock_jumps: w.clock_jumps,
            timer_waits: w.timer_waits,
            dir_shuffles: w.dir_shuffles,
            in_eof_seen: w.in_eof_seen != 0,
            out_before_eof: w.out_before_eof,
            reads_after_eof: w.reads_after_eof,
            fs_effects: w.fs_effects,
            proc_effects: w.proc_effects,
            effect: String::from_utf8_lossy(&w.effect[..w.effect.iter().position(|b| *b == 0).unwrap_or(255)]).into_owned(),
            hang: w.hang != 0,
            env_reads: w.env_reads,
            stats_asked: w.stats_asked,
            seeks: w.seeks,
            in_max: w.in_max,
        clk_elapsed: w.clk_elapsed,
            log_hash: w.log_hash,
            nlog: w.nlog,
            log: w.log[..(w.nlog as usize).min(NLOG)].to_vec(),
            ..Default::default()
    }
}

/// A plan as bytes, for a process started by something else.
pub fn plan_file(path: &Path, p: &Plan, input_file: Option<&Path>, extra: u32) {
    unsafe {
        let mut raw: Box<RawPlan> = Box::new(std::mem::zeroed());
        encode(&mut *raw, p, input_file);
        raw.pad0 = extra;
        let b = std::slice::from_raw_parts(&*raw as *const RawPlan as *const u8, std::mem::size_of::<RawPlan>());
        std::fs::write(path, b).expect("write plan");
    }
}

/// What the process that used a plan file did.
pub fn plan_results(path: &Path) -> Option<Ran> {
    let b = std::fs::read(path).ok()?;
    if b.len() != std::mem::size_of::<RawPlan>() {
        return None;
    }
    let raw: Box<RawPlan> = unsafe {
        let mut r: Box<RawPlan> = Box::new(std::mem::zeroed());
        std::ptr::copy_nonoverlapping(b.as_ptr(), &mut *r as *mut RawPlan as *mut u8, b.len());
        r
    };
    if raw.armed == 0 {
        return None;
    }
    Some(results(&raw))
}

impl World {
    pub fn new() -> World {
        let dir = std::env::temp_dir().join(format!("jstsim-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&dir);
        for d in ["bin", "in", "tmp", "home", "cwd", "cwd2/a b/c"] {
            std::fs::create_dir_all(dir.join(d)).unwrap();
        }
        let b = verif().join("build");
        std::fs::copy(b.join("subject/debug/jsonschema-transpiler"), dir.join("bin/jsonschema-transpiler")).expect("built command");
        std::fs::copy(b.join("subject/debug/testgen"), dir.join("bin/testgen")).expect("built build step");
        std::fs::copy(b.join("libsimshim.so"), dir.join("bin/shim.so")).expect("built shim");
        let mut uid = 0;
        unsafe {
            if libc::geteuid() == 0 {
                uid = NOBODY;
                for d in ["in", "tmp", "home", "cwd", "cwd2/a b/c"] {
                    chown(&dir.join(d), uid);
                }
            }
            let plan_fd = memfd("plan");
            let sz = std::mem::size_of::<RawPlan>();
            libc::ftruncate(plan_fd, sz as i64);
            let raw = libc::mmap(std::ptr::null_mut(), sz, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, plan_fd, 0) as *mut RawPlan;
            World { dir, plan_fd, raw, in_fd: memfd("in"), out_fd: memfd("out"), err_fd: memfd("err"), uid }
        }
    }

    fn load(&self, p: &Plan, input_file: Option<&Path>) {
        encode(self.raw, p, input_file);
    }

    /// Environment variables that connect a process to the simulator.
    pub fn shim_env(&self) -> Vec<(String, String)> {
        vec![
            ("LD_PRELOAD".into(), self.dir.join("bin/shim.so").to_str().unwrap().into()),
            ("SIM_FD".into(), "9".into()),
        ]
    }

    pub fn base_env(&self) -> Vec<(String, String)> {
        let d = |s: &str| self.dir.join(s).to_str().unwrap().to_string();
        vec![("PATH".into(), "/usr/bin:/bin".into()), ("HOME".into(), d("home")), ("TMPDIR".into(), d("tmp"))]
    }

    pub fn run(&self, l: &Launch) -> Ran {
        self.load(l.plan, l.input_file);
        if l.input_file.is_none() {
            // standard input is the input, under whatever name it is opened
            unsafe {
                let mut s: libc::stat = std::mem::zeroed();
                libc::fstat(self.in_fd, &mut s);
                (*self.raw).in_dev = s.st_dev;
                (*self.raw).in_ino = s.st_ino;
            }
        }
        let empty: &[u8] = &[];
        fill(
            self.in_fd,
            match l.stdin {
                Stdin::Bytes(b) => b,
                Stdin::Empty => empty,
            },
        );
        fill(self.out_fd, empty);
        fill(self.err_fd, empty);
        let exe = CString::new(l.exe.as_os_str().as_bytes()).unwrap();
        let argv: Vec<CString> = l.argv.iter().map(|a| CString::new(a.clone()).unwrap()).collect();
        let mut argp: Vec<*const libc::c_char> = argv.iter().map(|a| a.as_ptr()).collect();
        argp.push(std::ptr::null());
        let envv: Vec<CString> = l.env.iter().cloned().chain(self.shim_env()).map(|(k, v)| CString::new(format!("{k}={v}")).unwrap()).collect();
        let mut envp: Vec<*const libc::c_char> = envv.iter().map(|a| a.as_ptr()).collect();
        envp.push(std::ptr::null());
        let cwd = CString::new(l.cwd.as_os_str().as_bytes()).unwrap();
        let mut st = 0;
        let gone = l.cwd.ends_with(crate::cli_checks::GONE);
        if gone {
            let _ = std::fs::create_dir(l.cwd);
        }
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork");
            if pid == 0 {
                libc::setpgid(0, 0);
                for (from, to) in [(self.in_fd, 10), (self.out_fd, 11), (self.err_fd, 12), (self.plan_fd, 13)] {
                    libc::dup2(from, to + 200);
                }
                libc::dup2(210, 0);
                libc::dup2(211, 1);
                libc::dup2(212, 2);
                libc::dup2(213, 9);
                libc::close_range(3, 8, 0);
                libc::close_range(10, u32::MAX, 0);
                for fd in 0..3 {
                    if l.closed >> fd & 1 != 0 {
                        libc::close(fd);
                    }
                }
                libc::personality(0x0040000);
                libc::signal(libc::SIGPIPE, libc::SIG_DFL);
                if libc::chdir(cwd.as_ptr()) != 0 {
                    libc::_exit(88);
                }
                if gone && libc::rmdir(cwd.as_ptr()) != 0 {
                    libc::_exit(87);
                }
                drop_privileges(self.uid);
                libc::execve(exe.as_ptr(), argp.as_ptr(), envp.as_ptr());
                libc::_exit(89);
            }
            while libc::waitpid(pid, &mut st, 0) < 0 {}
        }
        let w = unsafe { &*self.raw };
        let mut r = results(w);
        r.stdout = drain(self.out_fd);
        r.stderr = drain(self.err_fd);
        if w.armed == 0 {
            // The library did not load: nothing below can be believed.
            panic!("the interposition library did not start ({:?} {})", l.exe, st);
        }
        if libc::WIFEXITED(st) {
            r.code = Some(libc::WEXITSTATUS(st));
        } else {
            r.signal = Some(libc::WTERMSIG(st));
        }
        if matches!(r.signal, Some(libc::SIGALRM) | Some(libc::SIGXCPU)) {
            r.hang = true;
        }
        r
    }

    /// Removes whatever runs left in the writable folders.
    pub fn clean(&self) {
        for d in ["in", "tmp", "home", "cwd", "cwd2/a b/c"] {
            clean_dir(&self.dir.join(d));
        }
    }
}

pub fn clean_dir(d: &Path) {
    if let Ok(it) = std::fs::read_dir(d) {
        for e in it.flatten() {
            let p = e.path();
            if e.file_type().map_or(false, |t| t.is_dir()) {
                let _ = std::fs::remove_dir_all(&p);
            } else {
                let _ = std::fs::remove_file(&p);
            }
        }
    }
}

pub fn chown(p: &Path, uid: u32) {
    let c = CString::new(p.as_os_str().as_bytes()).unwrap();
    unsafe {
        libc::chown(c.as_ptr(), uid, uid);
    }
}

/// Only in a forked child: what the code under test does to the system, it does as nobody.
pub unsafe fn drop_privileges(uid: u32) {
    if uid != 0 {
        libc::setgroups(0, std::ptr::null());
        libc::setresgid(uid, uid, uid);
        libc::setresuid(uid, uid, uid);
    }
}

impl Drop for World {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

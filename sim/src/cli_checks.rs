//! C09-C15, C18: the real command under a simulated environment.

use std::path::PathBuf;

use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::campaign::{fnv, Env, Verdict};
use crate::engine::{Op, Out};
use crate::gen::{self, Ctx, Focus};
use crate::rng::Rng;
use crate::shim::{Launch, Plan, Ran, Stdin, Stream, ALWAYS};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Input {
    Doc(Value),
    Pretty(Value),
    Text(String),
    Hex(String),
    /// `n` bytes of white space: before the document, within it, after it.
    Padded { doc: Value, at: u8, n: usize },
}
impl Input {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Input::Doc(v) => serde_json::to_vec(v).unwrap(),
            Input::Pretty(v) => {
                let mut b = serde_json::to_vec_pretty(v).unwrap();
                b.push(b'\n');
                b
            }
            Input::Text(s) => s.as_bytes().to_vec(),
            Input::Padded { doc, at, n } => {
                let b = serde_json::to_vec(doc).unwrap();
                let k = match at {
                    0 => 0,
                    1 if b.len() > 1 => 1,
                    _ => b.len(),
                };
                let mut t = b[..k].to_vec();
                t.resize(k + n, b' ');
                if *n > 0 {
                    t[k + n - 1] = b'\n';
                }
                t.extend_from_slice(&b[k..]);
                t
            }
            Input::Hex(h) => (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(),
        }
    }
    pub fn of(b: Vec<u8>) -> Input {
        match String::from_utf8(b) {
            Ok(s) => Input::Text(s),
            Err(e) => Input::Hex(e.as_bytes().iter().map(|x| format!("{x:02x}")).collect()),
        }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
#[serde(rename_all = "snake_case")]
pub enum Delivery {
    Stdin,
    Dash,
    File,
    /// Standard input, opened by name.
    Device,
}

/// Everything around one run of the command besides its document and options.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(default)]
pub struct Surround {
    /// Seed of the spelling and order of the flags; 0 = plain.
    pub spelling: u64,
    pub env: Vec<(String, String)>,
    pub argv0: String,
    pub file: String,
    pub cwd: String,
    /// How the file is named: 0 from the root, else from the working directory.
    pub rel: u8,
    /// Bit per standard descriptor that is closed from the start.
    pub closed: u8,
    pub plan: Plan,
}
impl Default for Surround {
    fn default() -> Self {
        Surround { spelling: 0, env: vec![], argv0: "jsonschema-transpiler".into(), file: "schema.json".into(), cwd: "cwd".into(), rel: 0, closed: 0, plan: Plan::default() }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct CliCase {
    pub input: Input,
    pub delivery: Delivery,
    pub ctx: Ctx,
    pub avro: bool,
    #[serde(default)]
    pub sur: Surround,
    /// C15: the other environment.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub other: Option<Box<Surround>>,
}

pub fn flags(ctx: &Ctx, avro: bool, spelling: u64) -> Vec<String> {
    let mut r = Rng::new(spelling);
    let alt = |r: &mut Rng| spelling != 0 && r.coin();
    let mut v: Vec<Vec<String>> = Vec::new();
    let valued = |r: &mut Rng, short: &str, long: &str, val: &str| -> Vec<String> {
        if !alt(r) {
            return vec![format!("--{long}"), val.into()];
        }
        match r.below(4) {
            0 => vec![format!("-{short}{val}")],
            1 => vec![format!("-{short}={val}")],
            2 => vec![format!("-{short}"), val.into()],
            _ => vec![format!("--{long}={val}")],
        }
    };
    let t = if avro { "avro" } else { "bigquery" };
    if !avro || !alt(&mut r) {
        v.push(valued(&mut r, "t", "type", t));
    }
    let res = ["cast", "drop", "panic"][ctx.resolve.min(2) as usize];
    if ctx.resolve != 0 || !alt(&mut r) {
        v.push(valued(&mut r, "r", "resolve", res));
    }
    let mut cluster = String::new();
    for (on, short, long) in [(ctx.case, "c", "normalize-case"), (ctx.nullable, "n", "force-nullable"), (ctx.maps, "w", "allow-maps-without-value")] {
        if on {
            if alt(&mut r) {
                if r.coin() {
                    cluster.push_str(short);
                } else {
                    v.push(vec![format!("-{short}")]);
                }
            } else {
                v.push(vec![format!("--{long}")]);
            }
        }
    }
    if !cluster.is_empty() {
        v.push(vec![format!("-{cluster}")]);
    }
    if ctx.tuple {
        v.push(vec!["--tuple-struct".into()]);
    }
    if spelling != 0 {
        r.shuffle(&mut v);
    }
    v.into_iter().flatten().collect()
}

/// Runs the command; `bytes` is what the input holds.
pub fn run(env: &mut Env, bytes: &[u8], c: &CliCase, s: &Surround) -> Ran {
    let w = env.world();
    let exe = w.dir.join("bin/jsonschema-transpiler");
    let cwd = w.dir.join(&s.cwd);
    let mut argv: Vec<Vec<u8>> = vec![s.argv0.clone().into_bytes()];
    let mut fl = flags(&c.ctx, c.avro, s.spelling);
    let mut file: Option<PathBuf> = None;
    let arg = match c.delivery {
        Delivery::Stdin => None,
        Delivery::Dash => Some("-".to_string()),
        Delivery::File => {
            let p = w.dir.join("in").join(&s.file);
            std::fs::write(&p, bytes).expect("write input");
            file = Some(p.clone());
            let up = s.cwd.split('/').map(|_| "../").collect::<String>();
            Some(match s.rel {
                0 => p.to_str().unwrap().to_string(),
                _ if s.cwd == "in" && s.rel == 1 && !s.file.starts_with('-') => s.file.clone(),
                _ if s.cwd == "in" => format!("./{}", s.file),
                1 => format!("{up}in/{}", s.file),
                2 => format!("./{up}in/{}", s.file),
                _ => format!("{up}cwd/.././in//{}", s.file),
            })
        }
        Delivery::Device => Some("/dev/stdin".to_string()),
    };
    if let Some(a) = arg {
        let at = if s.spelling == 0 {
            fl.len()
        } else {
            // between flags, never between a flag and its value
            let ok: Vec<usize> = (0..=fl.len()).filter(|k| *k == 0 || !matches!(fl[*k - 1].as_str(), "-t" | "-r" | "--type" | "--resolve")).collect();
            ok[(s.spelling >> 8) as usize % ok.len()]
        };
        fl.insert(at, a);
    }
    argv.extend(fl.into_iter().map(String::into_bytes));
    let mut ev = w.base_env();
    for (k, v) in &s.env {
        ev.retain(|e| e.0 != *k);
        if v != "\u{1}unset" {
            // a folder of this run
            ev.push((k.clone(), v.replace('\u{2}', w.dir.to_str().unwrap())));
        }
    }
    let r = w.run(&Launch {
        exe: &exe,
        argv,
        env: ev,
        cwd: &cwd,
        stdin: if c.delivery == Delivery::File { Stdin::Empty } else { Stdin::Bytes(bytes) },
        input_file: file.as_deref(),
        closed: s.closed & !(c.delivery != Delivery::File) as u8,
        plan: &s.plan,
    });
    if let Some(f) = file {
        let _ = std::fs::remove_file(f);
    }
    env.note_cli(&r);
    r
}

/// The library's answer for these bytes: the text the command must print, or None (reject).
fn library(env: &mut Env, c: &CliCase, bytes: &[u8]) -> Result<Option<Vec<u8>>, &'static str> {
    let Ok(doc) = serde_json::from_slice::<Value>(bytes) else { return Ok(None) };
    let op = Op::Convert { doc: 0, ctx: c.ctx.clone(), avro: c.avro };
    match env.refs.get(std::slice::from_ref(&doc), &op).0 {
        Err(_) => Err("the conversion alone ends the process"),
        Ok(Out::Ok(s)) => {
            let v: Value = serde_json::from_str(&s).unwrap();
            let mut t = serde_json::to_string_pretty(&v).unwrap();
            t.push('\n');
            Ok(Some(t.into_bytes()))
        }
        Ok(_) => Ok(None),
    }
}

/// The fault-free run in the same environment.
fn baseline(env: &mut Env, c: &CliCase, bytes: &[u8]) -> Ran {
    let mut s = Surround::default();
    s.plan.hash_seed = c.sur.plan.hash_seed;
    env.quiet_counts = true;
    let r = run(env, bytes, c, &s);
    env.quiet_counts = false;
    r
}

fn diff(got: &[u8], want: &[u8]) -> String {
    let k = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let cut = |b: &[u8]| String::from_utf8_lossy(&b[k.min(b.len())..(k + 60).min(b.len())]).into_owned();
    format!("{} bytes instead of {}, first difference at byte {k}: {:?} instead of {:?}", got.len(), want.len(), cut(got), cut(want))
}

// ---- generation ----

const READ_ERRORS: &[i32] = &[libc::EIO, libc::EISDIR, libc::EAGAIN, libc::ESTALE, libc::ETIMEDOUT, libc::ENXIO, libc::EBADMSG, libc::EINVAL, libc::ENOMEM];
const WRITE_ERRORS: &[i32] = &[libc::ENOSPC, libc::EPIPE, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EAGAIN, libc::ENOMEM, libc::EINVAL, 0];

fn chunks(r: &mut Rng) -> Vec<u32> {
    match r.below(6) {
        0 => vec![1],
        1 => vec![0],
        2 => (0..r.range(1, 8)).map(|_| r.range(1, 7) as u32).collect(),
        3 => (0..r.range(1, 8)).map(|_| r.range(1, 200) as u32).collect(),
        4 => vec![*r.pick(&[2u32, 3, 511, 512, 1023, 1024, 1025, 4095, 4096, 8191, 8192, 8193])],
        _ => (0..r.range(2, 12)).map(|_| if r.chance(1, 3) { 1 } else { r.range(1, 3000) as u32 }).collect(),
    }
}
fn eintr(r: &mut Rng) -> Vec<u32> {
    match r.below(5) {
        0 => vec![],
        1 => (0..r.range(1, 5)).map(|k| k as u32).collect(), // a burst at the start
        2 => {
            let a = r.below(12) as u32;
            (a..a + r.range(1, 20) as u32).collect()
        }
        _ => {
            let mut v: Vec<u32> = (0..r.range(1, 12)).map(|_| r.heavy(0, 60) as u32).collect();
            v.sort();
            v.dedup();
            v
        }
    }
}
fn benign(r: &mut Rng, s: &mut Stream) {
    if r.chance(3, 4) {
        s.chunks = chunks(r);
        if s.chunks == [0] {
            s.chunks.clear();
        }
    }
    if r.chance(1, 2) {
        s.eintr = eintr(r);
    }
}

pub fn doc(r: &mut Rng) -> Value {
    match r.below(16) {
        0 => {
            let n = r.range(60, 400);
            gen::big_doc(r, n)
        }
        1 => r.pick(gen::corpus()).clone(),
        2 => {
            let mut g = gen::Gen::new(r, Focus::Verdict);
            g.bad = 20;
            g.doc(r)
        }
        3 => {
            let mut g = gen::Gen::new(r, Focus::Json);
            g.doc(r)
        }
        _ => {
            let mut g = gen::Gen::new(r, Focus::General);
            g.doc(r)
        }
    }
}

fn clk(r: &mut Rng, p: &mut Plan) {
    p.clk_base_ns = *r.pick(&[0i64, 1, 1_000_000_000, 1_700_000_000_000_000_000, 2_147_483_648_000_000_000, 4_102_444_800_000_000_000]);
    p.clk_step_ns = *r.pick(&[0i64, 1, 1000, 1_000_000, 10_000_000_000, -1000]);
    let n = r.below(4);
    p.clk_jumps = (0..n).map(|_| (r.below(40) as u32, *r.pick(&[-3_600_000_000_000i64, 3_600_000_000_000, 86_400_000_000_000, -86_400_000_000_000]))).collect();
}

/// What the input says about itself.
fn kind(r: &mut Rng, p: &mut Plan, len: usize) {
    p.in_kind = r.below(3) as u64;
    if p.in_kind == 2 {
        p.in_size = match r.below(5) {
            0 | 1 => 0,
            2 => len as i64 - 1,
            3 => len as i64 + r.range(1, 5000) as i64,
            _ => r.below(len + 1) as i64,
        }
        .max(0);
    }
}

fn level(r: &mut Rng) -> String {
    r.pick(&[
        "off", "error", "warn", "info", "debug", "trace", "jst=trace", "jst=off", "jst::ast=trace", "warn,jst::ast=trace", "jst::avro=warn", "jst::bigquery=debug",
        "TRACE", "Warn", "trace/JSON", "debug,jst=error",
    ])
    .to_string()
}

pub fn gen_cli(r: &mut Rng, prop: &str, env: &mut Env) -> CliCase {
    let d = doc(r);
    let input = if r.chance(1, 3) { Input::Pretty(d.clone()) } else { Input::Doc(d.clone()) };
    let mut c = CliCase {
        input,
        delivery: *r.pick(&[Delivery::Stdin, Delivery::Stdin, Delivery::Dash, Delivery::Dash, Delivery::File, Delivery::File, Delivery::File, Delivery::Device]),
        ctx: Ctx { regex: None, ..gen::ctx(r) },
        avro: r.coin(),
        sur: Surround::default(),
        other: None,
    };
    let h = r.u64() >> 12;
    c.sur.plan.hash_seed = h;
    if r.chance(1, 3) && prop != "C15" {
        c.sur.env.push(("RUST_LOG".into(), level(r)));
    }
    if r.chance(if prop == "C09" { 3 } else { 1 }, 6) {
        kind(r, &mut c.sur.plan, c.input.bytes().len());
    }
    if prop == "C09" && r.chance(1, 4) {
        c.sur.rel = r.range(1, 3) as u8;
        c.sur.cwd = r.pick(&["cwd", "cwd2/a b/c", "tmp", "in"]).to_string();
    }
    if r.chance(1, 12) && prop != "C15" {
        c.sur.closed |= 1;
    }
    match prop {
        "C09" => {
            let p = &mut c.sur.plan;
            benign(r, &mut p.input);
            benign(r, &mut p.output);
            if r.coin() {
                benign(r, &mut p.diag);
            }
            if c.delivery == Delivery::File && r.chance(1, 3) {
                p.open_eintr = r.range(1, 5) as u32;
            }
            if r.chance(1, 6) {
                // odd but valid spellings of the same document
                let b = String::from_utf8(c.input.bytes()).unwrap();
                let mut t = String::new();
                t.push_str(&" \n\t\r".repeat(r.below(4)));
                let esc = r.coin();
                for ch in b.chars() {
                    if esc && ch.is_alphabetic() && (ch as u32) > 127 && (ch as u32) < 0xD800 {
                        t.push_str(&format!("\\u{:04x}", ch as u32));
                    } else {
                        t.push(ch);
                    }
                }
                let n = *r.pick(&[0usize, 1, 1024, 8192, 9000]);
                t.push_str(&" ".repeat(n));
                t.push('\n');
                c.input = Input::Text(t);
            }
            if r.chance(1, 60) {
                // much larger than any buffer
                let n = match r.below(8) {
                    0 => *r.pick(&[(1usize << 24) + 1, 17_000_000]),
                    1 | 2 => *r.pick(&[1usize << 20, (1 << 20) + 1, 1_100_000, 3_000_000]),
                    _ => *r.pick(&[65_535usize, 65_536, 65_537, 70_000, 131_073, 262_145, 600_000]),
                };
                c.input = Input::Padded { doc: d.clone(), at: if d.is_object() { r.below(3) as u8 } else { 0 }, n };
                for s in [&mut c.sur.plan.input, &mut c.sur.plan.output] {
                    s.chunks.retain(|k| *k >= 4096);
                }
            }
            if r.chance(1, 40) {
                // documents that are JSON but not schemas
                c.input = Input::Text(r.pick(&["null", "true", "[]", "5", "\"x\"", "{}", "[{}]", "-0.0", "1e400"]).to_string());
            }
        }
        "C10" => {
            benign(r, &mut c.sur.plan.input);
            let b = c.input.bytes();
            let n = b.len() as i64;
            match r.below(10) {
                0 | 1 => {
                    // reading fails; often right at or after the end of the document
                    c.sur.plan.input.err_at = match r.below(4) {
                        0 => n,
                        1 => 0,
                        _ => r.below(n as usize + 1) as i64,
                    };
                    c.sur.plan.input.err_no = *r.pick(READ_ERRORS);
                    c.sur.plan.input.err_count = if r.coin() { ALWAYS } else { r.range(1, 2) as u32 };
                }
                2 => {
                    c.delivery = Delivery::File;
                    c.sur.plan.open_errno = *r.pick(&[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ELOOP, libc::ENOMEM, libc::EISDIR, libc::ESTALE]);
                }
                3 | 4 => {
                    // the stream ends early
                    c.sur.plan.input.eof_at = match r.below(5) {
                        0 => n - 1,
                        1 => 0,
                        2 => (n - 2).max(0),
                        _ => r.below(n as usize) as i64,
                    };
                }
                5 => {
                    // torn between two versions
                    let m = serde_json::to_vec(&gen::mutate(r, &d)).unwrap();
                    let o = serde_json::to_vec(&d).unwrap();
                    let k = r.below(o.len().min(m.len()) + 1);
                    let mut t = o[..k].to_vec();
                    t.extend_from_slice(&m[k.min(m.len())..]);
                    c.input = Input::of(t);
                }
                6 | 7 => {
                    // followed by other data
                    let mut t = b.clone();
                    let tail: Vec<u8> = match r.below(14) {
                        12 => {
                            let mut v = match r.below(3) {
                                0 => vec![],
                                1 => b"\n".to_vec(),
                                _ => b" ".repeat(r.range(0, 40)),
                            };
                            v.extend_from_slice(TAILS[r.below(TAILS.len())]);
                            if r.coin() {
                                v.push(b'\n');
                            }
                            v
                        }
                        13 => {
                            let k = loop {
                                let k = r.below(256) as u8;
                                if !b" \t\r\n".contains(&k) {
                                    break k;
                                }
                            };
                            vec![k]
                        }
                        0 => b"}".to_vec(),
                        1 => b"null".to_vec(),
                        2 => b"\n\n{".to_vec(),
                        3 => b",".to_vec(),
                        4 => b"\0".to_vec(),
                        5 => b"\xff".to_vec(),
                        6 => b" x".to_vec(),
                        7 => b"]".to_vec(),
                        8 => b"# comment\n".to_vec(),
                        9 => {
                            let mut v = b" ".repeat(r.range(0, 9000));
                            v.push(b'1');
                            v
                        }
                        10 => {
                            let mut v = b"\n".to_vec();
                            v.extend(&b);
                            v
                        }
                        _ => {
                            let d2 = gen::mutate(r, &d);
                            serde_json::to_vec(&d2).unwrap()
                        }
                    };
                    t.extend(tail);
                    c.input = Input::of(t);
                }
                8 if r.chance(1, 3) => {
                    // preceded by other data
                    let mut t = match r.below(4) {
                        0 => vec![r.below(256) as u8],
                        _ => HEADS[r.below(HEADS.len())].to_vec(),
                    };
                    t.extend(&b);
                    if r.chance(1, 4) {
                        t.extend_from_slice(TAILS[r.below(TAILS.len())]);
                    }
                    c.input = Input::of(t);
                }
                8 => {
                    // corrupted bytes
                    let mut t = b.clone();
                    for _ in 0..r.range(1, 3) {
                        let k = r.below(t.len());
                        match r.below(4) {
                            0 => t[k] ^= 1 << r.below(8),
                            1 => t[k] = *r.pick(b"\0\xff{}[],:\"0\\"),
                            2 => drop(t.remove(k)),
                            _ => t.insert(k, *r.pick(b"\0\xc3{}[],:\"x ")),
                        }
                        if t.is_empty() {
                            break;
                        }
                    }
                    c.input = Input::of(t);
                }
                _ => {
                    c.input = Input::of(
                        r.pick(&[
                            &b""[..], b" ", b"\n", b"{", b"[", b"\"", b"nul", b"{\"type\":\"object\",}", b"\xef\xbb\xbf{\"type\":\"string\"}", b"{'type':'string'}", b"{\"type\":\"string\"",
                            b"{} {}", b"// c\n{}", b"{\"type\":\"string\"}\0", b"\xff\xfe{\0}\0", b"01", b"+1", b"NaN", b"{\"a\":1 \"b\":2}", b"{\"type\":\"strin\\g\"}", b"{\"type\":\"s\ttring\"}",
                        ])
                        .to_vec(),
                    );
                }
            }
        }
        "C11" => {
            benign(r, &mut c.sur.plan.output);
            if r.chance(1, 3) {
                benign(r, &mut c.sur.plan.input);
            }
            let n = baseline_len(env, &c);
            let o = &mut c.sur.plan.output;
            o.err_at = match r.below(8) {
                0 => n - 1,
                1 => n,
                2 => 0,
                3 => (1024 * r.range(1, 4) as i64).min(n),
                4 => (n - 2).max(0),
                _ => r.below(n.max(1) as usize) as i64,
            }
            .max(0);
            o.err_no = *r.pick(WRITE_ERRORS);
            o.err_count = if r.chance(2, 3) { ALWAYS } else { r.range(1, 3) as u32 };
        }
        "C12" => {
            c.sur.env.retain(|e| e.0 != "RUST_LOG");
            if r.chance(5, 6) {
                c.sur.env.push(("RUST_LOG".into(), level(r)));
            }
            if r.chance(1, 4) {
                c.sur.env.push(("RUST_LOG_STYLE".into(), r.pick(&["always", "never", "auto"]).to_string()));
            }
            if r.chance(1, 12) {
                c.sur.env.push(("RUST_BACKTRACE".into(), "1".into()));
            }
            c.sur.plan.tty = r.below(8) as u64;
            if r.chance(1, 8) {
                c.sur.closed |= 4;
            }
            benign(r, &mut c.sur.plan.diag);
            if r.chance(2, 3) {
                let o = &mut c.sur.plan.diag;
                o.err_at = if r.coin() { 0 } else { r.heavy(0, 3000) as i64 };
                o.err_no = *r.pick(WRITE_ERRORS);
                o.err_count = if r.coin() { ALWAYS } else { r.range(1, 5) as u32 };
            }
        }
        "C13" => {
            let n = baseline(env, &c, &c.input.bytes()).mallocs;
            let p = &mut c.sur.plan;
            p.malloc_fail_at = match r.below(4) {
                0 => r.below(120.min(n as usize + 1)) as i64,
                1 => n as i64 - 1 - r.below(40.min(n as usize)) as i64,
                _ => r.below(n as usize + 1) as i64,
            }
            .max(0);
            p.malloc_fail_count = match r.below(3) {
                0 => ALWAYS,
                1 => 1,
                _ => r.range(1, 5) as u32,
            };
            if r.chance(1, 4) {
                benign(r, &mut p.input);
                benign(r, &mut p.output);
            }
        }
        "C14" => {
            let p = &mut c.sur.plan;
            for s in [&mut p.input, &mut p.output, &mut p.diag] {
                benign(r, s);
            }
            if r.chance(1, 20) {
                let deep = r.range(20, 140);
                c.input = Input::Text(match r.below(3) {
                    0 => "[".repeat(deep),
                    1 => "{\"items\":".repeat(deep),
                    _ => format!("{}{{}}{}", "{\"properties\":{\"a\":".repeat(deep / 2), "}}".repeat(deep / 2)),
                });
            }
            let n = c.input.bytes().len();
            let p = &mut c.sur.plan;
            match r.below(5) {
                0 => {
                    p.input.err_at = r.below(n + 1) as i64;
                    p.input.err_no = *r.pick(READ_ERRORS);
                    p.input.err_count = ALWAYS;
                }
                1 | 2 => {
                    p.output.err_at = r.heavy(0, 3000) as i64;
                    p.output.err_no = if r.chance(1, 3) { 0 } else { *r.pick(WRITE_ERRORS) };
                    p.output.err_count = ALWAYS;
                }
                3 => {
                    p.diag.err_at = r.heavy(0, 300) as i64;
                    p.diag.err_no = *r.pick(WRITE_ERRORS);
                    p.diag.err_count = ALWAYS;
                    p.input.eof_at = if r.coin() { r.below(n) as i64 } else { -1 };
                }
                _ => {
                    if r.coin() {
                        p.input.eof_at = r.below(n + 1) as i64;
                    }
                    if c.delivery == Delivery::File && r.chance(1, 4) {
                        p.open_errno = *r.pick(&[libc::EAGAIN, libc::EBUSY, libc::ENOENT, libc::EMFILE, libc::ETXTBSY]);
                    }
                }
            }
            if r.chance(1, 3) {
                clk(r, p);
            }
            p.max_events = 3_000_000;
        }
        "C15" => {
            let mut o = Surround::default();
            let p = &mut o.plan;
            p.hash_seed = r.u64() >> 12;
            if r.chance(2, 3) {
                p.heap_seed = r.u64() >> 12;
            }
            if r.coin() {
                p.env_seed = r.u64() >> 12;
            }
            p.tty = r.below(8) as u64;
            if r.chance(2, 3) {
                clk(r, p);
            }
            o.spelling = if r.chance(3, 4) { r.u64() >> 12 | 1 } else { 0 };
            for (k, vals) in [
                ("LANG", &["C", "tr_TR.UTF-8", "de_DE.ISO-8859-1", "xx"][..]),
                ("LC_ALL", &["C", "POSIX", "ja_JP.UTF-8", "en_US.UTF-8"]),
                ("TZ", &["UTC", "Asia/Tokyo", "America/St_Johns", "bogus"]),
                ("TERM", &["dumb", "xterm-256color", ""]),
                ("COLUMNS", &["1", "80", "x"]),
                ("HOME", &["/nonexistent", "\u{1}unset", ""]),
                ("PATH", &["/nonexistent", "\u{1}unset"]),
                ("TMPDIR", &["/nonexistent", "\u{1}unset"]),
                ("NO_COLOR", &["1", ""]),
                ("CLICOLOR_FORCE", &["1"]),
                ("CI", &["true"]),
                ("USER", &["root", "x"]),
                ("PWD", &["/", "/x y", "\u{2}", "\u{2}/tmp", "\u{2}/in", "\u{2}/cwd2", "\u{1}unset", ""]),
                ("OLDPWD", &["\u{2}/in", "\u{2}/tmp", "/"]),
                ("INIT_CWD", &["\u{2}/tmp"]),
                ("CARGO_MANIFEST_DIR", &["\u{2}/tmp"]),
                ("RUST_MIN_STACK", &["1000000", "x"]),
                ("XDG_CONFIG_HOME", &["/nonexistent"]),
                ("CLAP_TERM_WIDTH", &["20"]),
                ("RUST_LOG_STYLE", &["always", "never"]),
            ] {
                if r.chance(1, 4) {
                    o.env.push((k.into(), r.pick(vals).to_string()));
                }
            }
            if r.chance(1, 10) {
                o.env.push(("RUST_BACKTRACE".into(), r.pick(&["1", "0"]).to_string()));
            }
            if r.chance(1, 3) {
                o.env.push(("RUST_LOG".into(), level(r)));
            }
            o.argv0 = r.pick(&["jsonschema-transpiler", "jst", "./x y", "", "bigquery", "-c", "/usr/bin/avro"]).to_string();
            o.file = r.pick(&["schema.json", "-", "a b.json", "x", "bigquery.avro", "ünï.json", "SCHEMA.JSON", "s.schema.json", "--type", "~schema.json", "~", "$HOME.json", "%7e.json", "s.yaml", "s.json.gz", "*.json", "s.json ", "@s.json"]).to_string();
            if r.chance(1, 4) {
                o.file = FILES[r.below(FILES.len())].to_string();
            }
            o.cwd = r.pick(&["cwd", "cwd2/a b/c", "tmp", "in"]).to_string();
            o.rel = if r.coin() { r.range(1, 3) as u8 } else { 0 };
            if r.chance(1, 12) {
                // a folder that is no more
                o.cwd = GONE.into();
                o.rel = 0;
            }
            kind(r, &mut o.plan, c.input.bytes().len());
            c.other = Some(Box::new(o));
        }
        "C18" => {
            let n = baseline(env, &c, &c.input.bytes());
            let p = &mut c.sur.plan;
            if r.chance(1, 2) {
                benign(r, &mut p.input);
                benign(r, &mut p.output);
            }
            match r.below(8) {
                0 => {
                    // runs to its end, or fails by itself
                    if r.coin() {
                        p.output.err_at = r.below(200) as i64;
                        p.output.err_no = libc::ENOSPC;
                        p.output.err_count = ALWAYS;
                    }
                    clk(r, p);
                }
                1 | 2 => {
                    p.kill_at_malloc = r.below(n.mallocs as usize + 1) as i64;
                    p.kill_sig = libc::SIGKILL;
                }
                _ => {
                    let ev = if p.output.chunks.is_empty() && p.input.chunks.is_empty() { n.events as usize } else { r.heavy(4, 120) };
                    p.kill_at = r.below(ev + 1) as i64;
                    p.kill_when = r.below(3) as u32;
                    p.kill_sig = *r.pick(&[libc::SIGKILL, libc::SIGKILL, libc::SIGTERM, libc::SIGINT, libc::SIGHUP, libc::SIGPIPE]);
                }
            }
        }
        _ => unreachable!(),
    }
    c
}

pub const GONE: &str = "gone";
/// Names with a meaning elsewhere.
const FILES: &[&str] = &[
    "s.bq.json", "schema.bigquery.json", "s.bq", "x.avsc", "x.avro", "s.avro.json", "s.avsc.json", "avro", "bigquery", "cast", "drop", "panic", "null", "stdin", "telemetry.main.4.schema.json", "main.4.bq", "s.txt", "s", "s.JSON",
    "s.jsonc", "s.json5", "s.yml", "s.toml", "s.gz", "s.json.tmp", "s.json~", ".json", ".s.json", "..json", "-t", "-", "--", "help", "--help", "-h", "-V", "s:json", "s?json", "s json", "\"s\".json", "s\n.json", "0", "1", "http:s.json",
    "gs:s.json", "s.ndjson", "s.jsonl", "s.tuple.json", "s.nullable.json", "s.snake.json", "Schema.v2.json",
];

/// What may follow a document without being part of it.
const TAILS: &[&[u8]] = &[
    b";", b",", b"\x0b", b"\x0c", b"\x1a", b"\x04", b"\0", b"\0\0\0\0", b"\xc2\xa0", b"\xc2\x85", b"\xe3\x80\x80", b"\xef\xbb\xbf", b"\xe2\x80\xa8", b"```", b"```\n", b"---", b"...", b"// end", b"/* end */",
    b"# end", b"}", b"]", b")", b");", b"EOF", b"\x1b[0m", b"$", b"<<<<<<< HEAD", b"\x7f", b"'", b"\"", b"{}", b"null", b"\x1e", b"-- ",
];
/// What may precede one.
const HEADS: &[&[u8]] = &[
    b"\xef\xbb\xbf", b"\xff\xfe", b"```json\n", b"---\n", b"// schema\n", b"/* schema */ ", b"# schema\n", b"#!/bin/sh\n", b"(", b"'", b"\"", b"[", b"{", b",", b";", b"\0", b"\xc2\xa0", b"\x0c", b"\x0b", b"schema = ", b"module.exports = ",
    b"callback(", b")]}',\n", b"\x1b[0m", b"<?xml?>", b"null\n", b"{}\n", b"\xe2\x80\x8b", b"\x1e", b"while(1);",
];

fn baseline_len(env: &mut Env, c: &CliCase) -> i64 {
    baseline(env, c, &c.input.bytes()).stdout.len() as i64
}

// ---- judging ----

pub fn judge(c: &CliCase, prop: &str, env: &mut Env) -> Verdict {
    let bytes = c.input.bytes();
    let key = |r: &Ran| fnv(&format!("{:?}{:?}", c.input, c.ctx)) ^ r.log_hash;
    if prop == "C15" {
        return judge_environments(c, &bytes, env);
    }
    match prop {
        "C09" => {
            let want = match library(env, c, &bytes) {
                Ok(w) => w,
                Err(e) => return Verdict::Skipped(e),
            };
            let r = run(env, &bytes, c, &c.sur);
            match want {
                Some(w) => {
                    if !r.ok() {
                        return Verdict::Violated(format!("the library converts the document, but the command ended with {}: {}", r.ending(), err_text(&r)));
                    }
                    if r.stdout != w {
                        if hash_sensitive(env, c, &bytes) {
                            return Verdict::Skipped("result depends on hash keys (judged by C01-C04)");
                        }
                        return Verdict::Violated(format!("standard output is not the library's conversion: {}", diff(&r.stdout, &w)));
                    }
                }
                None => {
                    if r.ok() || !r.stdout.is_empty() {
                        return Verdict::Violated(format!("the library rejects the document, but the command ended with {} having printed {} bytes", r.ending(), r.stdout.len()));
                    }
                }
            }
            Verdict::Held { nontrivial: r.short.iter().chain(&r.eintr).sum::<u64>() > 0, key: key(&r) }
        }
        "C10" => {
            let r = run(env, &bytes, c, &c.sur);
            let failed = r.err[0] + r.open_err > 0;
            let got = &bytes[..(r.in_max as usize).min(bytes.len())];
            let k = key(&r);
            if failed {
                if r.ok() || !r.stdout.is_empty() {
                    return Verdict::Violated(format!("reading the input failed, but the command ended with {} having printed {} bytes", r.ending(), r.stdout.len()));
                }
                return Verdict::Held { nontrivial: true, key: k };
            }
            let parsed = serde_json::from_slice::<Value>(got).is_ok();
            if !parsed {
                if r.ok() || !r.stdout.is_empty() {
                    return Verdict::Violated(format!(
                        "the {} bytes delivered are not one JSON document, but the command ended with {} having printed {} bytes",
                        got.len(),
                        r.ending(),
                        r.stdout.len()
                    ));
                }
                return Verdict::Held { nontrivial: true, key: k };
            }
            if r.ok() && !r.in_eof_seen {
                return Verdict::Violated("the command exited 0 without reading its input to the end".into());
            }
            if !r.ok() && !r.stdout.is_empty() {
                return Verdict::Violated(format!("the command failed ({}) after printing {} bytes", r.ending(), r.stdout.len()));
            }
            if r.ok() {
                match library(env, c, got) {
                    Ok(Some(w)) if w == r.stdout => {}
                    Ok(w) => {
                        if hash_sensitive(env, c, got) {
                            return Verdict::Skipped("result depends on hash keys (judged by C01-C04)");
                        }
                        return Verdict::Violated(format!("the output is not that of the {} bytes delivered: {}", got.len(), diff(&r.stdout, &w.unwrap_or_default())));
                    }
                    Err(e) => return Verdict::Skipped(e),
                }
            }
            Verdict::Held { nontrivial: false, key: k }
        }
        "C11" => {
            let b = baseline(env, c, &bytes);
            if !b.ok() {
                return Verdict::Held { nontrivial: false, key: key(&b) };
            }
            let r = run(env, &bytes, c, &c.sur);
            if r.ok() && r.stdout != b.stdout {
                return Verdict::Violated(format!("exit status 0, but standard output accepted {}", diff(&r.stdout, &b.stdout)));
            }
            if !b.stdout.starts_with(&r.stdout) {
                return Verdict::Violated(format!("{}, and what was written is not a prefix of the schema: {}", r.ending(), diff(&r.stdout, &b.stdout)));
            }
            if !r.ok() && r.err[1] == 0 {
                return Verdict::Violated(format!("standard output accepted everything offered, but the command ended with {}: {}", r.ending(), err_text(&r)));
            }
            Verdict::Held { nontrivial: r.err[1] > 0, key: key(&r) }
        }
        "C12" => {
            let b = baseline(env, c, &bytes);
            let r = run(env, &bytes, c, &c.sur);
            if b.ok() != r.ok() {
                return Verdict::Violated(format!(
                    "the command ends with {} without logging and with {} with {:?} and standard error {}: {}",
                    b.ending(),
                    r.ending(),
                    c.sur.env,
                    if r.err[2] > 0 { "failing" } else { "healthy" },
                    err_text(&r)
                ));
            }
            if b.stdout != r.stdout {
                return Verdict::Violated(format!("standard output differs with {:?}: {}", c.sur.env, diff(&r.stdout, &b.stdout)));
            }
            Verdict::Held { nontrivial: r.calls[2] > 0, key: key(&r) }
        }
        "C13" => {
            let b = baseline(env, c, &bytes);
            let r = run(env, &bytes, c, &c.sur);
            if r.hang {
                return Verdict::Violated(format!("after {} failed allocations the command did not end", r.malloc_fail));
            }
            let want: &[u8] = if b.ok() { &b.stdout } else { b"" };
            if r.ok() && (!b.ok() || r.stdout != want) {
                return Verdict::Violated(format!("allocation {} failed, the command exited 0 with a wrong result: {}", c.sur.plan.malloc_fail_at, diff(&r.stdout, want)));
            }
            if !want.starts_with(&r.stdout) {
                return Verdict::Violated(format!("allocation {} failed, {}, and what was printed is not a prefix of the schema: {}", c.sur.plan.malloc_fail_at, r.ending(), diff(&r.stdout, want)));
            }
            if r.out_before_eof > 0 {
                return Verdict::Violated(format!("{} bytes were printed before the document had been read completely", r.out_before_eof));
            }
            Verdict::Held { nontrivial: r.malloc_fail > 0, key: key(&r) ^ c.sur.plan.malloc_fail_at as u64 }
        }
        "C14" => {
            let r = run(env, &bytes, c, &c.sur);
            let what = if r.hang {
                Some(format!("the command did not end: stopped after {} I/O events", r.events))
            } else if r.timer_waits > 0 {
                Some(format!("the command waited on a timer {} times", r.timer_waits))
            } else if r.err[0] + r.open_err > LIMIT_IN {
                Some(format!("{} further attempts on an input that keeps failing", r.err[0] + r.open_err))
            } else if r.err[1] > LIMIT {
                Some(format!("{} further attempts on a standard output that keeps failing", r.err[1]))
            } else if r.reads_after_eof > LIMIT_IN {
                Some(format!("{} reads after the end of the input", r.reads_after_eof))
            } else if r.calls[0] > r.off[0] + r.eintr[0] + r.err[0] + LIMIT_IN || r.calls[1] > r.off[1] + r.eintr[1] + r.err[1] + LIMIT {
                Some(format!("{} reads for {} bytes, {} writes for {} bytes", r.calls[0], r.off[0], r.calls[1], r.off[1]))
            } else if r.err[0] + r.open_err > 0 && r.ok() {
                Some("exit status 0 although the input failed for good".into())
            } else if r.err[1] > 0 && r.ok() {
                Some("exit status 0 although standard output failed for good".into())
            } else {
                None
            };
            match what {
                Some(w) => Verdict::Violated(w),
                None => Verdict::Held { nontrivial: r.err.iter().sum::<u64>() + r.open_err + r.eof_fired + r.eintr.iter().sum::<u64>() > 0, key: key(&r) },
            }
        }
        "C18" => {
            let b = baseline(env, c, &bytes);
            let r = run(env, &bytes, c, &c.sur);
            let want: &[u8] = if b.ok() { &b.stdout } else { b"" };
            if !want.starts_with(&r.stdout) {
                return Verdict::Violated(format!("{}: standard output holds {}", r.ending(), diff(&r.stdout, want)));
            }
            for (x, when) in [(&b, "a completed run"), (&r, if r.killed > 0 { "a killed run" } else { "a run" })] {
                if x.out_before_eof > 0 {
                    return Verdict::Violated(format!("{when} offered {} bytes of output before it had read its input to the end", x.out_before_eof));
                }
                if x.fs_effects + x.proc_effects > 0 {
                    env.world().clean();
                    return Verdict::Violated(format!("{when} changed more than its output: {} ({} such calls)", x.effect, x.fs_effects + x.proc_effects));
                }
            }
            let left = leftovers(env);
            if let Some(l) = left {
                env.world().clean();
                return Verdict::Violated(format!("after the run there is a new file {l}"));
            }
            Verdict::Held { nontrivial: r.killed > 0, key: key(&r) ^ (c.sur.plan.kill_at_malloc as u64) << 20 }
        }
        _ => unreachable!(),
    }
}

const LIMIT: u64 = 16;
/// The parser asks once more for every open bracket, and accepts at most 128 of them.
const LIMIT_IN: u64 = 16 + 2 * 128;

fn leftovers(env: &mut Env) -> Option<String> {
    let w = env.world();
    for d in ["in", "tmp", "home", "cwd", "cwd2/a b/c"] {
        if let Ok(mut it) = std::fs::read_dir(w.dir.join(d)) {
            if let Some(Ok(e)) = it.next() {
                return Some(format!("{d}/{}", e.file_name().to_string_lossy()));
            }
        }
    }
    None
}

fn err_text(r: &Ran) -> String {
    String::from_utf8_lossy(&r.stderr[..r.stderr.len().min(200)]).replace('\n', " ")
}

/// Whether the command's output depends on its hash seed alone.
fn hash_sensitive(env: &mut Env, c: &CliCase, bytes: &[u8]) -> bool {
    let mut outs = std::collections::BTreeSet::new();
    for h in 0..12 {
        let mut s = Surround::default();
        s.plan.hash_seed = 1000 + h * 77;
        let r = run(env, bytes, c, &s);
        outs.insert((r.ok(), r.stdout));
    }
    outs.len() > 1
}

fn judge_environments(c: &CliCase, bytes: &[u8], env: &mut Env) -> Verdict {
    let a = run(env, bytes, c, &c.sur);
    let o = c.other.as_ref().unwrap();
    let b = run(env, bytes, c, o);
    env.world().clean();
    if a.ok() != b.ok() {
        return Verdict::Violated(format!("two runs disagree: {} in the plain environment, {} in {}: {}", a.ending(), b.ending(), env_brief(o), err_text(if a.ok() { &b } else { &a })));
    }
    if a.stdout != b.stdout {
        return Verdict::Violated(format!("two runs print different output: in {}: {}", env_brief(o), diff(&b.stdout, &a.stdout)));
    }
    Verdict::Held { nontrivial: a.ok(), key: fnv(&format!("{:?}", c)) }
}

fn env_brief(o: &Surround) -> String {
    format!(
        "[variables {:?}, program name {:?}, file {:?} named in way {}, folder {:?}, input kind {}, hash seed {:#x}, heap {:#x}, unset variables {:#x}, terminals {:#b}, clock {}+{}/reading, flag spelling {:#x}]",
        o.env, o.argv0, o.file, o.rel, o.cwd, o.plan.in_kind, o.plan.hash_seed, o.plan.heap_seed, o.plan.env_seed, o.plan.tty, o.plan.clk_base_ns, o.plan.clk_step_ns, o.spelling
    )
}

// ---- shrinking ----

fn simpler_stream(s: &Stream) -> Vec<Stream> {
    let mut v = Vec::new();
    if !s.chunks.is_empty() {
        v.push(Stream { chunks: vec![], ..s.clone() });
        if s.chunks.len() > 1 {
            v.push(Stream { chunks: s.chunks[..s.chunks.len() / 2].to_vec(), ..s.clone() });
        }
    }
    if !s.eintr.is_empty() {
        v.push(Stream { eintr: vec![], ..s.clone() });
        v.push(Stream { eintr: s.eintr[..s.eintr.len() / 2].to_vec(), ..s.clone() });
        v.push(Stream { eintr: s.eintr[s.eintr.len() / 2..].to_vec(), ..s.clone() });
    }
    if s.err_at >= 0 {
        v.push(Stream { err_at: -1, err_no: 0, err_count: 0, ..s.clone() });
        if s.err_at > 0 {
            v.push(Stream { err_at: s.err_at / 2, ..s.clone() });
            v.push(Stream { err_at: 0, ..s.clone() });
        }
    }
    if s.eof_at >= 0 {
        v.push(Stream { eof_at: -1, ..s.clone() });
    }
    v
}

pub fn simpler_plan(p: &Plan) -> Vec<Plan> {
    let mut v = Vec::new();
    let d = Plan { mode: p.mode, hash_seed: p.hash_seed, ..Plan::default() };
    if *p != d {
        v.push(d);
    }
    for s in simpler_stream(&p.input) {
        v.push(Plan { input: s, ..p.clone() });
    }
    for s in simpler_stream(&p.output) {
        v.push(Plan { output: s, ..p.clone() });
    }
    for s in simpler_stream(&p.diag) {
        v.push(Plan { diag: s, ..p.clone() });
    }
    let z = Plan::default();
    let mut tweak = |f: &dyn Fn(&mut Plan)| {
        let mut q = p.clone();
        f(&mut q);
        if q != *p {
            v.push(q);
        }
    };
    tweak(&|q| q.open_errno = 0);
    tweak(&|q| q.open_eintr = 0);
    tweak(&|q| {
        q.malloc_fail_at = -1;
        q.malloc_fail_count = 0
    });
    tweak(&|q| {
        q.kill_sig = 0;
        q.kill_at = -1;
        q.kill_at_malloc = -1
    });
    tweak(&|q| q.clk_jumps.clear());
    tweak(&|q| {
        q.clk_base_ns = z.clk_base_ns;
        q.clk_step_ns = z.clk_step_ns
    });
    tweak(&|q| q.heap_seed = 0);
    tweak(&|q| q.env_seed = 0);
    tweak(&|q| q.tty = 0);
    tweak(&|q| {
        q.in_kind = 0;
        q.in_size = 0
    });
    tweak(&|q| q.dir_seed = 0);
    v
}

fn simpler_surround(s: &Surround) -> Vec<Surround> {
    let d = Surround::default();
    let mut v: Vec<Surround> = simpler_plan(&s.plan).into_iter().map(|plan| Surround { plan, ..s.clone() }).collect();
    for k in 0..s.env.len() {
        let mut q = s.clone();
        q.env.remove(k);
        v.push(q);
    }
    if s.spelling != 0 {
        v.push(Surround { spelling: 0, ..s.clone() });
    }
    if s.argv0 != d.argv0 {
        v.push(Surround { argv0: d.argv0.clone(), ..s.clone() });
    }
    if s.file != d.file {
        v.push(Surround { file: d.file.clone(), ..s.clone() });
    }
    if s.rel != 0 {
        v.push(Surround { rel: 0, ..s.clone() });
    }
    if s.closed != 0 {
        v.push(Surround { closed: 0, ..s.clone() });
    }
    if s.cwd != d.cwd {
        v.push(Surround { cwd: d.cwd.clone(), ..s.clone() });
    }
    v
}

pub fn simpler(c: &CliCase) -> Vec<CliCase> {
    let mut v: Vec<CliCase> = simpler_surround(&c.sur).into_iter().map(|sur| CliCase { sur, ..c.clone() }).collect();
    if let Some(o) = &c.other {
        v.extend(simpler_surround(o).into_iter().map(|o| CliCase { other: Some(Box::new(o)), ..c.clone() }));
    }
    for ctx in crate::campaign::simpler_ctx(&c.ctx) {
        v.push(CliCase { ctx, ..c.clone() });
    }
    match &c.input {
        Input::Pretty(d) => v.push(CliCase { input: Input::Doc(d.clone()), ..c.clone() }),
        Input::Padded { doc, at, n } => {
            v.push(CliCase { input: Input::Doc(doc.clone()), ..c.clone() });
            if *n > 0 {
                for m in [n / 2, n - n / 16, n - 1] {
                    v.push(CliCase { input: Input::Padded { doc: doc.clone(), at: *at, n: m }, ..c.clone() });
                }
            }
            if v.len() < 400 {
                for x in crate::campaign::simpler_json(doc) {
                    v.push(CliCase { input: Input::Padded { doc: x, at: if *at == 1 { 0 } else { *at }, n: *n }, ..c.clone() });
                }
            }
        }
        Input::Text(t) => {
            let n = t.chars().count();
            let mut k = n / 2;
            while k >= 1 {
                let mut at = 0;
                while at < n && v.len() < 400 {
                    let s: String = t.chars().enumerate().filter(|(i, _)| *i < at || *i >= at + k).map(|x| x.1).collect();
                    v.push(CliCase { input: Input::Text(s), ..c.clone() });
                    at += k;
                }
                k /= 2;
            }
        }
        _ => {}
    }
    if let Input::Doc(d) | Input::Pretty(d) = &c.input {
        for x in crate::campaign::simpler_json(d) {
            v.push(CliCase { input: Input::Doc(x), ..c.clone() });
        }
    }
    if c.delivery != Delivery::Stdin {
        v.push(CliCase { delivery: Delivery::Stdin, ..c.clone() });
    }
    v
}

//! The command under simulation: one source text, and disturbed runs of it.
use crate::rng::Rng;
use crate::sched::Sched;
use crate::sim::{FilePlan, Guest, Jump, Oc, Plan, Res, StreamPlan, KINDS0, HEAP0, STACK0};
use serde::{Deserialize, Serialize};

/// Bytes as text when they are text, as hex otherwise.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Bytes(pub Vec<u8>);
impl Serialize for Bytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match std::str::from_utf8(&self.0) {
            Ok(t) if !t.starts_with("hex:") => s.serialize_str(t),
            _ => s.serialize_str(&format!("hex:{}", self.0.iter().map(|b| format!("{:02x}", b)).collect::<String>())),
        }
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if let Some(h) = s.strip_prefix("hex:") {
            let b: Result<Vec<u8>, _> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16)).collect();
            return b.map(Bytes).map_err(serde::de::Error::custom);
        }
        Ok(Bytes(s.into_bytes()))
    }
}

/// What storage or transmission did to the text.
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Damage {
    Truncate { at: usize },
    Lose { at: usize, len: usize },
    Zero { at: usize, len: usize },
    Fill { at: usize, len: usize, byte: u8 },
    Duplicate { at: usize, len: usize },
    Swap { at: usize, len: usize },
    Flip { at: usize, bit: u8 },
    Foreign { at: usize, bytes: Bytes },
    Replace { at: usize, bytes: Bytes },
    LfToCrlf,
    TornTail { at: usize, bytes: Bytes },
}
impl Damage {
    pub fn name(&self) -> &'static str {
        match self {
            Damage::Truncate { .. } => "truncated",
            Damage::Lose { .. } => "lost_block",
            Damage::Zero { .. } => "zeroed_block",
            Damage::Fill { .. } => "filled_block",
            Damage::Duplicate { .. } => "duplicated_block",
            Damage::Swap { .. } => "swapped_blocks",
            Damage::Flip { .. } => "flipped_bit",
            Damage::Foreign { .. } => "foreign_bytes",
            Damage::Replace { .. } => "overwritten_bytes",
            Damage::LfToCrlf => "line_ends_converted",
            Damage::TornTail { .. } => "torn_tail",
        }
    }
    pub fn apply(&self, b: &mut Vec<u8>) {
        let n = b.len();
        match self {
            Damage::Truncate { at } => b.truncate(*at),
            Damage::Lose { at, len } => {
                if *at < n {
                    b.drain(*at..(at + len).min(n));
                }
            }
            Damage::Zero { at, len } => {
                for i in *at..(at + len).min(n) {
                    b[i] = 0;
                }
            }
            Damage::Fill { at, len, byte } => {
                for i in *at..(at + len).min(n) {
                    b[i] = *byte;
                }
            }
            Damage::Duplicate { at, len } => {
                if *at < n {
                    let e = (at + len).min(n);
                    let blk = b[*at..e].to_vec();
                    b.splice(e..e, blk);
                }
            }
            Damage::Swap { at, len } => {
                if at + 2 * len <= n {
                    for i in 0..*len {
                        b.swap(at + i, at + len + i);
                    }
                }
            }
            Damage::Flip { at, bit } => {
                if *at < n {
                    b[*at] ^= 1 << (bit & 7);
                }
            }
            Damage::Foreign { at, bytes } => {
                let at = (*at).min(n);
                b.splice(at..at, bytes.0.clone());
            }
            Damage::Replace { at, bytes } => {
                for (i, x) in bytes.0.iter().enumerate() {
                    if at + i < n {
                        b[at + i] = *x;
                    }
                }
            }
            Damage::LfToCrlf => {
                let mut o = vec![];
                for c in b.iter() {
                    if *c == b'\n' {
                        o.push(b'\r');
                    }
                    o.push(*c);
                }
                *b = o;
            }
            Damage::TornTail { at, bytes } => {
                b.truncate(*at);
                b.extend_from_slice(&bytes.0);
            }
        }
    }
}

fn is_zero(x: &u64) -> bool {
    *x == 0
}
fn no<T: Default + PartialEq>(x: &T) -> bool {
    *x == T::default()
}

/// Everything that differs from the undisturbed run.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Dist {
    /// name of the file that holds the source; on standard input otherwise
    #[serde(skip_serializing_if = "no")]
    pub file: Option<String>,
    #[serde(skip_serializing_if = "no")]
    pub read: StreamPlan,
    #[serde(skip_serializing_if = "no")]
    pub open_errno: u32,
    #[serde(skip_serializing_if = "no")]
    pub open_eintr: u32,
    #[serde(skip_serializing_if = "no")]
    pub stat_size: Option<u64>,
    #[serde(skip_serializing_if = "no")]
    pub out: StreamPlan,
    #[serde(skip_serializing_if = "no")]
    pub err: StreamPlan,
    #[serde(skip_serializing_if = "is_zero")]
    pub crash_step: u64,
    #[serde(skip_serializing_if = "is_zero")]
    pub crash_io: u64,
    #[serde(skip_serializing_if = "no")]
    pub alloc_fail: Vec<u64>,
    #[serde(skip_serializing_if = "is_zero")]
    pub alloc_fail_from: u64,
    #[serde(skip_serializing_if = "is_zero")]
    pub heap_limit: u64,
    #[serde(skip_serializing_if = "no")]
    pub world: Option<World>,
    /// the source is not there at all
    #[serde(skip_serializing_if = "no")]
    pub missing: bool,
    /// the source file is replaced by another one at some I/O call
    #[serde(skip_serializing_if = "no")]
    pub later: Option<(u64, Bytes)>,
    /// every other path exists too
    #[serde(skip_serializing_if = "no")]
    pub decoys: bool,
    #[serde(skip_serializing_if = "no")]
    pub extra_args: Vec<String>,
    /// which of its threads runs when, if it has any
    #[serde(skip_serializing_if = "no")]
    pub sched: Sched,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct World {
    pub entropy: u64,
    pub heap_base: u64,
    pub stack_base: u64,
    pub realtime_ns: u64,
    pub monotonic_ns: u64,
    pub pid: u64,
    pub host: String,
    pub cwd: String,
    pub env: Vec<String>,
    #[serde(default)]
    pub cpus: u64,
    /// how long a step takes
    #[serde(default)]
    pub pace: u64,
    #[serde(default)]
    pub jump: Jump,
    /// pipe, terminal, file, device or socket: standard input, output, error, and the source file
    #[serde(default = "kinds0")]
    pub kinds: [u8; 4],
    /// owners, times and numbers of files, sizes of terminals
    #[serde(default)]
    pub meta: u64,
    /// where the program lies, and what it is called
    #[serde(default = "exe0")]
    pub exe: String,
    #[serde(default = "name0")]
    pub name: String,
}
fn kinds0() -> [u8; 4] {
    KINDS0
}
fn exe0() -> String {
    "/usr/bin/seiren".into()
}
fn name0() -> String {
    "seiren".into()
}
impl Default for World {
    fn default() -> World {
        World {
            entropy: 1,
            heap_base: HEAP0,
            stack_base: STACK0,
            realtime_ns: 1_700_000_000_000_000_000,
            monotonic_ns: 1_000_000_000,
            pid: 4242,
            host: "sim".into(),
            cwd: "/".into(),
            env: vec![],
            cpus: 4,
            pace: 0,
            jump: Jump::default(),
            kinds: kinds0(),
            meta: 0,
            exe: exe0(),
            name: name0(),
        }
    }
}
impl World {
    pub fn put<'a>(&'a self, p: &mut Plan<'a>) {
        p.env = self.env.iter().map(|s| s.as_str()).collect();
        p.cwd = &self.cwd;
        p.host = &self.host;
        p.entropy = self.entropy;
        p.heap_base = self.heap_base;
        p.stack_base = self.stack_base;
        p.realtime_ns = self.realtime_ns;
        p.monotonic_ns = self.monotonic_ns;
        p.pid = self.pid;
        p.ncpu = self.cpus;
        p.jump = self.jump;
        p.kinds = self.kinds;
        p.meta = self.meta;
        p.exe = &self.exe;
        p.args[0] = &self.name;
        if self.pace > 0 {
            p.ns_per_step = self.pace;
        }
    }
    /// The variables that a run looked for are there.
    pub fn with(&mut self, r: &mut Rng, asked: &[String]) {
        for k in asked {
            // std's own, which are about the process and not about what it does
            if k.starts_with("RUST_") || r.chance(1, 4) {
                continue;
            }
            self.env.retain(|e| !e.starts_with(&format!("{}=", k)));
            let v = if r.chance(1, 6) { crate::dict::printable(r) } else { r.pick(&["1", "0", "", "true", "false", "yes", "off", "x", "-1", "40", "100000", "never", "always", "red", "#ff0000", "/tmp", "C", "a=b", "日"]).to_string() };
            self.env.push(format!("{}={}", k, v));
        }
    }
}
pub fn gen_bases(r: &mut Rng) -> (u64, u64) {
    let heap = 0x2000_0000_0000 + (r.next() % 0x1_0000_0000) * 0x1000;
    let stack = 0x4000_0000_0000 + (r.next() % 0x1_0000_0000) * 0x1000;
    (heap, stack)
}
pub fn gen_world(r: &mut Rng) -> World {
    let (heap_base, stack_base) = gen_bases(r);
    let mut env = vec![];
    for e in [
        "HOME=/home/u", "LANG=C", "LANG=ja_JP.UTF-8", "LC_ALL=tr_TR", "TERM=dumb", "TERM=xterm-256color", "NO_COLOR=1", "CLICOLOR=0",
        "CLICOLOR_FORCE=1", "COLUMNS=20", "COLUMNS=400", "TZ=Asia/Tokyo", "PATH=/bin", "TMPDIR=/tmp", "USER=someone", "SEED=1", "DEBUG=1", "CI=true",
        "COLORTERM=truecolor", "PWD=/elsewhere", "SHELL=/bin/sh", "RUST_LOG=trace", "PAGER=less", "SOURCE_DATE_EPOCH=1",
    ] {
        if r.chance(1, 3) {
            env.push(e.to_string());
        }
    }
    World {
        entropy: r.next(),
        heap_base,
        stack_base,
        realtime_ns: match r.below(5) {
            0 => 0,
            1 => 4_102_444_800_000_000_000,
            2 => r.next() % 8_000_000_000_000_000_000,
            _ => 1_600_000_000_000_000_000 + r.next() % 300_000_000_000_000_000,
        },
        monotonic_ns: r.next() % 1_000_000_000_000_000,
        pid: 2 + r.next() % 4_000_000,
        host: r.pick(&["sim", "localhost", "build-7.example", "h"]).to_string(),
        cpus: *r.pick(&[1u64, 2, 3, 8, 64, 200]),
        pace: *r.pick(&[0, 0, 0, 1, 1_000, 100_000, 10_000_000]),
        jump: if r.chance(1, 2) {
            Jump::default()
        } else {
            let by = |r: &mut Rng| *r.pick(&[1_000_000u64, 50_000_000, 2_000_000_000, 11_000_000_000, 400_000_000_000, 90_000_000_000_000, 40_000_000_000_000_000]);
            let real = by(r) as i64 * if r.chance(1, 2) { -1 } else { 1 };
            Jump { at: r.range(1, 6) as u64, every: *r.pick(&[0, 0, 1, 1, 2, 7]), real, mono: if r.chance(3, 4) { by(r) } else { 0 } }
        },
        kinds: {
            let mut k = KINDS0;
            for (i, x) in k.iter_mut().enumerate() {
                if r.chance(1, 2) {
                    *x = if i < 3 { *r.pick(&[0, 1, 1, 2, 3, 4]) } else { *r.pick(&[0, 2, 2, 3]) };
                }
            }
            k
        },
        meta: r.next(),
        exe: r.pick(&["/usr/bin/seiren", "/home/u/x y/seiren-0.2", "/a (deleted)"]).to_string(),
        name: if r.chance(1, 8) { crate::dict::printable(r) } else { r.pick(&["seiren", "./target/debug/seiren", "/usr/bin/seiren", "", "日本", "seiren.exe"]).to_string() },
        cwd: r.pick(&["/", "/home/u", "/tmp/x y", "/a/very/long/working/directory/somewhere"]).to_string(),
        env,
    }
}

pub const STDIN_NAME: &str = "(stdin)";

impl Dist {
    pub fn name(&self) -> &str {
        self.file.as_deref().unwrap_or(STDIN_NAME)
    }
    pub fn is_quiet(&self) -> bool {
        *self == Dist { file: self.file.clone(), ..Dist::default() }
    }
}

pub fn run(g: &mut Guest, text: &[u8], d: &Dist, step_limit: u64, trace: bool) -> Result<Res, String> {
    let w = d.world.clone().unwrap_or_default();
    let quiet = StreamPlan::default();
    let mut p = Plan {
        out: &d.out,
        err: &d.err,
        crash_step: d.crash_step,
        crash_io: d.crash_io,
        alloc_fail: &d.alloc_fail,
        alloc_fail_from: d.alloc_fail_from,
        heap_limit: d.heap_limit,
        preempt: &d.sched.preempt,
        picks: &d.sched.picks,
        yields: &d.sched.yields,
        sites: &d.sched.sites,
        atoms: &d.sched.atoms,
        step_limit,
        trace,
        ..Plan::default()
    };
    w.put(&mut p);
    match &d.file {
        Some(f) => {
            p.args.push(f);
            p.files.push(FilePlan {
                path: f,
                content: text,
                stat_size: d.stat_size.unwrap_or(text.len() as u64),
                open_errno: if d.missing { 2 } else { d.open_errno },
                open_eintr: d.open_eintr,
                from_io: 0,
                s: &d.read,
            });
            if let Some((at, b)) = &d.later {
                p.files.push(FilePlan { path: f, content: &b.0, stat_size: b.0.len() as u64, open_errno: 0, open_eintr: 0, from_io: *at, s: &quiet });
            }
            p.stdin = b"erd { trap { wrong_source int } }\n";
            p.stdin_plan = &quiet;
        }
        None => {
            p.stdin = text;
            p.stdin_plan = &d.read;
        }
    }
    if d.decoys {
        p.decoy = Some(b"erd { decoy { wrong_source int PK } }\n");
    }
    for a in &d.extra_args {
        p.args.push(a);
    }
    g.run(&p)
}

/// The number of execution steps a run on a text of that size may take (C05).
pub fn step_limit(len: usize) -> u64 {
    let n = len as u64 + 200;
    // more than 25 times what is needed anywhere: see DESIGN.md
    40_000_000 + 40 * n * n
}

pub fn transient_reads(r: &mut Rng, len: usize) -> StreamPlan {
    let mut sched = vec![];
    if r.chance(1, 12) {
        return StreamPlan { sched: storm(r), limit: None };
    }
    let mut left = len as i64;
    let mode = r.below(5);
    let mut guard = 0;
    while left > 0 && guard < 3000 {
        guard += 1;
        let oc = match mode {
            0 => Oc::Short(1),
            1 => Oc::Short(r.range(1, 7) as u32),
            2 => match r.below(4) {
                0 => Oc::Eintr,
                1 => Oc::Stall(r.next() % 5_000_000_000),
                _ => Oc::Short(r.skewed(4000).max(1) as u32),
            },
            3 => Oc::Short(r.range(1, len.max(2)) as u32),
            _ => *r.pick(&[Oc::Full, Oc::Eintr, Oc::Eintr, Oc::Short(2), Oc::Short(33), Oc::Stall(1_000_000)]),
        };
        match oc {
            Oc::Short(n) => left -= n as i64,
            Oc::Full | Oc::Stall(_) => left -= 8192,
            _ => {}
        }
        sched.push(oc);
    }
    if r.chance(1, 4) {
        sched.push(Oc::Eintr); // while asking for the end of the source
    }
    StreamPlan { sched, limit: None }
}

/// Interrupted again and again.
fn storm(r: &mut Rng) -> Vec<Oc> {
    let mut sched = vec![];
    let (n, streak, piece) = (r.range(1, 80), if r.chance(1, 2) { r.range(1, 3) } else { r.range(4, 300) }, r.range(1, 400));
    while sched.len() < 600 && sched.len() < n * (streak + 1) {
        sched.extend(vec![Oc::Eintr; streak]);
        sched.push(if r.chance(1, 8) { Oc::Full } else { Oc::Short(piece as u32) });
    }
    sched
}

pub fn transient_writes(r: &mut Rng) -> StreamPlan {
    if r.chance(1, 12) {
        return StreamPlan { sched: storm(r), limit: None };
    }
    let n = r.range(1, 40);
    let mode = r.below(4);
    let sched = (0..n)
        .map(|_| match mode {
            0 => Oc::Short(r.range(1, 9) as u32),
            1 => *r.pick(&[Oc::Eintr, Oc::Full]),
            2 => match r.below(4) {
                0 => Oc::Eintr,
                1 => Oc::Stall(r.next() % 3_000_000_000),
                _ => Oc::Short(r.skewed(3000).max(1) as u32),
            },
            _ => Oc::Short(r.skewed(20000).max(1) as u32),
        })
        .collect();
    StreamPlan { sched, limit: None }
}

/// ENOSPC, EPIPE, EIO, EDQUOT, EFBIG, EAGAIN, ECONNRESET, ENXIO, EACCES, ETIMEDOUT; EPERM, ENOMEM, ENODEV, EINVAL, EROFS, ECONNABORTED, ESHUTDOWN, EHOSTUNREACH
pub const WRITE_ERRNO: [u32; 20] = [28, 32, 5, 122, 27, 11, 104, 6, 13, 110, 28, 32, 1, 12, 19, 22, 30, 103, 108, 113];
/// EIO, EISDIR, EAGAIN, ECONNRESET, ESTALE, ENOMEM, EINVAL, ETIMEDOUT; EPERM, ENXIO, EPIPE, ENODATA, EPROTO, ENOTCONN, ECONNABORTED
pub const READ_ERRNO: [u32; 15] = [5, 21, 11, 104, 116, 12, 22, 110, 1, 6, 32, 61, 71, 107, 103];
pub const OPEN_ERRNO: [u32; 16] = [2, 13, 20, 21, 23, 24, 36, 40, 5, 12, 1, 6, 19, 26, 75, 116];

pub fn hard_writes(r: &mut Rng, len: usize) -> StreamPlan {
    let mut p = if r.chance(1, 2) { transient_writes(r) } else { StreamPlan::default() };
    let e = *r.pick(&WRITE_ERRNO);
    match r.below(8) {
        0 => {
            let k = r.below(p.sched.len().min(6) + 2);
            while p.sched.len() <= k {
                p.sched.push(Oc::Full);
            }
            p.sched[k] = Oc::Err(e);
        }
        1 => {
            let k = r.below(p.sched.len().min(6) + 2);
            while p.sched.len() <= k {
                p.sched.push(Oc::Full);
            }
            p.sched[k] = Oc::Zero;
        }
        2 => p.limit = Some((0, e)),
        3 => p.limit = Some((len.saturating_sub(r.range(1, 12)) as u64, e)),
        4 => p.limit = Some((len.saturating_sub(1) as u64, e)),
        _ => p.limit = Some((r.below(len + 1) as u64, e)),
    }
    p
}

pub fn gen_file_name(r: &mut Rng) -> String {
    if r.chance(1, 10) {
        let w = crate::dict::printable(r);
        if !w.is_empty() && w != "." && w != ".." && w != "/" {
            return w;
        }
    }
    r.pick(&[
        "erd.seiren", "dir/sub/x.seiren", "/abs/path/blog.erd", "名前.seiren", "a b.seiren", "(stdin)", ".hidden", "weird[1:2].seiren", "x",
        "C:\\x.erd", "out.svg", "-", "-x.erd", "--", "--help", "-h", "a", "x.md", "notes.txt", "./x", "../up.erd", "dir/", "~/x.erd", "$HOME/x", "*.erd", "http://h/x.erd",
        "file:x.erd", "x.erd.gz", "%2e", "-o", "/dev/stdin", "/proc/self/fd/0", "CON", "x\ny", "\u{feff}x", "blog.SEIREN", " x", "erd",
    ])
    .to_string()
}

// ------------------------------------------------------------------ damage
pub fn gen_damage(r: &mut Rng, b: &[u8]) -> Damage {
    let n = b.len();
    let mut at = r.below(n + 1);
    let mut len = r.skewed(64).max(1);
    if r.chance(1, 2) {
        // cut at the borders of words
        let cuts = word_cuts(b);
        let k = r.below(cuts.len());
        at = cuts[k];
        let e = (k + r.range(1, 3)).min(cuts.len() - 1);
        len = (cuts[e] - at).max(1);
    } else if r.chance(1, 4) {
        // inside a quoted name
        let q: Vec<usize> = (0..n).filter(|i| b[*i] == b'`').collect();
        if !q.is_empty() {
            at = q[r.below(q.len())] + 1;
        }
    }
    match r.below(16) {
        // what other programs leave before and behind a text
        _ if r.chance(1, 24) => {
            let b = *r.pick(&["\u{feff}", "\0", "\0\0\0\0", "\u{1a}", "#!/usr/bin/seiren\n", "\r", "\r\n", "\n", " ", "\u{a0}", "\u{200b}", "\u{2028}", "\u{c}", "\u{b}", "\u{85}", "\u{4}", "-- \n", ";", "\u{fffd}"]);
            Damage::Foreign { at: if r.chance(1, 2) { 0 } else { n }, bytes: Bytes(b.as_bytes().to_vec()) }
        }
        0 | 1 => Damage::Truncate { at },
        2 => Damage::Lose { at, len },
        3 => Damage::Lose { at, len: 1 },
        4 => Damage::Zero { at, len },
        5 => Damage::Fill { at, len, byte: *r.pick(&[b' ', b'\n', b';', b'}', b'{', b'.', b'`', b'o', 0x7f, b'\r']) },
        6 => Damage::Duplicate { at, len },
        7 => Damage::Swap { at, len },
        8 | 9 => Damage::Flip { at: at.min(n.saturating_sub(1)), bit: r.below(7) as u8 },
        10 => Damage::LfToCrlf,
        11 => Damage::TornTail { at, bytes: Bytes(foreign(r)) },
        12 => Damage::Replace { at, bytes: Bytes(foreign(r)) },
        _ => Damage::Foreign { at, bytes: Bytes(foreign(r)) },
    }
}
fn word_cuts(b: &[u8]) -> Vec<usize> {
    let kind = |c: u8| -> u8 {
        if c == b'_' || c.is_ascii_alphanumeric() || c >= 0x80 {
            1
        } else if c == b' ' || c == b'\t' {
            2
        } else if c == b'-' {
            3
        } else {
            0
        }
    };
    let mut v = vec![0];
    for i in 1..b.len() {
        if kind(b[i]) != kind(b[i - 1]) || kind(b[i]) == 0 {
            v.push(i);
        }
    }
    v.push(b.len());
    v
}
fn foreign(r: &mut Rng) -> Vec<u8> {
    let toks = [
        "{", "}", ";", ".", "\n", "\r\n", " ", "\t", "`", "\\", "o--o", "erd", "int", "uuid", "text", "timestamp", "PK", "FK", "users", "a", "`x y`", "//", "// c\n", "@", "#",
        "\u{feff}", "日", "o--", "--o", "-", "\\u", "0", "9z", "\r", "\u{0}", "<", "&", "erd {", "}\n}", ";;", "\n\n", "x int", "x int PK", "a.b o--o c.d", "\\u00", "`\\", "\"", "'",
        "\u{2028}", "\u{a0}", "é", "/", "/*", "\\ud800", "`\\uDFFF`", "\\u0000", "``", "o--o o--o", "\u{c}", "\u{1b}", "\u{200b}", "\u{1a}", "..", "a..b", "a.b.c", ",", ":", "x y int",
        "x int int", "x PK", "x int FK PK", "{}", "{}}", "erd erd", "x {}", "#!", "\u{b}", "\u{85}",
    ];
    let k = r.range(1, 3);
    (0..k).map(|_| if r.chance(1, 30) { crate::dict::word(r) } else { r.pick(&toks).to_string() }).collect::<String>().into_bytes()
}
pub fn token_soup(r: &mut Rng) -> Vec<u8> {
    let n = r.skewed(60);
    let mut o = vec![];
    for _ in 0..n {
        o.extend(foreign(r));
        if r.chance(1, 3) {
            o.push(b' ');
        }
    }
    o
}

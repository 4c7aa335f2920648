//! Talks to the simulated operating system (simrt): plans go in, results come out.
use std::ffi::CString;
use std::fs::File;
use std::io::{Read, Write};
use std::os::unix::io::{AsRawFd, FromRawFd};

pub const MAGIC: u64 = 0x53494d5254303031;
const OFF_DATA: usize = 0x10000;
const LEN_DATA: usize = 0x1000000;
const OFF_OUT: usize = OFF_DATA + LEN_DATA;
const OFF_ERR: usize = OFF_OUT + 0x1000000;
/// What is kept of the diagnostics.
pub const LEN_ERR: usize = 0x1000000;
const OFF_REP: usize = OFF_ERR + LEN_ERR;
const OFF_LOG: usize = OFF_REP + 0x2000000;
const OFF_COV: usize = OFF_LOG + 0x100000;
pub const LEN_COV: usize = 0x10000;
const SHM_SIZE: usize = OFF_COV + LEN_COV;

/// counter of threads that were started
pub const C_THREADS: usize = 21;
pub const C_READS: usize = 24;
/// points before and after atomic accesses while there were several threads
pub const C_ATOMICS: usize = 30;
pub const N_CTR: usize = 32;
pub const CTR_NAMES: [&str; 32] = [
    "stdin_or_file_short_read", "read_eintr", "read_error", "read_stall",
    "stdout_short_write", "stdout_eintr", "stdout_write_error", "stdout_full_or_gone_at_offset", "stdout_zero_write", "write_stall",
    "stderr_short_write", "stderr_eintr", "stderr_write_error", "stderr_full_or_gone_at_offset",
    "open_error", "open_eintr", "allocation_failure", "process_kill", "preemption", "thread_block", "thread_switch",
    "threads_started", "random_source_read", "clock_read", "reads", "writes", "futex_wait", "timeout_fired", "wrong_file_size", "read_cut_inside_character",
    "atomic_accesses_among_threads", "clock_jump",
];

#[repr(C)]
#[derive(Clone, Copy)]
struct CStream {
    off: u64,
    len: u64,
    sched_off: u64,
    n_sched: u64,
    limit: u64,
    limit_errno: u64,
}
#[repr(C)]
#[derive(Clone, Copy)]
struct CFile {
    path_off: u64,
    path_len: u64,
    stat_size: u64,
    open_errno: u64,
    open_eintr: u64,
    from_io: u64,
    s: CStream,
}
#[repr(C)]
struct CShm {
    magic: u64,
    entropy: u64,
    heap_base: u64,
    heap_size: u64,
    heap_limit: u64,
    stack_base: u64,
    stack_size: u64,
    realtime_ns: u64,
    monotonic_ns: u64,
    ns_per_step: u64,
    jump_at: u64,
    jump_every: u64,
    jump_real: u64,
    jump_mono: u64,
    step_limit: u64,
    crash_step: u64,
    crash_io: u64,
    pid: u64,
    n_alloc_fail: u64,
    alloc_fail: [u64; 16],
    alloc_fail_from: u64,
    argc: u64,
    args_off: u64,
    envc: u64,
    env_off: u64,
    cwd_off: u64,
    host_off: u64,
    n_files: u64,
    files: [CFile; 4],
    inp: CStream,
    out: CStream,
    err: CStream,
    preempt_off: u64,
    n_preempt: u64,
    picks_off: u64,
    n_picks: u64,
    yields_off: u64,
    n_yields: u64,
    sites_off: u64,
    n_sites: u64,
    atoms_off: u64,
    n_atoms: u64,
    ncpu: u64,
    kinds: u64,
    meta: u64,
    exe_off: u64,
    user_off: u64,
    user_len: u64,
    trace: u64,
    decoy: u64,
    // results
    state: u64,
    exit_code: u64,
    steps: u64,
    allocs: u64,
    ios: u64,
    switches: u64,
    evhash: u64,
    schedhash: u64,
    out_len: u64,
    err_len: u64,
    rep_len: u64,
    log_len: u64,
    n_forb: u64,
    forb: [[u8; 96]; 16],
    ctr: [u64; N_CTR],
    max_heap: u64,
    n_guards: u64,
    stall_ns: u64,
    allocs_at_read: u64,
    n_asked: u64,
    asked: [[u8; 48]; 16],
    harness_msg: [u8; 128],
}

/// One outcome of a read or write call.
#[derive(Clone, Copy, Debug, PartialEq, serde::Serialize, serde::Deserialize)]
pub enum Oc {
    Full,
    Short(u32),
    Eintr,
    Err(u32),
    Stall(u64),
    Zero,
}
impl Oc {
    fn enc(self) -> u64 {
        match self {
            Oc::Full => 0,
            Oc::Short(n) => 1 | (n as u64) << 8,
            Oc::Eintr => 2,
            Oc::Err(e) => 3 | (e as u64) << 8,
            Oc::Stall(ns) => 4 | ns << 8,
            Oc::Zero => 5,
        }
    }
}

#[derive(Clone, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
#[serde(default)]
pub struct StreamPlan {
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub sched: Vec<Oc>,
    /// from this byte on every call fails with the errno
    #[serde(skip_serializing_if = "Option::is_none")]
    pub limit: Option<(u64, u32)>,
}
impl StreamPlan {
    pub fn is_quiet(&self) -> bool {
        self.sched.iter().all(|o| *o == Oc::Full) && self.limit.is_none()
    }
}

pub struct FilePlan<'a> {
    pub path: &'a str,
    pub content: &'a [u8],
    pub stat_size: u64,
    pub open_errno: u32,
    pub open_eintr: u32,
    /// there from that I/O call on
    pub from_io: u64,
    pub s: &'a StreamPlan,
}

/// Everything outside the guest's own code, for one run.
pub struct Plan<'a> {
    pub args: Vec<&'a str>,
    pub env: Vec<&'a str>,
    pub cwd: &'a str,
    pub host: &'a str,
    pub stdin: &'a [u8],
    pub stdin_plan: &'a StreamPlan,
    pub out: &'a StreamPlan,
    pub err: &'a StreamPlan,
    pub files: Vec<FilePlan<'a>>,
    pub entropy: u64,
    pub heap_base: u64,
    pub stack_base: u64,
    pub heap_limit: u64,
    pub realtime_ns: u64,
    pub monotonic_ns: u64,
    pub ns_per_step: u64,
    pub jump: Jump,
    pub pid: u64,
    pub step_limit: u64,
    pub crash_step: u64,
    pub crash_io: u64,
    pub alloc_fail: &'a [u64],
    pub alloc_fail_from: u64,
    pub preempt: &'a [(u64, u64)],
    pub picks: &'a [u64],
    pub yields: &'a [u64],
    pub sites: &'a [(u32, u32, u32, u64)],
    pub atoms: &'a [(u64, u64)],
    pub ncpu: u64,
    /// what the standard streams and the files are
    pub kinds: [u8; 4],
    /// times, owners, numbers of files
    pub meta: u64,
    /// where the program lies
    pub exe: &'a str,
    pub user: &'a [u8],
    pub trace: bool,
    /// every path that isn't in `files` exists too and reads as this
    pub decoy: Option<&'a [u8]>,
}

pub static QUIET: StreamPlan = StreamPlan { sched: vec![], limit: None };
pub const HEAP0: u64 = 0x6000_0000_0000;
pub const STACK0: u64 = 0x5000_0000_0000;
pub const NS_PER_STEP: u64 = 10;
/// pipes, and files that are files
pub const KINDS0: [u8; 4] = [0, 0, 0, 2];

/// Clocks that jump: from which reading on, every how many readings (0: once), by how much.
#[derive(Clone, Copy, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
pub struct Jump {
    pub at: u64,
    pub every: u64,
    pub real: i64,
    pub mono: u64,
}

impl<'a> Default for Plan<'a> {
    fn default() -> Self {
        Plan {
            args: vec!["seiren"],
            env: vec![],
            cwd: "/",
            host: "sim",
            stdin: b"",
            stdin_plan: &QUIET,
            out: &QUIET,
            err: &QUIET,
            files: vec![],
            entropy: 1,
            heap_base: HEAP0,
            stack_base: STACK0,
            heap_limit: 0,
            realtime_ns: 1_700_000_000_000_000_000,
            monotonic_ns: 1_000_000_000,
            ns_per_step: NS_PER_STEP,
            jump: Jump::default(),
            pid: 4242,
            step_limit: 400_000_000,
            crash_step: 0,
            crash_io: 0,
            alloc_fail: &[],
            alloc_fail_from: 0,
            preempt: &[],
            picks: &[],
            yields: &[],
            sites: &[],
            atoms: &[],
            ncpu: 4,
            kinds: KINDS0,
            meta: 0,
            exe: "/usr/bin/seiren",
            user: b"",
            trace: false,
            decoy: None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Killed,
    StepLimit,
    Deadlock,
    /// no step was executed for a very long (real) time
    Hung,
}
/// Real time without a step, and in all, after which a run that has not reached its step limit is given up.
const HANG_MS: i32 = 120_000;
const GIVE_UP_S: u64 = 300;
impl End {
    pub fn success(self) -> bool {
        self == End::Exit(0)
    }
    pub fn text(self) -> String {
        match self {
            End::Exit(c) => format!("exit status {}", c),
            End::Signal(s) => format!("signal {}", s),
            End::Killed => "killed by the simulator".into(),
            End::StepLimit => "step limit reached".into(),
            End::Deadlock => "deadlock".into(),
            End::Hung => "endless loop without steps".into(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Res {
    pub end: End,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub rep: Vec<u8>,
    pub log: String,
    pub steps: u64,
    pub allocs: u64,
    pub allocs_at_read: u64,
    pub ios: u64,
    pub switches: u64,
    pub evhash: u64,
    pub schedhash: u64,
    pub ctr: [u64; N_CTR],
    pub forbidden: Vec<String>,
    /// environment variables that it looked up
    pub asked: Vec<String>,
    pub max_heap: u64,
    pub sim_ns: u64,
    /// how often each basic block was executed (saturating)
    pub cov: Vec<u8>,
}

pub struct Guest {
    base: *mut u8,
    ctl: File,
    sts: File,
    child: libc::pid_t,
    shm_path: String,
    /// edges reached over all runs of this server
    pub cov: Vec<u8>,
    pub n_guards: u64,
}
unsafe impl Send for Guest {}

struct Arena {
    base: *mut u8,
    pos: usize,
}
impl Arena {
    fn put(&mut self, b: &[u8]) -> Result<u64, String> {
        self.pos = (self.pos + 7) & !7;
        if self.pos + b.len() > LEN_DATA {
            return Err("plan too large".into());
        }
        let o = self.pos;
        unsafe { std::ptr::copy_nonoverlapping(b.as_ptr(), self.base.add(OFF_DATA + o), b.len()) }
        self.pos += b.len();
        Ok(o as u64)
    }
    fn u64s(&mut self, v: impl Iterator<Item = u64>) -> Result<(u64, u64), String> {
        let mut b = vec![];
        let mut n = 0;
        for x in v {
            b.extend_from_slice(&x.to_le_bytes());
            n += 1;
        }
        Ok((self.put(&b)?, n))
    }
    fn strs(&mut self, v: &[&str]) -> Result<(u64, u64), String> {
        let mut b = vec![];
        for s in v {
            b.extend_from_slice(s.as_bytes());
            b.push(0);
        }
        b.push(0);
        Ok((self.put(&b)?, v.len() as u64))
    }
    fn stream(&mut self, content: &[u8], p: &StreamPlan) -> Result<CStream, String> {
        let off = self.put(content)?;
        let (sched_off, n_sched) = self.u64s(p.sched.iter().map(|o| o.enc()))?;
        let (limit, limit_errno) = match p.limit {
            Some((l, e)) => (l, e as u64),
            None => (u64::MAX, 0),
        };
        Ok(CStream { off, len: content.len() as u64, sched_off, n_sched, limit, limit_errno })
    }
}

impl Guest {
    pub fn start(bin: &str, shm_dir: &str, id: &str) -> Result<Guest, String> {
        let shm_path = format!("{}/simrt-{}-{}", shm_dir, std::process::id(), id);
        unsafe {
            let c = CString::new(shm_path.clone()).unwrap();
            let fd = libc::open(c.as_ptr(), libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_CLOEXEC, 0o600);
            if fd < 0 {
                return Err(format!("cannot create {}", shm_path));
            }
            if libc::ftruncate(fd, SHM_SIZE as i64) != 0 {
                return Err("ftruncate".into());
            }
            let base = libc::mmap(std::ptr::null_mut(), SHM_SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, fd, 0) as *mut u8;
            if base as isize == -1 {
                return Err("mmap".into());
            }
            libc::close(fd);
            let mut a = [0i32; 2];
            let mut b = [0i32; 2];
            if libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) != 0 || libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) != 0 {
                return Err("pipe".into());
            }
            let bin_c = CString::new(bin).unwrap();
            let env0 = CString::new(format!("SIMRT_SHM={}", shm_path)).unwrap();
            let argv = [bin_c.as_ptr(), std::ptr::null()];
            let envp = [env0.as_ptr(), std::ptr::null()];
            let pid = libc::fork();
            if pid < 0 {
                return Err("fork".into());
            }
            if pid == 0 {
                libc::personality(0x0040000); // ADDR_NO_RANDOMIZE
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // out of the way of 198 and 199, then in place
                let r = libc::fcntl(a[0], libc::F_DUPFD, 300);
                let w = libc::fcntl(b[1], libc::F_DUPFD, 300);
                libc::dup2(r, 198);
                libc::dup2(w, 199);
                libc::close(r);
                libc::close(w);
                let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
                libc::dup2(null, 0);
                libc::dup2(null, 1);
                for fd in 3..198 {
                    libc::close(fd);
                }
                let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &rl);
                libc::execve(bin_c.as_ptr(), argv.as_ptr(), envp.as_ptr());
                libc::_exit(127);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            let mut g = Guest {
                base,
                ctl: File::from_raw_fd(a[1]),
                sts: File::from_raw_fd(b[0]),
                child: pid,
                shm_path,
                cov: vec![0; LEN_COV],
                n_guards: 0,
            };
            let mut c = [0u8; 1];
            g.sts.read_exact(&mut c).map_err(|_| format!("{} did not start", bin))?;
            let _ = std::fs::remove_file(&g.shm_path);
            Ok(g)
        }
    }

    fn shm(&self) -> *mut CShm {
        self.base as *mut CShm
    }

    pub fn run(&mut self, p: &Plan) -> Result<Res, String> {
        unsafe {
            let s = self.shm();
            std::ptr::write_bytes(self.base, 0, std::mem::size_of::<CShm>());
            std::ptr::write_bytes(self.base.add(OFF_COV), 0, LEN_COV);
            let mut ar = Arena { base: self.base, pos: 0 };
            (*s).magic = MAGIC;
            (*s).entropy = p.entropy;
            (*s).heap_base = p.heap_base;
            (*s).heap_size = 2 << 30;
            (*s).heap_limit = p.heap_limit;
            (*s).stack_base = p.stack_base;
            (*s).stack_size = 8 << 20;
            (*s).realtime_ns = p.realtime_ns;
            (*s).monotonic_ns = p.monotonic_ns;
            (*s).ns_per_step = p.ns_per_step;
            (*s).jump_at = p.jump.at;
            (*s).jump_every = p.jump.every;
            (*s).jump_real = p.jump.real as u64;
            (*s).jump_mono = p.jump.mono;
            (*s).step_limit = p.step_limit;
            (*s).crash_step = p.crash_step;
            (*s).crash_io = p.crash_io;
            (*s).pid = p.pid;
            (*s).n_alloc_fail = p.alloc_fail.len().min(16) as u64;
            for (i, x) in p.alloc_fail.iter().take(16).enumerate() {
                (*s).alloc_fail[i] = *x;
            }
            (*s).alloc_fail_from = p.alloc_fail_from;
            let (o, n) = ar.strs(&p.args)?;
            (*s).args_off = o;
            (*s).argc = n;
            let (o, n) = ar.strs(&p.env)?;
            (*s).env_off = o;
            (*s).envc = n;
            (*s).cwd_off = ar.strs(&[p.cwd])?.0;
            (*s).host_off = ar.strs(&[p.host])?.0;
            (*s).exe_off = ar.strs(&[p.exe])?.0;
            (*s).kinds = u32::from_le_bytes(p.kinds) as u64;
            (*s).meta = p.meta;
            (*s).n_files = p.files.len() as u64;
            for (i, f) in p.files.iter().enumerate() {
                let path_off = ar.strs(&[f.path])?.0;
                let st = ar.stream(f.content, f.s)?;
                (*s).files[i] = CFile {
                    path_off,
                    path_len: f.path.len() as u64,
                    stat_size: f.stat_size,
                    open_errno: f.open_errno as u64,
                    open_eintr: f.open_eintr as u64,
                    from_io: f.from_io,
                    s: st,
                };
            }
            if let Some(content) = p.decoy {
                (*s).decoy = 1;
                (*s).files[p.files.len()] = CFile { path_off: 0, path_len: 0, stat_size: content.len() as u64, open_errno: 0, open_eintr: 0, from_io: 0, s: ar.stream(content, &QUIET)? };
            }
            (*s).inp = ar.stream(p.stdin, p.stdin_plan)?;
            (*s).out = ar.stream(b"", p.out)?;
            (*s).err = ar.stream(b"", p.err)?;
            let (o, n) = ar.u64s(p.preempt.iter().flat_map(|x| [x.0, x.1]))?;
            (*s).preempt_off = o;
            (*s).n_preempt = n / 2;
            let (o, n) = ar.u64s(p.picks.iter().copied())?;
            (*s).picks_off = o;
            (*s).n_picks = n;
            let (o, n) = ar.u64s(p.yields.iter().copied())?;
            (*s).yields_off = o;
            (*s).n_yields = n;
            let (o, n) = ar.u64s(p.sites.iter().flat_map(|x| [x.0 as u64, x.1 as u64, x.2 as u64, x.3]))?;
            (*s).sites_off = o;
            (*s).n_sites = n / 4;
            let (o, n) = ar.u64s(p.atoms.iter().flat_map(|x| [x.0, x.1]))?;
            (*s).atoms_off = o;
            (*s).n_atoms = n / 2;
            (*s).ncpu = p.ncpu;
            (*s).user_off = ar.put(p.user)?;
            (*s).user_len = p.user.len() as u64;
            (*s).trace = p.trace as u64;

            self.ctl.write_all(b"r").map_err(|_| "guest server gone".to_string())?;
            let mut b = [0u8; 4];
            self.sts.read_exact(&mut b).map_err(|_| "guest server gone".to_string())?;
            let child = i32::from_le_bytes(b);
            let mut pf = libc::pollfd { fd: self.sts.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            let mut hung = false;
            let since = std::time::Instant::now();
            let steps = || std::ptr::read_volatile(std::ptr::addr_of!((*s).steps));
            let mut seen = u64::MAX;
            loop {
                let r = libc::poll(&mut pf, 1, HANG_MS);
                if r == 0 && !hung {
                    let now = steps();
                    if now != seen && since.elapsed().as_secs() < GIVE_UP_S {
                        seen = now;
                        continue;
                    }
                    hung = true;
                    libc::kill(child, libc::SIGKILL);
                    continue;
                }
                if r > 0 {
                    break;
                }
            }
            self.sts.read_exact(&mut b).map_err(|_| "guest server gone".to_string())?;
            let status = i32::from_le_bytes(b);
            if hung {
                (*s).steps = 0;
                (*s).evhash = 0;
            }
            let state = (*s).state;
            let end = match state {
                _ if hung => End::Hung,
                3 => End::StepLimit,
                4 => End::Deadlock,
                5 => End::Killed,
                6 => {
                    let m = &(*s).harness_msg;
                    let n = m.iter().position(|c| *c == 0).unwrap_or(m.len());
                    return Err(format!("simrt: {}", String::from_utf8_lossy(&m[..n])));
                }
                0 => return Err(format!("guest did not start the run (status {:#x})", status)),
                _ => {
                    if libc::WIFEXITED(status) {
                        End::Exit(libc::WEXITSTATUS(status))
                    } else {
                        End::Signal(libc::WTERMSIG(status))
                    }
                }
            };
            let slice = |off: usize, n: u64| std::slice::from_raw_parts(self.base.add(off), n as usize).to_vec();
            let mut forbidden = vec![];
            for i in 0..((*s).n_forb as usize).min(16) {
                let m = &(*s).forb[i];
                let n = m.iter().position(|c| *c == 0).unwrap_or(m.len());
                forbidden.push(String::from_utf8_lossy(&m[..n]).into_owned());
            }
            let mut asked = vec![];
            for i in 0..((*s).n_asked as usize).min(16) {
                let m = &(*s).asked[i];
                let n = m.iter().position(|c| *c == 0).unwrap_or(m.len());
                asked.push(String::from_utf8_lossy(&m[..n]).into_owned());
            }
            let covp = std::slice::from_raw_parts(self.base.add(OFF_COV), LEN_COV);
            for (a, b) in self.cov.iter_mut().zip(covp) {
                if *b > 0 {
                    *a = 1;
                }
            }
            self.n_guards = (*s).n_guards;
            Ok(Res {
                end,
                out: slice(OFF_OUT, (*s).out_len),
                err: slice(OFF_ERR, (*s).err_len),
                rep: slice(OFF_REP, (*s).rep_len),
                log: String::from_utf8_lossy(&slice(OFF_LOG, (*s).log_len)).into_owned(),
                steps: (*s).steps,
                allocs: (*s).allocs,
                allocs_at_read: (*s).allocs_at_read,
                ios: (*s).ios,
                switches: (*s).switches,
                evhash: (*s).evhash,
                schedhash: (*s).schedhash,
                ctr: (*s).ctr,
                forbidden,
                asked,
                max_heap: (*s).max_heap,
                sim_ns: (*s).steps * p.ns_per_step + (*s).stall_ns,
                cov: covp[..LEN_COV.min(self.n_guards as usize + 1)].to_vec(),
            })
        }
    }
}

impl Drop for Guest {
    fn drop(&mut self) {
        unsafe {
            libc::kill(self.child, libc::SIGKILL);
            let mut st = 0;
            libc::waitpid(self.child, &mut st, 0);
            libc::munmap(self.base as *mut _, SHM_SIZE);
        }
        let _ = std::fs::remove_file(&self.shm_path);
    }
}

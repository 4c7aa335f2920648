//! One worker's simulated machines, and what its runs did.
use crate::cli::{self, Dist};
use crate::lib_ops::{self, LibRun};
use crate::rng::{hash_bytes, mix};
use crate::sim::{Guest, Res, N_CTR};
use std::collections::{BTreeMap, HashSet};

#[derive(Default, Clone)]
pub struct Stats {
    pub runs: u64,
    pub sim_ns: u64,
    pub steps: u64,
    pub ctr: [u64; N_CTR],
    pub named: BTreeMap<String, u64>,
    pub execs: HashSet<u64>,
    pub scheds: HashSet<u64>,
    pub ends: BTreeMap<String, u64>,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.runs += o.runs;
        self.sim_ns += o.sim_ns;
        self.steps += o.steps;
        for (a, b) in self.ctr.iter_mut().zip(&o.ctr) {
            *a += b;
        }
        for (k, v) in &o.named {
            *self.named.entry(k.clone()).or_default() += v;
        }
        for (k, v) in &o.ends {
            *self.ends.entry(k.clone()).or_default() += v;
        }
        self.execs.extend(&o.execs);
        self.scheds.extend(&o.scheds);
    }
}

pub struct Ctx {
    pub cli: Guest,
    pub lib: Guest,
    /// the command without optimisation, and whether it is meant
    pub plain: Option<Guest>,
    pub use_plain: bool,
    how: (String, String, String),
    pub st: Stats,
    pub trace: bool,
    /// identifies everything the runs of the current case did
    pub digest: u64,
    pub log: String,
    /// step limit of the next runs of the command, when the usual one is not meant
    pub limit: Option<u64>,
    cache: Option<(u64, Res)>,
}

/// Counters that count faults or scheduling decisions, not ordinary events.
pub const DISTURBANCES: [usize; 23] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 27, 28, 29];

impl Ctx {
    pub fn new(build: &str, shm_dir: &str, id: &str) -> Result<Ctx, String> {
        Ok(Ctx {
            cli: Guest::start(&format!("{}/seiren", build), shm_dir, &format!("{}c", id))?,
            lib: Guest::start(&format!("{}/guest-bin", build), shm_dir, &format!("{}l", id))?,
            plain: None,
            use_plain: false,
            how: (build.into(), shm_dir.into(), id.into()),
            st: Stats::default(),
            trace: false,
            digest: 0,
            log: String::new(),
            limit: None,
            cache: None,
        })
    }
    pub fn begin(&mut self) {
        self.digest = 0;
        self.log.clear();
        self.cache = None;
        self.limit = None;
        self.use_plain = false;
    }
    fn note(&mut self, r: &Res, what: &str) {
        let s = &mut self.st;
        s.runs += 1;
        s.sim_ns += r.sim_ns;
        s.steps += r.steps;
        for (a, b) in s.ctr.iter_mut().zip(&r.ctr) {
            *a += b;
        }
        s.execs.insert(mix(mix(r.evhash, r.steps), hash_bytes(&r.rep)));
        if r.switches > 0 {
            s.scheds.insert(r.schedhash);
        }
        *s.ends.entry(r.end.text()).or_default() += 1;
        for x in [r.evhash, r.steps, r.allocs, hash_bytes(&r.out), hash_bytes(&r.err), hash_bytes(&r.rep), hash_bytes(r.end.text().as_bytes())] {
            self.digest = mix(self.digest, x);
        }
        if self.trace {
            self.log.push_str(&format!("== {}: {} after {} steps\n{}", what, r.end.text(), r.steps, r.log));
        }
    }
    pub fn count(&mut self, what: &str) {
        *self.st.named.entry(what.to_string()).or_default() += 1;
    }
    pub fn run_cli(&mut self, text: &[u8], d: &Dist, what: &str) -> Result<Res, String> {
        let limit = self.limit.unwrap_or(cli::step_limit(text.len()));
        if self.use_plain {
            if self.plain.is_none() {
                let (b, s, i) = &self.how;
                self.plain = Some(Guest::start(&format!("{}/seiren-plain", b), s, &format!("{}p", i))?);
            }
            let r = cli::run(self.plain.as_mut().unwrap(), text, d, limit.saturating_mul(20), self.trace)?;
            self.note(&r, what);
            self.count("runs_without_optimisation");
            return Ok(r);
        }
        let r = cli::run(&mut self.cli, text, d, limit, self.trace)?;
        self.note(&r, what);
        Ok(r)
    }
    /// The undisturbed run on that text and channel.
    pub fn base(&mut self, text: &[u8], file: &Option<String>) -> Result<Res, String> {
        let key = mix(hash_bytes(text), file.as_ref().map_or(7, |f| hash_bytes(f.as_bytes())));
        if let Some((k, r)) = &self.cache {
            if *k == key {
                return Ok(r.clone());
            }
        }
        let r = self.run_cli(text, &Dist { file: file.clone(), ..Dist::default() }, "undisturbed")?;
        self.cache = Some((key, r.clone()));
        Ok(r)
    }
    pub fn run_lib(&mut self, c: &LibRun, what: &str) -> Result<Res, String> {
        let r = lib_ops::run(&mut self.lib, c, self.trace)?;
        self.note(&r, what);
        Ok(r)
    }
}

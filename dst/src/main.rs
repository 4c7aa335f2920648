//! Seeded search over schedules and fault sequences of simulated runs of seiren.
mod cli;
mod ctx;
mod dict;
mod lib_ops;
mod model;
mod props_cli;
mod props_lib;
mod refparse;
mod rng;
mod sched;
mod shrink;
mod sim;
mod svgx;

use ctx::{Ctx, Stats, DISTURBANCES};
use lib_ops::LibRun;
use props_cli::CliCase;
use rng::{hash_bytes, mix, Rng};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}
#[derive(Debug)]
pub enum Bad {
    Viol(Viol),
    Harness(String),
}
impl From<String> for Bad {
    fn from(s: String) -> Self {
        Bad::Harness(s)
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Case {
    Command(CliCase),
    Library(LibRun),
}

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    verif_seed: u64,
    tier: String,
    case_index: u64,
    case_seed: u64,
    class: String,
    detail: String,
    /// identifies everything the simulated runs did
    digest: String,
    case: Case,
    /// the same violation as the search met it
    #[serde(default, skip_serializing_if = "Option::is_none")]
    found_as: Option<Case>,
    minimised_in_steps: u64,
    #[serde(default)]
    event_log: Vec<String>,
}

const CLI_PROPS: [&str; 8] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08"];
const LIB_PROPS: [&str; 10] = ["S01", "S02", "S03", "S04", "S05", "S06", "S07", "S08", "S09", "S10"];

pub fn gen(prop: &str, r: &mut Rng, c: &mut Ctx, thorough: bool) -> Result<Case, String> {
    c.begin();
    if CLI_PROPS.contains(&prop) {
        props_cli::gen(prop, r, c, thorough).map(Case::Command)
    } else {
        props_lib::gen(prop, r, c, thorough).map(Case::Library)
    }
}
pub fn check(prop: &str, k: &Case, c: &mut Ctx) -> Result<(), Bad> {
    c.begin();
    match k {
        Case::Command(k) => props_cli::check(prop, k, c),
        Case::Library(k) => props_lib::check(prop, k, c),
    }
}
/// Some(violation) or None; harness errors end the program with status 2.
pub fn judge_case(prop: &str, k: &Case, c: &mut Ctx) -> Result<Option<Viol>, String> {
    match check(prop, k, c) {
        Ok(()) => Ok(None),
        Err(Bad::Viol(v)) => Ok(Some(v)),
        Err(Bad::Harness(h)) => Err(h),
    }
}

/// How many cases a check runs, and for how long at most.
fn budget(prop: &str, thorough: bool) -> (u64, u64) {
    let q: u64 = match prop {
        "C01" => 15000,
        "C02" => 14000,
        "C03" => 60000,
        "C04" => 100000,
        "C05" => 110000,
        "C06" => 30000,
        "C07" => 45000,
        "C08" => 80000,
        "S01" => 14000,
        "S02" => 16000,
        "S03" => 26000,
        "S04" => 20000,
        "S05" => 60000,
        "S06" => 60000,
        "S07" => 34000,
        "S08" => 5000,
        "S09" => 30000,
        "S10" => 24000,
        _ => 0,
    };
    if thorough {
        (q * 20, 700)
    } else {
        (q, 100)
    }
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn shm_dir() -> String {
    if std::path::Path::new("/dev/shm").is_dir() {
        "/dev/shm".into()
    } else {
        format!("{}/build", verif_dir())
    }
}
fn build_dir() -> String {
    format!("{}/build", verif_dir())
}

struct Batch {
    stats: Stats,
    cases: u64,
    nontrivial: HashSet<u64>,
    samples: BTreeMap<u64, Case>,
    cov: Vec<u8>,
    cov_lib: Vec<u8>,
    guards: (u64, u64),
    found: Option<(u64, Case, Viol)>,
    capped: bool,
    digest: u64,
}

fn explore(prop: &str, seed: u64, thorough: bool, workers: usize, cases: u64, cap: Duration) -> Result<Batch, String> {
    let next = AtomicU64::new(0);
    let best = AtomicU64::new(u64::MAX);
    let capped = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Case, Viol)>> = Mutex::new(None);
    let t0 = Instant::now();
    let prop_seed = mix(seed, hash_bytes(prop.as_bytes()));
    let results: Vec<Result<Batch, String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..workers)
            .map(|w| {
                let (next, best, capped, found) = (&next, &best, &capped, &found);
                s.spawn(move || -> Result<Batch, String> {
                    let mut c = Ctx::new(&build_dir(), &shm_dir(), &format!("{}{}", prop, w))?;
                    let mut b = Batch {
                        stats: Stats::default(),
                        cases: 0,
                        nontrivial: HashSet::new(),
                        samples: BTreeMap::new(),
                        cov: vec![],
                        cov_lib: vec![],
                        guards: (0, 0),
                        found: None,
                        capped: false,
                        digest: 0,
                    };
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= cases || i > best.load(Ordering::SeqCst) {
                            break;
                        }
                        if t0.elapsed() > cap {
                            capped.store(true, Ordering::SeqCst);
                            break;
                        }
                        let mut r = Rng::new(mix(prop_seed, i));
                        let before = (c.st.ctr, c.st.named.iter().filter(|x| x.0.starts_with("damage")).map(|x| *x.1).sum::<u64>());
                        let k = gen(prop, &mut r, &mut c, thorough)?;
                        let v = judge_case(prop, &k, &mut c).map_err(|e| format!("case {}: {}", i, e))?;
                        b.cases += 1;
                        b.digest ^= mix(c.digest, i);
                        let after: u64 = c.st.named.iter().filter(|x| x.0.starts_with("damage")).map(|x| *x.1).sum();
                        let disturbed = DISTURBANCES.iter().any(|x| c.st.ctr[*x] != before.0[*x]) || after != before.1 || varied(&k);
                        if disturbed {
                            b.nontrivial.insert(c.digest);
                        }
                        if i < 40 && disturbed && b.samples.len() < 3 {
                            b.samples.insert(i, k.clone());
                        }
                        if let Some(v) = v {
                            best.fetch_min(i, Ordering::SeqCst);
                            let mut f = found.lock().unwrap();
                            if f.as_ref().map_or(true, |x| x.0 > i) {
                                *f = Some((i, k, v));
                            }
                        }
                    }
                    b.stats = c.st.clone();
                    b.cov = c.cli.cov.clone();
                    b.cov_lib = c.lib.cov.clone();
                    b.guards = (c.cli.n_guards, c.lib.n_guards);
                    Ok(b)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a worker panicked".into()))).collect()
    });
    let mut all: Option<Batch> = None;
    for r in results {
        let b = r?;
        all = Some(match all {
            None => b,
            Some(mut a) => {
                a.stats.merge(&b.stats);
                a.cases += b.cases;
                a.nontrivial.extend(b.nontrivial);
                a.samples.extend(b.samples);
                for (x, y) in a.cov.iter_mut().zip(&b.cov) {
                    *x |= y;
                }
                for (x, y) in a.cov_lib.iter_mut().zip(&b.cov_lib) {
                    *x |= y;
                }
                a.guards = (a.guards.0.max(b.guards.0), a.guards.1.max(b.guards.1));
                a.digest ^= b.digest;
                a
            }
        });
    }
    let mut a = all.ok_or("no workers")?;
    a.found = found.into_inner().unwrap();
    a.capped = capped.into_inner();
    Ok(a)
}
/// Disturbances that no counter shows.
fn varied(k: &Case) -> bool {
    match k {
        Case::Command(k) => k.runs.iter().any(|d| d.world.is_some() || d.stat_size.is_some() || d.missing || d.file.is_some()),
        Case::Library(k) => {
            k.threads.len() > 1
                || k.rounds > 0
                || k.pre.iter().filter(|o| matches!(o, lib_ops::Op::PlaceNodes(..))).count() > 1
                || k.pre.iter().chain(&k.post).any(|o| matches!(o, lib_ops::Op::Render { sink, .. } if *sink != lib_ops::Script::default()))
        }
    }
}

fn rule(prop: &str) -> String {
    let gen = if prop.starts_with('C') {
        "a case is one source text (generated program, possibly damaged by storage or transport faults, or a soup of tokens) and the disturbed runs of the real command on it, each under its own plan of stream outcomes, kills, failing allocations and process surroundings"
    } else {
        "a case is one program of library operations (before, inside and after simulated threads) with scripted sinks, and a schedule of preemptions placed at chosen execution steps"
    };
    format!("{}; it is non-trivial if at least one fault fired, the text was changed by damage, a preemption or thread switch happened, or the surroundings or the history differ from the plain ones; distinct cases differ in the digest of everything their runs did (all I/O events with their step numbers, outputs, ends)", gen)
}

fn write_evidence(prop: &str, tier: &str, seed: u64, b: &Batch, wall: f64, viols: u64, workers: usize) -> Result<(), String> {
    let hits = |v: &[u8]| v.iter().filter(|x| **x > 0).count() as u64;
    let mut faults: BTreeMap<String, u64> = BTreeMap::new();
    let mut events: BTreeMap<String, u64> = BTreeMap::new();
    for (i, n) in sim::CTR_NAMES.iter().enumerate() {
        let e = if DISTURBANCES.contains(&i) && i != 20 { &mut faults } else { &mut events };
        e.insert(n.to_string(), b.stats.ctr[i]);
    }
    for (k, v) in &b.stats.named {
        let e = if k.starts_with("damage_") { &mut faults } else { &mut events };
        e.insert(k.clone(), *v);
    }
    let h = wall / 3600.0;
    let cov = serde_json::json!({
        "evaluations": b.cases,
        "distinct_nontrivial": b.nontrivial.len(),
        "rule": rule(prop),
        "samples": b.samples.values().take(3).collect::<Vec<_>>(),
        "simulated_runs": b.stats.runs,
        "simulated_runs_per_hour": (b.stats.runs as f64 / h) as u64,
        "seeds_per_hour": (b.cases as f64 / h) as u64,
        "simulated_time_s": b.stats.sim_ns as f64 / 1e9,
        "execution_steps": b.stats.steps,
        "faults_fired": faults,
        "events": events,
        "ends_of_runs": b.stats.ends,
        "distinct_executions": b.stats.execs.len(),
        "distinct_executions_measure": "distinct hashes over all simulated system-level events of a run (kind, arguments, result, execution step), its number of basic-block steps, and what its operations reported",
        "distinct_interleavings": b.stats.scheds.len(),
        "distinct_interleavings_measure": "distinct hashes over the sequence of thread switches (execution step, thread)",
        "edges_reached": {"command": hits(&b.cov), "command_total": b.guards.0, "library_guest": hits(&b.cov_lib), "library_guest_total": b.guards.1},
        "stopped_by_time_cap": b.capped,
        "workers": workers,
        "real_code": "all of seiren (main.rs and the library), its dependencies (chumsky, ariadne, svg, petgraph, ...) and the Rust standard library, compiled from the working tree",
        "stubs": "the operating system below libc's interface: streams, files, clocks, random source, heap and stack placement, allocation, thread scheduling and futexes, process identity",
    });
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": [
            "the simulated system calls behave as POSIX allows; faults outside the injected kinds are not covered",
            "threads are preempted at basic-block borders and system calls; memory is sequentially consistent",
            "the reference grammar, diagram model and SVG reader in /verif/dst are right"
        ],
        "wall_s": wall,
        "violations": viols,
    });
    let p = format!("{}/evidence/{}.json", verif_dir(), prop);
    std::fs::create_dir_all(format!("{}/evidence", verif_dir())).map_err(|e| e.to_string())?;
    std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap() + "\n").map_err(|e| format!("{}: {}", p, e))
}

fn search(prop: &str, tier: &str, seed: u64) -> Result<i32, String> {
    let thorough = tier == "thorough";
    let workers = std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(1, 16));
    let (mut n, mut cap) = budget(prop, thorough);
    if let Ok(x) = std::env::var("DST_CASES") {
        n = x.parse().map_err(|_| "DST_CASES")?;
    }
    if let Ok(x) = std::env::var("DST_CAP_S") {
        cap = x.parse().map_err(|_| "DST_CAP_S")?;
    }
    println!("{} {} VERIF_SEED={} cases={} workers={}", prop, tier, seed, n, workers);
    let t0 = Instant::now();
    let b = explore(prop, seed, thorough, workers, n, Duration::from_secs(cap))?;
    let wall = t0.elapsed().as_secs_f64();
    write_evidence(prop, tier, seed, &b, wall, b.found.is_some() as u64, workers)?;
    println!(
        "{} cases, {} simulated runs, {} distinct non-trivial, {} distinct executions, {} distinct interleavings, {:.1} s{}  digest {:016x}",
        b.cases,
        b.stats.runs,
        b.nontrivial.len(),
        b.stats.execs.len(),
        b.stats.scheds.len(),
        wall,
        if b.capped { " (time cap)" } else { "" },
        b.digest
    );
    let (i, k, v) = match b.found {
        None => return Ok(0),
        Some(f) => f,
    };
    println!("case {}: {}: {}", i, v.class, v.detail);
    let mut c = Ctx::new(&build_dir(), &shm_dir(), &format!("{}min", prop))?;
    let (mk, mv, steps) = shrink::minimise(prop, &k, &v, &mut c, Duration::from_secs(if thorough { 120 } else { 40 }))?;
    c.trace = true;
    let again = judge_case(prop, &mk, &mut c)?;
    let rp = Replay {
        property: prop.into(),
        verif_seed: seed,
        tier: tier.into(),
        case_index: i,
        case_seed: mix(mix(seed, hash_bytes(prop.as_bytes())), i),
        class: mv.class.clone(),
        detail: again.map_or(mv.detail.clone(), |v| v.detail),
        digest: format!("{:016x}", c.digest),
        found_as: if mk != k { Some(k) } else { None },
        case: mk,
        minimised_in_steps: steps,
        event_log: c.log.lines().map(|l| l.to_string()).collect(),
    };
    std::fs::create_dir_all(format!("{}/replays", verif_dir())).map_err(|e| e.to_string())?;
    let p = format!("{}/replays/{}-{}-{}.json", verif_dir(), prop, seed, i);
    std::fs::write(&p, serde_json::to_string_pretty(&rp).unwrap() + "\n").map_err(|e| format!("{}: {}", p, e))?;
    // the file must fail in the same way in a fresh process
    let out = std::process::Command::new(std::env::current_exe().map_err(|e| e.to_string())?).args(["replay", &p]).output().map_err(|e| e.to_string())?;
    println!("minimised ({} steps): {}: {}", steps, rp.class, rp.detail);
    println!("replayed in a fresh process: {}", String::from_utf8_lossy(&out.stdout).lines().last().unwrap_or(""));
    println!("VIOLATION property={} replay={}", prop, p);
    Ok(1)
}

fn replay(path: &str) -> Result<i32, String> {
    let s = std::fs::read_to_string(path).map_err(|e| format!("{}: {}", path, e))?;
    let rp: Replay = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    let mut c = Ctx::new(&build_dir(), &shm_dir(), "replay")?;
    c.trace = true;
    match judge_case(&rp.property, &rp.case, &mut c)? {
        Some(v) => {
            let d = format!("{:016x}", c.digest);
            println!("{}: {}", v.class, v.detail);
            println!("VIOLATION property={} replay={}", rp.property, path);
            println!("{}", if d == rp.digest && v.class == rp.class { "reproduced exactly (same digest)" } else { "reproduced, but with another digest (the tree differs?)" });
            Ok(1)
        }
        None => {
            println!("does not reproduce on this tree");
            Ok(0)
        }
    }
}

/// Determinism and self-consistency of the machinery.
fn selftest(n: u64) -> Result<i32, String> {
    // the generator, the printer and the reference reader agree
    let mut r = Rng::new(7);
    for i in 0..20000u64 {
        let sh = model::Shape::random(&mut r);
        let p = model::gen_program(&mut r, &sh);
        let st = model::Style::random(&mut r);
        let t = model::print_program(&mut r, &p, &st);
        match refparse::judge(&t) {
            refparse::Verdict::Program(q) if q == p => {}
            v => return Err(format!("program {} is misjudged: {:?}\n{}", i, v, t)),
        }
    }
    let mut bad = 0;
    for p in CLI_PROPS.iter().chain(&LIB_PROPS) {
        let mut ds = vec![];
        for (workers, seed) in [(8, 11), (1, 11), (3, 11), (8, 12), (5, 12)] {
            let b = explore(p, seed, false, workers, n, Duration::from_secs(600))?;
            ds.push((seed, b.digest, b.found.as_ref().map(|f| f.0)));
        }
        let same = ds[0] == ds[1] && ds[0] == ds[2] && ds[3] == ds[4];
        println!("{} {} {:?}", p, if same { "deterministic" } else { "DIVERGES" }, ds);
        bad += !same as i32;
    }
    Ok(if bad > 0 { 2 } else { 0 })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let r = match a.get(1).map(|s| s.as_str()) {
        Some("search") if a.len() == 4 => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            search(&a[2], &a[3], seed)
        }
        Some("replay") if a.len() == 3 => replay(&a[2]),
        // print one case
        Some("case") if a.len() == 4 => (|| {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut c = Ctx::new(&build_dir(), &shm_dir(), "case")?;
            let i = a[3].parse().map_err(|_| "case number")?;
            let k = gen(&a[2], &mut Rng::new(mix(mix(seed, hash_bytes(a[2].as_bytes())), i)), &mut c, false)?;
            println!("{}", serde_json::to_string(&k).unwrap());
            Ok(0)
        })(),
        Some("selftest") => selftest(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(60)),
        _ => Err("usage: dst search PROPERTY TIER | replay FILE | selftest [CASES]".into()),
    };
    match r {
        Ok(c) => std::process::exit(c),
        Err(e) => {
            println!("HARNESS ERROR: {}", e);
            std::process::exit(2)
        }
    }
}

//! Operation programs for the library guest, their reference model and their reports.
use crate::cli::World;
use crate::model::{Col, Diagram, End, Entry, Path, Program, Rel, Table};
use crate::sim::{Guest, Plan, Res, StreamPlan, HEAP0, STACK0};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Act {
    Full,
    Short(u32),
    Interrupted,
    Err(u32),
    Zero,
    Panic,
    /// the sink renders the same document itself
    Render,
    /// the sink compiles another text
    Compile,
}
impl Act {
    fn enc(self, b: &mut Vec<u8>) {
        let (k, a) = match self {
            Act::Full => (0, 0),
            Act::Short(n) => (1, n),
            Act::Interrupted => (2, 0),
            Act::Err(e) => (3, e),
            Act::Zero => (4, 0),
            Act::Panic => (5, 0),
            Act::Render => (6, 0),
            Act::Compile => (7, 0),
        };
        b.push(k);
        b.extend_from_slice(&a.to_le_bytes());
    }
}
fn no<T: Default + PartialEq>(x: &T) -> bool {
    *x == T::default()
}
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct Script {
    #[serde(skip_serializing_if = "no")]
    pub writes: Vec<Act>,
    #[serde(skip_serializing_if = "no")]
    pub flushes: Vec<Act>,
    #[serde(skip_serializing_if = "no")]
    pub limit: Option<(u64, u32)>,
    #[serde(skip_serializing_if = "no")]
    pub buffered: bool,
    /// the thread's renderer is used again
    #[serde(skip_serializing_if = "no")]
    pub kept: bool,
}
impl Script {
    /// Nothing unusual about the sink.
    pub fn plain(&self) -> bool {
        *self == Script { kept: self.kept, ..Script::default() }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    NewModule(u32, Option<String>),
    AddEntity(u32, String, Vec<Col>),
    AddRelation(u32, Path, Path),
    Parse(u32, String),
    IntoMir(u32, u32),
    NewEngine(u32),
    PlaceNodes(u32, u32),
    PlacePorts(u32, u32),
    DrawEdges(u32, u32),
    Render { doc: u32, view: bool, debug: u32, sink: Script },
    Inspect(u32),
    MirAddTable(u32, String, Vec<Col>),
    MirAddField(u32, u32, Col),
    MirAddRelation(u32, u32, u32, u32, u32),
    Display(u32, bool),
    Detached(u32),
    RenderShared { doc: u32, view: bool, sink: Script },
    InspectShared(u32),
    ModuleText(u32),
    DisplayShared(u32, bool),
    EngineDropped(u32),
    NewDocument(u32),
    DisplayAgain(u32),
    /// a relation from a row to a node that is in no table
    RelationOutside(u32, u32, u32),
    /// creates the record of a table that is added later
    Reserve(u32),
    /// row 0 of a table gets another name, another row becomes another column
    Change(u32, u32, u32, Col),
    /// a row that stands in the document itself, in no table
    Bare(u32),
    /// one kind of work many times: 0 layouts of a document, 1 renderings of it, 2 compilations
    Often(u32, u32, u32, u32),
}
pub const NO_ENGINE: u32 = u32::MAX;

fn s(b: &mut Vec<u8>, x: &str) {
    b.extend_from_slice(&(x.len() as u32).to_le_bytes());
    b.extend_from_slice(x.as_bytes());
}
fn n(b: &mut Vec<u8>, x: u32) {
    b.extend_from_slice(&x.to_le_bytes());
}
fn col(b: &mut Vec<u8>, c: &Col) {
    s(b, &c.name);
    b.push(c.ty);
    b.push(c.key);
}
fn cols(b: &mut Vec<u8>, v: &[Col]) {
    n(b, v.len() as u32);
    for c in v {
        col(b, c);
    }
}
fn path(b: &mut Vec<u8>, p: &Path) {
    s(b, &p.table);
    match &p.field {
        Some(f) => {
            b.push(1);
            s(b, f);
        }
        None => b.push(0),
    }
}
fn script(b: &mut Vec<u8>, x: &Script) {
    n(b, x.writes.len() as u32);
    for a in &x.writes {
        a.enc(b);
    }
    n(b, x.flushes.len() as u32);
    for a in &x.flushes {
        a.enc(b);
    }
    let (l, k) = x.limit.unwrap_or((u64::MAX, 0));
    b.extend_from_slice(&l.to_le_bytes());
    n(b, k);
    b.push(x.buffered as u8);
    b.push(x.kept as u8);
}
impl Op {
    fn enc(&self, b: &mut Vec<u8>) {
        match self {
            Op::NewModule(m, name) => {
                b.push(0);
                n(b, *m);
                match name {
                    Some(x) => {
                        b.push(1);
                        s(b, x);
                    }
                    None => b.push(0),
                }
            }
            Op::AddEntity(m, name, c) => {
                b.push(1);
                n(b, *m);
                s(b, name);
                cols(b, c);
            }
            Op::AddRelation(m, x, y) => {
                b.push(2);
                n(b, *m);
                path(b, x);
                path(b, y);
            }
            Op::Parse(m, t) => {
                b.push(3);
                n(b, *m);
                s(b, t);
            }
            Op::IntoMir(m, d) => {
                b.push(4);
                n(b, *m);
                n(b, *d);
            }
            Op::NewEngine(e) => {
                b.push(5);
                n(b, *e);
            }
            Op::PlaceNodes(e, d) => {
                b.push(6);
                n(b, *e);
                n(b, *d);
            }
            Op::PlacePorts(e, d) => {
                b.push(7);
                n(b, *e);
                n(b, *d);
            }
            Op::DrawEdges(e, d) => {
                b.push(8);
                n(b, *e);
                n(b, *d);
            }
            Op::Render { doc, view, debug, sink } => {
                b.push(9);
                n(b, *doc);
                b.push(*view as u8);
                n(b, *debug);
                script(b, sink);
            }
            Op::Inspect(d) => {
                b.push(10);
                n(b, *d);
            }
            Op::MirAddTable(d, t, c) => {
                b.push(11);
                n(b, *d);
                s(b, t);
                cols(b, c);
            }
            Op::MirAddField(d, t, c) => {
                b.push(12);
                n(b, *d);
                n(b, *t);
                col(b, c);
            }
            Op::MirAddRelation(d, a, x, c, y) => {
                b.push(13);
                for v in [d, a, x, c, y] {
                    n(b, *v);
                }
            }
            Op::Display(d, v) => {
                b.push(14);
                n(b, *d);
                b.push(*v as u8);
            }
            Op::Detached(d) => {
                b.push(15);
                n(b, *d);
            }
            Op::RenderShared { doc, view, sink } => {
                b.push(16);
                n(b, *doc);
                b.push(*view as u8);
                script(b, sink);
            }
            Op::InspectShared(d) => {
                b.push(17);
                n(b, *d);
            }
            Op::ModuleText(m) => {
                b.push(18);
                n(b, *m);
            }
            Op::DisplayShared(d, v) => {
                b.push(19);
                n(b, *d);
                b.push(*v as u8);
            }
            Op::EngineDropped(e) => {
                b.push(20);
                n(b, *e);
            }
            Op::NewDocument(d) => {
                b.push(21);
                n(b, *d);
            }
            Op::DisplayAgain(d) => {
                b.push(22);
                n(b, *d);
            }
            Op::RelationOutside(d, t, f) => {
                b.push(23);
                for v in [d, t, f] {
                    n(b, *v);
                }
            }
            Op::Reserve(d) => {
                b.push(24);
                n(b, *d);
            }
            Op::Change(d, t, f, c) => {
                b.push(25);
                for v in [d, t, f] {
                    n(b, *v);
                }
                col(b, c);
            }
            Op::Bare(d) => {
                b.push(26);
                n(b, *d);
            }
            Op::Often(k, e, d, times) => {
                b.push(27);
                for v in [k, e, d, times] {
                    n(b, *v);
                }
            }
        }
    }
}

/// A whole library run: what happens before, in and after the threads, and the schedule.
#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
#[serde(default)]
pub struct LibRun {
    pub pre: Vec<Op>,
    #[serde(skip_serializing_if = "no")]
    pub threads: Vec<Vec<Op>>,
    #[serde(skip_serializing_if = "no")]
    pub post: Vec<Op>,
    /// (execution step, which other thread goes on)
    #[serde(skip_serializing_if = "no")]
    pub preempt: Vec<(u64, u64)>,
    /// which thread goes on when the running one stops
    #[serde(skip_serializing_if = "no")]
    pub picks: Vec<u64>,
    /// at the end of system calls: 0 go on, else which other thread goes on
    #[serde(skip_serializing_if = "no")]
    pub yields: Vec<u64>,
    /// (basic block, from which of its executions on, every how many (0: once), which other thread goes on)
    #[serde(skip_serializing_if = "no")]
    pub sites: Vec<(u32, u32, u32, u64)>,
    #[serde(skip_serializing_if = "Vec::is_empty")]
    pub atoms: Vec<(u64, u64)>,
    /// how often it all is done; 0: once, and unmeasured
    #[serde(skip_serializing_if = "no")]
    pub rounds: u32,
    /// only the threads and what follows them are repeated; what was made before stays
    #[serde(skip_serializing_if = "no")]
    pub keep: bool,
    #[serde(skip_serializing_if = "no")]
    pub out: StreamPlan,
    #[serde(skip_serializing_if = "no")]
    pub entropy: u64,
    #[serde(skip_serializing_if = "no")]
    pub bases: Option<(u64, u64)>,
    /// on which thread each operation before the threads is made; 0: the main one
    #[serde(skip_serializing_if = "no")]
    pub spread: Vec<u8>,
    /// what the process has around it
    #[serde(skip_serializing_if = "no")]
    pub world: Option<World>,
}
impl LibRun {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = vec![];
        n(&mut b, self.threads.len() as u32);
        n(&mut b, self.rounds);
        b.push(self.keep as u8);
        n(&mut b, self.spread.len() as u32);
        b.extend_from_slice(&self.spread);
        let mut sec = |ops: &Vec<Op>| {
            n(&mut b, ops.len() as u32);
            for o in ops {
                o.enc(&mut b);
            }
        };
        sec(&self.pre);
        for t in &self.threads {
            sec(t);
        }
        sec(&self.post);
        b
    }
    pub fn ops(&self) -> usize {
        self.pre.len() + self.post.len() + self.threads.iter().map(|t| t.len()).sum::<usize>()
    }
}

pub const LIB_STEP_LIMIT: u64 = 1_000_000_000;

pub fn run(g: &mut Guest, c: &LibRun, trace: bool) -> Result<Res, String> {
    let user = c.encode();
    let (h, st) = c.bases.unwrap_or((HEAP0, STACK0));
    let mut p = Plan {
        args: vec!["guest"],
        out: &c.out,
        entropy: if c.entropy == 0 { 1 } else { c.entropy },
        heap_base: h,
        stack_base: st,
        preempt: &c.preempt,
        picks: &c.picks,
        yields: &c.yields,
        sites: &c.sites,
        atoms: &c.atoms,
        user: &user,
        step_limit: LIB_STEP_LIMIT,
        trace,
        ..Plan::default()
    };
    if let Some(w) = &c.world {
        w.put(&mut p);
    }
    g.run(&p)
}

// ------------------------------------------------------------------ reports
#[derive(Clone, Debug, Default, PartialEq)]
pub struct SinkRep {
    pub committed: usize,
    pub writes: u32,
    pub flushes: u32,
    pub faults: Vec<u8>,
    pub accepted: Vec<u8>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct OpRep {
    pub result: String,
    pub panicked: bool,
    pub sink: Option<SinkRep>,
    pub out_len: Option<u64>,
}
/// What is in use at the end of a round, the steps so far, and what it reported.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Round {
    pub live: u64,
    pub steps: u64,
    pub hash: u64,
}
pub fn rounds(rep: &[u8]) -> Vec<Round> {
    let mut v = vec![];
    let mut i = 0;
    while i + 10 <= rep.len() {
        let len = u32::from_le_bytes(rep[i + 6..i + 10].try_into().unwrap()) as usize;
        if rep[i + 5] == 5 && i + 34 <= rep.len() {
            let u = |k: usize| u64::from_le_bytes(rep[i + 10 + k..i + 18 + k].try_into().unwrap());
            v.push(Round { live: u(0), steps: u(8), hash: u(16) });
        }
        i += 10 + len;
    }
    v
}
pub const POST: u32 = 1 << 20;
pub type Reports = HashMap<(u8, u32), OpRep>;
/// What a sink did itself while operation `i` wrote to it.
pub fn inside(m: &Reports, th: u8, i: u32) -> Vec<&OpRep> {
    (1u32..500).map_while(|k| m.get(&(th, i | k << 22))).collect()
}
pub const INNER: &str = "erd { inner { id int PK\n other uuid FK }\n other { id uuid PK }\n inner.other o--o other.id }";

pub fn reports(rep: &[u8]) -> Result<Reports, String> {
    let mut m: Reports = HashMap::new();
    let mut i = 0;
    let u = |i: usize| u32::from_le_bytes(rep[i..i + 4].try_into().unwrap());
    while i < rep.len() {
        if i + 10 > rep.len() {
            return Err("torn report".into());
        }
        let th = rep[i];
        let op = u(i + 1);
        let tag = rep[i + 5];
        let len = u(i + 6) as usize;
        let b = &rep[i + 10..i + 10 + len];
        i += 10 + len;
        let e = m.entry((th, op)).or_default();
        match tag {
            1 => e.result = String::from_utf8_lossy(b).into_owned(),
            2 => {
                let v = |k: usize| u32::from_le_bytes(b[k..k + 4].try_into().unwrap());
                let nf = v(12) as usize;
                e.sink = Some(SinkRep {
                    committed: v(0) as usize,
                    writes: v(4),
                    flushes: v(8),
                    faults: b[16..16 + nf].to_vec(),
                    accepted: b[16 + nf..].to_vec(),
                });
            }
            3 => e.panicked = true,
            4 => e.out_len = Some(u64::from_le_bytes(b[..8].try_into().unwrap())),
            5 => {}
            _ => return Err("unknown report".into()),
        }
    }
    Ok(m)
}

// ------------------------------------------------------------------ reference model
#[derive(Clone, Debug, Default)]
pub struct DocModel {
    pub d: Diagram,
    /// per table: laid out rows; None: the table is new since the last placement
    placed: Vec<usize>,
    ported: Vec<usize>,
    /// at most so many relations have a line
    drawn: usize,
    /// the last complete sequence of phases left it fully laid out
    pub complete: bool,
    pub has_view: bool,
    pub phase: u8,
}
impl DocModel {
    fn of(d: Diagram) -> Self {
        DocModel { d, ..Default::default() }
    }
    fn touched(&mut self) {
        self.complete = false;
        self.phase = 0;
    }
    /// some node or relation has no place: rendering must refuse it
    pub fn unplaced(&self) -> bool {
        self.placed.len() < self.d.tables.len()
            || self.d.tables.iter().zip(&self.placed).any(|(t, p)| *p < t.cols.len() + 1)
            || self.drawn < self.d.rels.len()
    }
}

/// What programs of operations mean, without any layout.
#[derive(Clone, Debug, Default)]
pub struct ModelWorld {
    pub modules: HashMap<u32, Option<Program>>,
    pub docs: HashMap<u32, DocModel>,
    pub engines: HashMap<u32, ()>,
}

impl ModelWorld {
    /// Executes one operation; false: the model does not know what it yields.
    pub fn exec(&mut self, o: &Op) {
        match o {
            Op::NewModule(m, name) => {
                self.modules.insert(*m, Some(Program { name: name.clone(), entries: vec![] }));
            }
            Op::AddEntity(m, name, c) => {
                if let Some(Some(p)) = self.modules.get_mut(m) {
                    p.entries.push(Entry::Table(Table { name: name.clone(), cols: c.clone() }));
                }
            }
            Op::AddRelation(m, a, b) => {
                if let Some(Some(p)) = self.modules.get_mut(m) {
                    p.entries.push(Entry::Rel(a.clone(), b.clone()));
                }
            }
            Op::Parse(m, t) => {
                use crate::refparse::{judge, Verdict};
                match judge(t) {
                    Verdict::Program(p) => {
                        self.modules.insert(*m, Some(p));
                    }
                    _ => {
                        // whether something was recovered is not modelled
                        self.modules.insert(*m, None);
                    }
                }
            }
            Op::IntoMir(m, d) => match self.modules.get(m) {
                Some(Some(p)) => {
                    self.docs.insert(*d, DocModel::of(crate::model::diagram_of(p)));
                }
                Some(None) => {
                    self.docs.remove(d);
                }
                None => {}
            },
            Op::NewDocument(d) => {
                self.docs.insert(*d, DocModel::default());
            }
            Op::NewEngine(e) => {
                self.engines.insert(*e, ());
            }
            Op::EngineDropped(e) => {
                self.engines.remove(e);
            }
            Op::PlaceNodes(e, d) => {
                if self.engines.contains_key(e) {
                    if let Some(x) = self.docs.get_mut(d) {
                        x.placed = x.d.tables.iter().map(|t| t.cols.len() + 1).collect();
                        x.has_view = true;
                        x.phase = 1;
                        x.complete = false;
                    }
                }
            }
            Op::PlacePorts(e, d) => {
                if self.engines.contains_key(e) {
                    if let Some(x) = self.docs.get_mut(d) {
                        x.ported = x.placed.clone();
                        x.phase = if x.phase >= 1 { 2 } else { 0 };
                        x.complete = false;
                    }
                }
            }
            Op::DrawEdges(e, d) => {
                if self.engines.contains_key(e) {
                    if let Some(x) = self.docs.get_mut(d) {
                        x.drawn = x.d.rels.len();
                        x.complete = x.phase == 2;
                    }
                }
            }
            Op::MirAddTable(d, t, c) => {
                if let Some(x) = self.docs.get_mut(d) {
                    x.d.tables.push(Table { name: t.clone(), cols: c.clone() });
                    x.touched();
                }
            }
            Op::MirAddField(d, t, c) => {
                if let Some(x) = self.docs.get_mut(d) {
                    if let Some(tb) = x.d.tables.get_mut(*t as usize) {
                        tb.cols.push(c.clone());
                        x.touched();
                    }
                }
            }
            // places don't depend on what is written in a row
            Op::Change(d, t, f, c) => {
                if let Some(tb) = self.docs.get_mut(d).and_then(|x| x.d.tables.get_mut(*t as usize)) {
                    if *f == 0 {
                        tb.name = c.name.clone();
                    } else if let Some(x) = tb.cols.get_mut(*f as usize - 1) {
                        *x = c.clone();
                    }
                }
            }
            Op::MirAddRelation(d, a, x1, c, y1) => {
                if let Some(x) = self.docs.get_mut(d) {
                    let end = |t: u32, f: u32| -> Option<End> {
                        let tb = x.d.tables.get(t as usize)?;
                        if f == 0 {
                            return Some(End { table: t as usize, row: None });
                        }
                        if f as usize <= tb.cols.len() + 1 {
                            Some(End { table: t as usize, row: Some(f as usize - 1) })
                        } else {
                            None
                        }
                    };
                    if let (Some(p), Some(q)) = (end(*a, *x1), end(*c, *y1)) {
                        x.d.rels.push(Rel { a: vec![p], b: vec![q] });
                        x.touched();
                    }
                }
            }
            Op::Render { .. } | Op::Inspect(_) | Op::Display(..) | Op::Detached(_) | Op::RenderShared { .. } | Op::InspectShared(_) | Op::ModuleText(_) | Op::DisplayShared(..) | Op::DisplayAgain(_) | Op::Reserve(_) | Op::Bare(_) => {}
            Op::Often(0, e, d, times) if *times > 0 => [Op::PlaceNodes(*e, *d), Op::PlacePorts(*e, *d), Op::DrawEdges(*e, *d)].iter().for_each(|o| self.exec(o)),
            Op::Often(..) => {}
            // such a relation has no place in a diagram
            Op::RelationOutside(d, ..) => {
                self.docs.remove(d);
            }
        }
    }
}

//! The library guest: executes an operation program on the real seiren library.
//!
//! The program comes from the simulator (`sim_user`), everything that is observed goes back
//! through `sim_report` as records `[thread u8, op u32, tag u8, len u32, bytes]`.
use seiren::erd::{
    EntityDefinition, EntityField, EntityFieldKey, EntityFieldType, EntityPath, EntityRelation,
    Module,
};
use seiren::error::BackendError;
use seiren::evcxr::{draw_erd, CustomDisplay};
use seiren::geometry::{Orientation, Rect};
use seiren::layout::{LayoutEngine, SimpleLayoutEngine};
use seiren::mir::{self, Document, NodeId, ShapeKind};
use seiren::parser::parse;
use seiren::renderer::{Renderer, SVGRenderer};
use std::collections::HashMap;
use std::io::{self, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::{mpsc, Arc};
use std::thread;

extern "C" {
    fn sim_user(len: *mut u64) -> *const u8;
    fn sim_report(p: *const u8, n: u64);
    fn sim_yield();
    fn sim_progress();
    fn sim_out_len() -> u64;
    fn sim_live() -> u64;
    fn sim_steps() -> u64;
    fn sim_threads() -> u32;
    fn sim_descriptors() -> u64;
}

// ------------------------------------------------------------------ report
const TAG_RESULT: u8 = 1;
const TAG_SINK: u8 = 2;
const TAG_PANIC: u8 = 3;
/// how many bytes standard output had accepted when the operation returned
const TAG_OUT: u8 = 4;
/// at the end of a round: bytes in use, steps so far, what its reports were
const TAG_ROUND: u8 = 5;

/// What names carry where they shall differ from round to round.
const MARK: &[u8] = b"zq00";
static ROUND: AtomicU32 = AtomicU32::new(0);
static REPORTED: AtomicU64 = AtomicU64::new(0);

fn marked(round: u32) -> [u8; 4] {
    let digit = |x: u32| b"0123456789abcdefghijklmnopqrstuvwxyz"[(x % 36) as usize];
    [MARK[0], MARK[1], digit(round / 36), digit(round)]
}
fn replace(b: &mut [u8], from: &[u8], to: &[u8]) {
    let mut i = 0;
    while i + from.len() <= b.len() {
        if &b[i..i + from.len()] == from {
            b[i..i + from.len()].copy_from_slice(to);
            i += from.len();
        } else {
            i += 1;
        }
    }
}

fn report(thread: u8, op: u32, tag: u8, body: &[u8]) {
    let round = ROUND.load(Ordering::SeqCst);
    if tag == TAG_RESULT || tag == TAG_ROUND {
        unsafe { sim_progress() }
    }
    if tag != TAG_OUT && tag != TAG_ROUND {
        let mut h = 0xcbf29ce484222325u64;
        let mut eat = |x: u8| h = (h ^ x as u64).wrapping_mul(0x100000001b3);
        eat(thread);
        op.to_le_bytes().iter().for_each(|x| eat(*x));
        eat(tag);
        // names of this round or an earlier one
        for (i, x) in body.iter().enumerate() {
            let is = |x: u8| x.is_ascii_digit() || x.is_ascii_lowercase();
            let digit = is(*x)
                && (i >= 2 && &body[i - 2..i] == &MARK[..2]
                    || i >= 3 && &body[i - 3..i - 1] == &MARK[..2] && is(body[i - 1]));
            eat(if digit { b'0' } else { *x });
        }
        REPORTED.fetch_add(h, Ordering::SeqCst);
    }
    if round > 0 && tag != TAG_ROUND {
        return;
    }
    let mut v = Vec::with_capacity(10 + body.len());
    v.push(thread);
    v.extend_from_slice(&op.to_le_bytes());
    v.push(tag);
    v.extend_from_slice(&(body.len() as u32).to_le_bytes());
    v.extend_from_slice(body);
    unsafe { sim_report(v.as_ptr(), v.len() as u64) }
}

// ------------------------------------------------------------------ program
struct Rd<'a> {
    b: &'a [u8],
    p: usize,
}
impl<'a> Rd<'a> {
    fn u8(&mut self) -> u8 {
        self.p += 1;
        self.b[self.p - 1]
    }
    fn u32(&mut self) -> u32 {
        self.p += 4;
        u32::from_le_bytes(self.b[self.p - 4..self.p].try_into().unwrap())
    }
    fn u64(&mut self) -> u64 {
        self.p += 8;
        u64::from_le_bytes(self.b[self.p - 8..self.p].try_into().unwrap())
    }
    fn s(&mut self) -> String {
        let n = self.u32() as usize;
        self.p += n;
        String::from_utf8(self.b[self.p - n..self.p].to_vec()).unwrap()
    }
}

#[derive(Clone)]
struct FieldSpec {
    name: String,
    ty: u8,
    key: u8,
}
#[derive(Clone)]
struct PathSpec {
    table: String,
    field: Option<String>,
}
#[derive(Clone, Copy)]
struct Act {
    kind: u8,
    arg: u32,
}
#[derive(Clone, Default)]
struct Script {
    writes: Vec<Act>,
    flushes: Vec<Act>,
    limit: u64,
    limit_kind: u32,
    buffered: bool,
    /// the thread's renderer is used again
    kept: bool,
}

#[derive(Clone)]
enum Op {
    NewModule(u32, Option<String>),
    AddEntity(u32, String, Vec<FieldSpec>),
    AddRelation(u32, PathSpec, PathSpec),
    Parse(u32, String),
    IntoMir(u32, u32),
    NewEngine(u32),
    PlaceNodes(u32, u32),
    PlacePorts(u32, u32),
    DrawEdges(u32, u32),
    Render(u32, bool, u32, Script),
    Inspect(u32),
    MirAddTable(u32, String, Vec<FieldSpec>),
    MirAddField(u32, u32, FieldSpec),
    MirAddRelation(u32, u32, u32, u32, u32),
    Display(u32, bool),
    Detached(u32),
    RenderShared(u32, bool, Script),
    InspectShared(u32),
    ModuleText(u32),
    DisplayShared(u32, bool),
    EngineDropped(u32),
    NewDocument(u32),
    DisplayAgain(u32),
    RelationOutside(u32, u32, u32),
    Reserve(u32),
    Change(u32, u32, u32, FieldSpec),
    Bare(u32),
    Often(u32, u32, u32, u32),
}

fn field_spec(r: &mut Rd) -> FieldSpec {
    FieldSpec { name: r.s(), ty: r.u8(), key: r.u8() }
}
fn fields(r: &mut Rd) -> Vec<FieldSpec> {
    (0..r.u32()).map(|_| field_spec(r)).collect()
}
fn path(r: &mut Rd) -> PathSpec {
    let table = r.s();
    let field = if r.u8() == 1 { Some(r.s()) } else { None };
    PathSpec { table, field }
}
fn acts(r: &mut Rd) -> Vec<Act> {
    (0..r.u32()).map(|_| Act { kind: r.u8(), arg: r.u32() }).collect()
}
fn script(r: &mut Rd) -> Script {
    Script {
        writes: acts(r),
        flushes: acts(r),
        limit: r.u64(),
        limit_kind: r.u32(),
        buffered: r.u8() == 1,
        kept: r.u8() == 1,
    }
}
fn op(r: &mut Rd) -> Op {
    match r.u8() {
        0 => Op::NewModule(r.u32(), if r.u8() == 1 { Some(r.s()) } else { None }),
        1 => Op::AddEntity(r.u32(), r.s(), fields(r)),
        2 => Op::AddRelation(r.u32(), path(r), path(r)),
        3 => Op::Parse(r.u32(), r.s()),
        4 => Op::IntoMir(r.u32(), r.u32()),
        5 => Op::NewEngine(r.u32()),
        6 => Op::PlaceNodes(r.u32(), r.u32()),
        7 => Op::PlacePorts(r.u32(), r.u32()),
        8 => Op::DrawEdges(r.u32(), r.u32()),
        9 => Op::Render(r.u32(), r.u8() == 1, r.u32(), script(r)),
        10 => Op::Inspect(r.u32()),
        11 => Op::MirAddTable(r.u32(), r.s(), fields(r)),
        12 => Op::MirAddField(r.u32(), r.u32(), field_spec(r)),
        13 => Op::MirAddRelation(r.u32(), r.u32(), r.u32(), r.u32(), r.u32()),
        14 => Op::Display(r.u32(), r.u8() == 1),
        15 => Op::Detached(r.u32()),
        16 => Op::RenderShared(r.u32(), r.u8() == 1, script(r)),
        17 => Op::InspectShared(r.u32()),
        18 => Op::ModuleText(r.u32()),
        19 => Op::DisplayShared(r.u32(), r.u8() == 1),
        20 => Op::EngineDropped(r.u32()),
        21 => Op::NewDocument(r.u32()),
        22 => Op::DisplayAgain(r.u32()),
        23 => Op::RelationOutside(r.u32(), r.u32(), r.u32()),
        24 => Op::Reserve(r.u32()),
        25 => Op::Change(r.u32(), r.u32(), r.u32(), field_spec(r)),
        26 => Op::Bare(r.u32()),
        27 => Op::Often(r.u32(), r.u32(), r.u32(), r.u32()),
        x => panic!("unknown op {}", x),
    }
}

// ------------------------------------------------------------------ sink
/// Every kind of error there is, except the one that means "again".
const KINDS: &[io::ErrorKind] = {
    use io::ErrorKind::*;
    &[
        NotFound, PermissionDenied, ConnectionRefused, ConnectionReset, HostUnreachable, NetworkUnreachable, ConnectionAborted, NotConnected, AddrInUse, AddrNotAvailable, NetworkDown,
        BrokenPipe, AlreadyExists, WouldBlock, NotADirectory, IsADirectory, DirectoryNotEmpty, ReadOnlyFilesystem, StaleNetworkFileHandle, InvalidInput, InvalidData, TimedOut, WriteZero,
        StorageFull, NotSeekable, QuotaExceeded, FileTooLarge, ResourceBusy, ExecutableFileBusy, Deadlock, TooManyLinks, ArgumentListTooLong, Unsupported, UnexpectedEof, OutOfMemory, Other,
    ]
};
fn kind_of(k: u32) -> io::Error {
    match k {
        100.. => io::Error::new(KINDS[k as usize % KINDS.len()], "the sink has failed"),
        10.. => io::Error::from(KINDS[k as usize % KINDS.len()]),
        0 => io::Error::from_raw_os_error(28),  // ENOSPC
        1 => io::Error::from_raw_os_error(5),   // EIO
        2 => io::Error::from_raw_os_error(32),  // EPIPE
        3 => io::Error::from_raw_os_error(11),  // EAGAIN
        4 => io::Error::from(io::ErrorKind::TimedOut),
        5 => io::Error::from(io::ErrorKind::ConnectionReset),
        6 => io::Error::new(io::ErrorKind::Other, "sink failed"),
        7 => io::Error::from(io::ErrorKind::UnexpectedEof),
        8 => io::Error::from(io::ErrorKind::InvalidData),
        _ => io::Error::from(io::ErrorKind::OutOfMemory),
    }
}

/// The caller's sink, as scripted. Every byte it accepts, commits, and every call is observed.
struct Sink<'a> {
    s: Script,
    /// what is being rendered, where, and what for
    doc: &'a Doc,
    view: bool,
    th: u8,
    op: u32,
    inner: u32,
    wi: usize,
    fi: usize,
    accepted: Vec<u8>,
    committed: usize,
    writes: u32,
    flushes: u32,
    faults: Vec<u8>,
    /// the kinds of the errors that it returned
    given: Vec<io::ErrorKind>,
}
impl<'a> Sink<'a> {
    fn new(s: Script, doc: &'a Doc, view: bool, th: u8, op: u32) -> Self {
        Self { s, doc, view, th, op, inner: 0, wi: 0, fi: 0, accepted: vec![], committed: 0, writes: 0, flushes: 0, faults: vec![], given: vec![] }
    }
    fn fail(&mut self, k: u32) -> io::Error {
        let e = kind_of(k);
        self.given.push(e.kind());
        e
    }
    /// The sink itself uses the library while it is being written to.
    fn inside(&mut self, compile: bool) {
        let mut b = vec![];
        let r = catch_unwind(AssertUnwindSafe(|| {
            if compile {
                let mut d = Doc::of(parse(INNER).0.unwrap().into_mir());
                let mut e = SimpleLayoutEngine::new();
                d.view_box = e.place_nodes(&mut d.doc);
                e.place_terminal_ports(&mut d.doc);
                e.draw_edge_path(&mut d.doc);
                let mut x = SVGRenderer::new();
                x.view_box = d.view_box;
                x.render(&d.doc, &mut b).is_ok()
            } else {
                let mut x = SVGRenderer::new();
                if self.view {
                    x.view_box = self.doc.view_box;
                }
                x.render(&self.doc.doc, &mut b).is_ok()
            }
        }));
        let how = match r {
            Ok(true) => "ok",
            Ok(false) => "error",
            Err(_) => "panic",
        };
        self.inner += 1;
        if self.inner < 500 {
            let i = self.op | self.inner << 22;
            report(self.th, i, TAG_RESULT, format!("{} {}", if compile { "compile" } else { "render" }, how).as_bytes());
            let mut body = vec![0; 16];
            body.extend_from_slice(&b);
            report(self.th, i, TAG_SINK, &body);
        }
    }
}
/// What sinks compile.
const INNER: &str = "erd { inner { id int PK\n other uuid FK }\n other { id uuid PK }\n inner.other o--o other.id }";
impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        unsafe { sim_yield() }
        self.writes += 1;
        let a = self.s.writes.get(self.wi).copied().unwrap_or(Act { kind: 0, arg: 0 });
        self.wi += 1;
        let mut n = buf.len();
        match a.kind {
            1 => {
                let k = (a.arg as usize).max(1);
                if k < n {
                    n = k;
                    self.faults.push(1);
                }
            }
            2 => {
                self.faults.push(2);
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            3 => {
                self.faults.push(3);
                return Err(self.fail(a.arg));
            }
            4 => {
                if n > 0 {
                    self.faults.push(4);
                }
                n = 0
            }
            5 => {
                self.faults.push(5);
                panic!("sink panics in write");
            }
            6 | 7 => self.inside(a.kind == 7),
            _ => {}
        }
        let at = self.accepted.len() as u64;
        if n > 0 && at >= self.s.limit {
            self.faults.push(6);
            return Err(self.fail(self.s.limit_kind));
        }
        if at + n as u64 > self.s.limit {
            n = (self.s.limit - at) as usize;
            self.faults.push(7);
        }
        self.accepted.extend_from_slice(&buf[..n]);
        if !self.s.buffered {
            self.committed = self.accepted.len();
        }
        unsafe { sim_yield() }
        Ok(n)
    }
    /// Like a file or a socket: takes from all of the pieces at once.
    fn write_vectored(&mut self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.iter().copied()).collect();
        self.write(&all)
    }
    fn flush(&mut self) -> io::Result<()> {
        unsafe { sim_yield() }
        self.flushes += 1;
        let a = self.s.flushes.get(self.fi).copied().unwrap_or(Act { kind: 0, arg: 0 });
        self.fi += 1;
        match a.kind {
            2 => {
                self.faults.push(12);
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
            3 => {
                self.faults.push(13);
                return Err(self.fail(a.arg));
            }
            5 => {
                self.faults.push(15);
                panic!("sink panics in flush");
            }
            _ => {}
        }
        self.committed = self.accepted.len();
        Ok(())
    }
}

// ------------------------------------------------------------------ state
struct Doc {
    doc: Document,
    view_box: Option<Rect>,
    /// nodes that were created and will be put somewhere later
    reserved: Vec<NodeId>,
}
impl Doc {
    fn of(doc: Document) -> Self {
        Self { doc, view_box: None, reserved: vec![] }
    }
}
#[derive(Default)]
struct World {
    modules: HashMap<u32, Module>,
    docs: HashMap<u32, Doc>,
    engines: HashMap<u32, SimpleLayoutEngine>,
    renderer: Option<SVGRenderer<'static>>,
    outputs: HashMap<u32, Box<dyn CustomDisplay>>,
}

fn ftype(t: u8) -> EntityFieldType {
    match t & 3 {
        0 => EntityFieldType::Int,
        1 => EntityFieldType::Uuid,
        2 => EntityFieldType::Text,
        _ => EntityFieldType::Timestamp,
    }
}
fn fkey(k: u8) -> Option<EntityFieldKey> {
    match k {
        1 => Some(EntityFieldKey::PrimaryKey),
        2 => Some(EntityFieldKey::ForeginKey),
        _ => None,
    }
}
fn epath(p: &PathSpec) -> EntityPath {
    match &p.field {
        Some(f) => EntityPath::Field(p.table.clone(), f.clone()),
        None => EntityPath::Entity(p.table.clone()),
    }
}
fn type_name(t: u8) -> &'static str {
    ["int", "uuid", "text", "timestamp"][(t & 3) as usize]
}
fn span(text: &str) -> mir::TextSpan {
    mir::TextSpanBuilder::default().text(text.to_string()).build().unwrap()
}
fn field_shape(f: &FieldSpec) -> mir::FieldShape {
    mir::FieldShapeBuilder::default()
        .title(span(&f.name))
        .subtitle(Some(span(type_name(f.ty))))
        .badge(fkey(f.key).map(|k| k.into_mir()))
        .build()
        .unwrap()
}

/// The t-th table.
fn table(doc: &Document, t: u32) -> Option<NodeId> {
    tables(doc).nth(t as usize)
}
fn tables(doc: &Document) -> impl Iterator<Item = NodeId> + '_ {
    doc.body().children().filter(|c| matches!(doc.get_node(*c).map(|n| n.kind()), Some(mir::ShapeKind::Record(_))))
}
/// Other content in the place of a row. (A node's content can't be written to.)
fn change(node: &mut mir::NodeData, id: NodeId, head: bool, spec: &FieldSpec) {
    let mut shape = field_shape(spec);
    if head {
        if let mir::ShapeKind::Field(f) = node.kind() {
            shape = f.clone();
            shape.title.text = spec.name.clone();
        }
    }
    let mut new = mir::NodeData::new(mir::ShapeKind::Field(shape));
    new.origin = node.origin;
    new.size = node.size;
    for p in node.terminal_ports() {
        new.add_terminal_port(id, *p.location(), p.orientation());
    }
    *node = new;
}

fn rect_text(out: &mut String, r: Option<Rect>) {
    match r {
        Some(r) => out.push_str(&format!(
            "{} {} {} {}",
            r.origin.x, r.origin.y, r.size.width, r.size.height
        )),
        None => out.push_str("none"),
    }
}
fn ori(o: Orientation) -> char {
    match o {
        Orientation::Up => 'u',
        Orientation::Down => 'd',
        Orientation::Left => 'l',
        Orientation::Right => 'r',
    }
}
fn node_text(out: &mut String, n: &mir::NodeData) {
    rect_text(out, n.rect());
    out.push_str(" |");
    for p in n.terminal_ports() {
        out.push_str(&format!(
            " {},{},{}",
            p.location().x,
            p.location().y,
            ori(p.orientation())
        ));
    }
}
/// A line per node and edge: everything a layout decides, and the texts.
fn inspect(d: &Doc) -> String {
    let mut out = String::new();
    let mut place: HashMap<NodeId, String> = HashMap::new();
    out.push_str("view ");
    rect_text(&mut out, d.view_box);
    out.push('\n');
    for (ti, id) in tables(&d.doc).enumerate() {
        let n = match d.doc.get_node(id) {
            Some(n) => n,
            None => continue,
        };
        place.insert(id, format!("{}", ti));
        out.push_str(&format!("table {} ", ti));
        node_text(&mut out, n);
        out.push('\n');
        for (fi, fid) in n.children().enumerate() {
            let f = match d.doc.get_node(fid) {
                Some(f) => f,
                None => continue,
            };
            place.insert(fid, format!("{}.{}", ti, fi));
            out.push_str(&format!("field {} {} ", ti, fi));
            node_text(&mut out, f);
            if let ShapeKind::Field(s) = f.kind() {
                out.push_str(&format!(
                    " | {:?} {:?} {:?}",
                    s.title.text,
                    s.subtitle.as_ref().map(|x| x.text.as_str()),
                    s.badge.as_ref().map(|x| x.text.as_str())
                ));
            }
            out.push('\n');
        }
    }
    let unknown = "?".to_string();
    for e in d.doc.edges() {
        out.push_str(&format!(
            "edge {} {}",
            place.get(&e.source_id()).unwrap_or(&unknown),
            place.get(&e.target_id()).unwrap_or(&unknown)
        ));
        match e.path_points() {
            None => out.push_str(" none"),
            Some(ps) => {
                for p in ps {
                    out.push_str(&format!(" {},{}", p.x, p.y));
                }
            }
        }
        out.push('\n');
    }
    out
}

fn render(d: &Doc, view: bool, debug: Option<&SimpleLayoutEngine>, renderer: &mut Option<SVGRenderer<'static>>, s: &Script, th: u8, i: u32) -> String {
    let mut sink = Sink::new(s.clone(), d, view, th, i);
    let r = catch_unwind(AssertUnwindSafe(|| {
        if s.kept && debug.is_none() {
            let backend = renderer.get_or_insert_with(SVGRenderer::new);
            backend.view_box = if view { d.view_box } else { None };
            return backend.render(&d.doc, &mut sink);
        }
        let mut backend = SVGRenderer::new();
        if view {
            backend.view_box = d.view_box;
        }
        if let Some(e) = debug {
            backend.edge_route_graph = Some(e.edge_route_graph());
        }
        backend.render(&d.doc, &mut sink)
    }));
    let what = match &r {
        Ok(Ok(())) => "ok".to_string(),
        Ok(Err(BackendError::InvalidLayout(_))) => "invalid-layout".to_string(),
        #[allow(unreachable_patterns)]
        Ok(Err(e)) => match std::error::Error::source(e).and_then(|e| e.downcast_ref::<io::Error>()) {
            Some(e) if !sink.given.is_empty() && !sink.faults.contains(&4) && e.kind() != io::ErrorKind::Interrupted && !sink.given.contains(&e.kind()) => format!("another error: {:?} instead of {:?}", e.kind(), sink.given),
            _ => "error".to_string(),
        },
        Err(_) => "panic".to_string(),
    };
    let mut body = vec![];
    body.extend_from_slice(&(sink.committed as u32).to_le_bytes());
    body.extend_from_slice(&sink.writes.to_le_bytes());
    body.extend_from_slice(&sink.flushes.to_le_bytes());
    body.extend_from_slice(&(sink.faults.len() as u32).to_le_bytes());
    body.extend_from_slice(&sink.faults);
    body.extend_from_slice(&sink.accepted);
    report(th, i, TAG_SINK, &body);
    what
}

fn show(outputs: &mut HashMap<u32, Box<dyn CustomDisplay>>, d: u32, doc: &Doc, view: bool) {
    let o = draw_erd(&doc.doc, if view { doc.view_box } else { None });
    outputs.insert(d, Box::new(o));
    outputs[&d].evcxr_display();
}

fn engine_and_doc<'a>(
    w: &'a mut World,
    e: u32,
    d: u32,
) -> Option<(&'a mut SimpleLayoutEngine, &'a mut Doc)> {
    match (w.engines.get_mut(&e), w.docs.get_mut(&d)) {
        (Some(e), Some(d)) => Some((e, d)),
        _ => None,
    }
}

fn exec(w: &mut World, shared: &HashMap<u32, Doc>, o: &Op, th: u8, i: u32) -> String {
    const ABSENT: &str = "absent";
    match o {
        Op::NewModule(m, name) => {
            w.modules.insert(*m, Module::new(name.clone()));
            "ok".into()
        }
        Op::AddEntity(m, name, fs) => match w.modules.get_mut(m) {
            None => ABSENT.into(),
            Some(module) => {
                let mut d = EntityDefinition::new(name.clone());
                for f in fs {
                    d.add_field(EntityField::new(f.name.clone(), ftype(f.ty), fkey(f.key)));
                }
                module.add_entity_definition(d);
                "ok".into()
            }
        },
        Op::AddRelation(m, a, b) => match w.modules.get_mut(m) {
            None => ABSENT.into(),
            Some(module) => {
                module.add_entity_relation(EntityRelation::new(epath(a), epath(b)));
                "ok".into()
            }
        },
        Op::Parse(m, text) => {
            let (ast, e1, e2) = parse(text);
            let mut out = String::new();
            out.push_str(&format!("ast {} lex {} syn {}", ast.is_some(), e1.len(), e2.len()));
            for e in &e1 {
                let mut x: Vec<String> = e.expected().map(|c| format!("{:?}", c)).collect();
                x.sort();
                out.push_str(&format!("\nlex {:?} {:?} {}", e.span(), e.found(), x.join(",")));
            }
            for e in &e2 {
                let mut x: Vec<String> = e.expected().map(|c| format!("{:?}", c)).collect();
                x.sort();
                out.push_str(&format!("\nsyn {:?} {:?} {}", e.span(), e.found(), x.join(",")));
            }
            match ast {
                Some(a) => {
                    w.modules.insert(*m, a);
                }
                None => {
                    w.modules.remove(m);
                }
            }
            out
        }
        Op::IntoMir(m, d) => match w.modules.get(m) {
            None => ABSENT.into(),
            Some(module) => {
                let doc = module.into_mir();
                w.docs.insert(*d, Doc::of(doc));
                "ok".into()
            }
        },
        Op::NewEngine(e) => {
            w.engines.insert(*e, SimpleLayoutEngine::new());
            "ok".into()
        }
        Op::EngineDropped(e) => {
            w.engines.remove(e);
            "ok".into()
        }
        Op::PlaceNodes(e, d) => match engine_and_doc(w, *e, *d) {
            None => ABSENT.into(),
            Some((e, d)) => {
                d.view_box = e.place_nodes(&mut d.doc);
                let mut s = String::from("ok ");
                rect_text(&mut s, d.view_box);
                s
            }
        },
        Op::PlacePorts(e, d) => match engine_and_doc(w, *e, *d) {
            None => ABSENT.into(),
            Some((e, d)) => {
                e.place_terminal_ports(&mut d.doc);
                "ok".into()
            }
        },
        Op::DrawEdges(e, d) => match engine_and_doc(w, *e, *d) {
            None => ABSENT.into(),
            Some((e, d)) => {
                e.draw_edge_path(&mut d.doc);
                "ok".into()
            }
        },
        Op::Render(d, view, dbg, s) => match w.docs.get(d) {
            None => ABSENT.into(),
            Some(doc) => render(doc, *view, w.engines.get(dbg), &mut w.renderer, s, th, i),
        },
        Op::RenderShared(d, view, s) => match shared.get(d) {
            None => ABSENT.into(),
            Some(doc) => render(doc, *view, None, &mut w.renderer, s, th, i),
        },
        Op::Inspect(d) => match w.docs.get(d) {
            None => ABSENT.into(),
            Some(doc) => inspect(doc),
        },
        Op::InspectShared(d) => match shared.get(d) {
            None => ABSENT.into(),
            Some(doc) => inspect(doc),
        },
        Op::NewDocument(d) => {
            w.docs.insert(*d, Doc::of(Document::new()));
            "ok".into()
        }
        Op::MirAddTable(d, title, fs) => match w.docs.get_mut(d) {
            None => ABSENT.into(),
            Some(d) => {
                let head = mir::FieldShapeBuilder::default().title(span(title)).build().unwrap();
                let mut ids = vec![d.doc.create_field(head)];
                for f in fs {
                    ids.push(d.doc.create_field(field_shape(f)));
                }
                let rid = d.reserved.pop().unwrap_or_else(|| d.doc.create_record(mir::RecordShape::default()));
                let node = d.doc.get_node_mut(rid).unwrap();
                for id in ids {
                    node.append_child(id);
                }
                d.doc.body_mut().append_child(rid);
                "ok".into()
            }
        },
        Op::MirAddField(d, t, f) => match w.docs.get_mut(d) {
            None => ABSENT.into(),
            Some(d) => {
                let rid = match table(&d.doc, *t) {
                    None => return ABSENT.into(),
                    Some(r) => r,
                };
                let id = d.doc.create_field(field_shape(f));
                d.doc.get_node_mut(rid).unwrap().append_child(id);
                "ok".into()
            }
        },
        Op::MirAddRelation(d, t1, f1, t2, f2) => match w.docs.get_mut(d) {
            None => ABSENT.into(),
            Some(d) => {
                // field 0: the table itself, k: its k-th row (1 is the header)
                let find = |t: u32, f: u32| -> Option<NodeId> {
                    let rid = table(&d.doc, t)?;
                    if f == 0 {
                        return Some(rid);
                    }
                    d.doc.get_node(rid)?.children().nth(f as usize - 1)
                };
                match (find(*t1, *f1), find(*t2, *f2)) {
                    (Some(a), Some(b)) => {
                        d.doc.add_edge(mir::EdgeData::new(a, b, None));
                        "ok".into()
                    }
                    _ => ABSENT.into(),
                }
            }
        },
        Op::Display(d, view) => match w.docs.get(d) {
            None => ABSENT.into(),
            Some(doc) => {
                show(&mut w.outputs, *d, doc, *view);
                "ok".into()
            }
        },
        Op::DisplayAgain(d) => match w.outputs.get(d) {
            None => ABSENT.into(),
            Some(o) => {
                o.evcxr_display();
                "ok".into()
            }
        },
        Op::DisplayShared(d, view) => match shared.get(d) {
            None => ABSENT.into(),
            Some(doc) => {
                show(&mut w.outputs, *d, doc, *view);
                "ok".into()
            }
        },
        Op::RelationOutside(d, t, f) => match w.docs.get_mut(d) {
            None => ABSENT.into(),
            Some(d) => {
                let from = table(&d.doc, *t).and_then(|t| d.doc.get_node(t)?.children().nth(*f as usize));
                match from {
                    None => ABSENT.into(),
                    Some(from) => {
                        let to = d.doc.create_field(mir::FieldShape::default());
                        d.doc.add_edge(mir::EdgeData::new(from, to, None));
                        "ok".into()
                    }
                }
            }
        },
        Op::Change(d, t, f, spec) => match w.docs.get_mut(d) {
            None => ABSENT.into(),
            Some(d) => {
                let row = table(&d.doc, *t).and_then(|t| d.doc.get_node(t)?.children().nth(*f as usize));
                match row {
                    None => ABSENT.into(),
                    Some(row) => {
                        change(d.doc.get_node_mut(row).unwrap(), row, *f == 0, spec);
                        "ok".into()
                    }
                }
            }
        },
        Op::Bare(d) => match w.docs.get_mut(d) {
            None => ABSENT.into(),
            Some(d) => {
                let id = d.doc.create_field(field_shape(&FieldSpec { name: "bare".into(), ty: 0, key: 0 }));
                d.doc.body_mut().append_child(id);
                "ok".into()
            }
        },
        Op::Often(0, e, d, n) => match engine_and_doc(w, *e, *d) {
            None => ABSENT.into(),
            Some((e, d)) => {
                for _ in 0..*n {
                    unsafe { sim_progress() };
                    d.view_box = e.place_nodes(&mut d.doc);
                    e.place_terminal_ports(&mut d.doc);
                    e.draw_edge_path(&mut d.doc);
                }
                "ok".into()
            }
        },
        Op::Often(1, _, d, n) => match w.docs.get(d) {
            None => ABSENT.into(),
            Some(d) => {
                let one = || {
                    unsafe { sim_progress() };
                    let mut b = vec![];
                    let mut x = SVGRenderer::new();
                    x.view_box = d.view_box;
                    let r = x.render(&d.doc, &mut b);
                    (r.is_ok(), b)
                };
                let first = one();
                match (1..*n).find(|_| one() != first) {
                    None => "ok".into(),
                    Some(k) => format!("rendering {} differs from the first one", k),
                }
            }
        },
        Op::Often(_, e, _, n) => match w.engines.get_mut(e) {
            None => ABSENT.into(),
            Some(e) => {
                for _ in 0..*n {
                    unsafe { sim_progress() };
                    let mut d = parse(INNER).0.unwrap().into_mir();
                    e.place_nodes(&mut d);
                    e.place_terminal_ports(&mut d);
                    e.draw_edge_path(&mut d);
                }
                "ok".into()
            }
        },
        Op::Reserve(d) => match w.docs.get_mut(d) {
            None => ABSENT.into(),
            Some(d) => {
                let r = d.doc.create_record(mir::RecordShape::default());
                d.reserved.push(r);
                "ok".into()
            }
        },
        Op::Detached(d) => match w.docs.get_mut(d) {
            None => ABSENT.into(),
            Some(d) => {
                d.doc.create_record(mir::RecordShape::default());
                d.doc.create_field(mir::FieldShape::default());
                "ok".into()
            }
        },
        Op::ModuleText(m) => match w.modules.get(m) {
            None => ABSENT.into(),
            Some(m) => m.to_string(),
        },
    }
}

fn run_ops(w: &mut World, shared: &HashMap<u32, Doc>, ops: &[Op], th: u8, base: u32) {
    for (k, o) in ops.iter().enumerate() {
        let i = base + k as u32;
        match catch_unwind(AssertUnwindSafe(|| exec(w, shared, o, th, i))) {
            Ok(s) => {
                if let Op::Display(..) | Op::DisplayShared(..) | Op::DisplayAgain(_) = o {
                    report(th, i, TAG_OUT, &unsafe { sim_out_len() }.to_le_bytes());
                }
                report(th, i, TAG_RESULT, s.as_bytes())
            }
            Err(_) => report(th, i, TAG_PANIC, b""),
        }
    }
}

/// Lets threads share documents even where the library's types don't say that they may be shared:
/// a change that makes them unshareable shows as a difference, not as a failing build.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

/// Threads that wait for something to do and do it while everybody else waits.
type Job = Share<*mut dyn FnMut()>;
struct Workers(HashMap<u8, (mpsc::SyncSender<Job>, mpsc::Receiver<()>, thread::JoinHandle<()>)>);
impl Workers {
    fn run(&mut self, on: u8, mut f: impl FnMut()) {
        let p: *mut (dyn FnMut() + '_) = &mut f;
        // the borrow ends before this call does
        let job: Job = Share(unsafe { std::mem::transmute::<*mut (dyn FnMut() + '_), *mut (dyn FnMut() + 'static)>(p) });
        let w = self.0.entry(on).or_insert_with(|| {
            let (tx, rx) = mpsc::sync_channel::<Job>(1);
            let (done, is_done) = mpsc::sync_channel(1);
            let h = thread::spawn(move || {
                while let Ok(job) = rx.recv() {
                    unsafe { (**job.get())() }
                    done.send(()).ok();
                }
            });
            (tx, is_done, h)
        });
        w.0.send(job).ok();
        w.1.recv().ok();
        if on >= ONCE {
            self.end(on);
        }
    }
    fn end(&mut self, on: u8) {
        if let Some((tx, _, h)) = self.0.remove(&on) {
            drop(tx);
            h.join().ok();
        }
    }
}
/// from that number on, a worker does one thing only
const ONCE: u8 = 100;
fn run_spread(w: &mut World, ops: &[Op], spread: &[u8]) {
    let none: HashMap<u32, Doc> = HashMap::new();
    let mut workers = Workers(HashMap::new());
    for i in 0..ops.len() {
        match spread.get(i).copied().unwrap_or(0) {
            0 => run_ops(w, &none, &ops[i..i + 1], 0, i as u32),
            t => {
                // documents and engines move to other threads, renderers and outputs stay
                let (renderer, outputs) = (w.renderer.take(), std::mem::take(&mut w.outputs));
                workers.run(t, || {
                    run_ops(w, &none, &ops[i..i + 1], 0, i as u32);
                    w.renderer = None;
                    w.outputs.clear();
                });
                w.renderer = renderer;
                w.outputs = outputs;
            }
        }
    }
    for t in 0..ONCE {
        workers.end(t);
    }
}

struct Prog {
    spread: Vec<u8>,
    pre: Vec<Op>,
    threads: Vec<Vec<Op>>,
    post: Vec<Op>,
    rounds: u32,
    /// what is made before the threads is made once, and stays
    keep: bool,
}
fn program(b: &[u8]) -> Prog {
    let mut r = Rd { b, p: 0 };
    let n_threads = r.u32() as usize;
    let rounds = r.u32();
    let keep = r.u8() == 1;
    let spread = (0..r.u32()).map(|_| r.u8()).collect();
    // section 0: before the threads, 1..=n: the threads, n + 1: afterwards
    let mut threads: Vec<Vec<Op>> = vec![];
    for _ in 0..n_threads + 2 {
        threads.push((0..r.u32()).map(|_| op(&mut r)).collect());
    }
    let post = threads.pop().unwrap();
    let pre = threads.remove(0);
    Prog { spread, pre, threads, post, rounds, keep }
}

fn one_round(w: &mut World, threads: Vec<Vec<Op>>, post: &[Op]) {
    let shared = Arc::new(Share(std::mem::take(&mut w.docs)));
    let handles: Vec<_> = threads
        .into_iter()
        .enumerate()
        .map(|(k, ops)| {
            let shared = Share(shared.clone());
            std::thread::Builder::new()
                .spawn(move || {
                    let shared = shared;
                    let mut w = World::default();
                    run_ops(&mut w, shared.get().get(), &ops, k as u8 + 1, 0);
                })
                .unwrap()
        })
        .collect();
    for (k, h) in handles.into_iter().enumerate() {
        if h.join().is_err() {
            report(k as u8 + 1, u32::MAX, TAG_PANIC, b"");
        }
    }
    if let Ok(s) = Arc::try_unwrap(shared) {
        w.docs = s.0;
    }
    run_ops(w, &HashMap::new(), post, 0, 1 << 20);
}

/// Whether the process is as it was, and that it has come to its end.
fn farewell(env: &[(std::ffi::OsString, std::ffi::OsString)]) {
    ROUND.store(0, Ordering::SeqCst);
    let n = HOOKED.load(Ordering::SeqCst);
    catch_unwind(|| panic!("to see who handles it")).ok();
    let hook = HOOKED.load(Ordering::SeqCst) == n + 1;
    let same = std::env::vars_os().eq(env.iter().cloned());
    let left = unsafe { sim_threads() };
    report(255, 0, TAG_RESULT, format!("hook {} env {} threads {} descriptors {} --end--", hook, same, left, unsafe { sim_descriptors() }).as_bytes());
}
static HOOKED: AtomicU64 = AtomicU64::new(0);

fn main() {
    let env: Vec<_> = std::env::vars_os().collect();
    std::panic::set_hook(Box::new(|_| {
        HOOKED.fetch_add(1, Ordering::SeqCst);
    }));
    let raw = unsafe {
        let mut n = 0u64;
        let p = sim_user(&mut n);
        std::slice::from_raw_parts(p, n as usize)
    };
    play(raw);
    farewell(&env);
}
fn play(raw: &[u8]) {
    let none: HashMap<u32, Doc> = HashMap::new();
    let mut w = World::default();
    let p = program(raw);
    let (rounds, keep) = (p.rounds, p.keep);
    if p.spread.is_empty() {
        run_ops(&mut w, &none, &p.pre, 0, 0);
    } else {
        run_spread(&mut w, &p.pre, &p.spread);
    }
    if rounds == 0 {
        return one_round(&mut w, p.threads, &p.post);
    }
    drop(p);
    for k in 0..rounds {
        if k > 0 {
            ROUND.store(k, Ordering::SeqCst);
            REPORTED.store(0, Ordering::SeqCst);
        }
        let mut b = raw.to_vec();
        replace(&mut b, MARK, &marked(k));
        let p = program(&b);
        drop(b);
        if k > 0 && !keep {
            w = World::default();
            run_ops(&mut w, &none, &p.pre, 0, 0);
        }
        one_round(&mut w, p.threads, &p.post);
        drop(p.pre);
        drop(p.post);
        if !keep {
            w = World::default();
        }
        let mut body = [0u8; 24];
        unsafe {
            body[..8].copy_from_slice(&sim_live().to_le_bytes());
            body[8..16].copy_from_slice(&sim_steps().to_le_bytes());
        }
        body[16..].copy_from_slice(&REPORTED.load(Ordering::SeqCst).to_le_bytes());
        report(0, k, TAG_ROUND, &body);
    }
}

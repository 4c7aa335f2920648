//! S01-S07: sessions, histories, sinks and threads inside one process.
use crate::cli::{gen_bases, gen_world, gen_damage, token_soup, transient_writes, WRITE_ERRNO};
use crate::ctx::Ctx;
use crate::lib_ops::{inside, reports, rounds, Act, INNER, LibRun, ModelWorld, Op, OpRep, Reports, Script, NO_ENGINE, POST};
use crate::model::{self, Diagram, Entry, Shape, Style};
use crate::props_cli::diff;
use crate::sched::{self, Sched};
use crate::rng::Rng;
use crate::sim::{End, Oc, Res, C_READS};
use crate::svgx::{self, Rc};
use crate::{Bad, Viol};
use std::collections::HashMap;

fn viol(class: &str, detail: String) -> Result<(), Bad> {
    Err(Bad::Viol(Viol { class: class.into(), detail }))
}

// ------------------------------------------------------------------ generation
fn small(r: &mut Rng) -> Shape {
    let mut s = Shape::random(r);
    if if s.full { r.chance(1, 3) } else { !r.chance(1, 6) } {
        s.full = false;
        s.max_tables = s.max_tables.min(7);
        s.max_rels = s.max_rels.min(8);
        s.max_cols = s.max_cols.min(12);
    }
    s
}
/// Operations that build document `d` (through module `m` where a module is used).
fn build(r: &mut Rng, sh: &Shape, m: u32, d: u32, known: bool) -> Vec<Op> {
    let p = model::gen_program(r, sh);
    match r.below(5) {
        0 | 1 => {
            let mut v = vec![Op::NewModule(m, p.name.clone())];
            for e in &p.entries {
                v.push(match e {
                    Entry::Table(t) => Op::AddEntity(m, t.name.clone(), t.cols.clone()),
                    Entry::Rel(a, b) => Op::AddRelation(m, a.clone(), b.clone()),
                });
            }
            v.push(Op::IntoMir(m, d));
            v
        }
        2 | 3 => {
            let st = Style::random(r);
            let t = model::print_program(r, &p, &st);
            let mut b = t.into_bytes();
            if !known && r.chance(1, 3) {
                if r.chance(1, 6) {
                    b = token_soup(r);
                } else {
                    for _ in 0..r.range(1, 2) {
                        gen_damage(r, &b).apply(&mut b);
                    }
                }
            }
            let t = String::from_utf8_lossy(&b).into_owned();
            vec![Op::Parse(m, t), Op::IntoMir(m, d)]
        }
        _ => {
            let mut v = vec![Op::NewDocument(d)];
            let dg = model::diagram_of(&p);
            if r.chance(1, 3) {
                v.extend(vec![Op::Reserve(d); r.range(1, dg.tables.len().max(1) + 1)]);
            }
            for t in &dg.tables {
                v.push(Op::MirAddTable(d, t.name.clone(), t.cols.clone()));
            }
            for rel in &dg.rels {
                let (a, b) = (rel.a[0], rel.b[0]);
                v.push(Op::MirAddRelation(d, a.table as u32, a.row.map_or(0, |x| x as u32 + 1), b.table as u32, b.row.map_or(0, |x| x as u32 + 1)));
            }
            v
        }
    }
}
/// For some: a document whose rendering is as long as somebody's block.
fn of_chosen_length(r: &mut Rng, c: &mut Ctx, frame: usize, d: u32) -> Result<Option<Vec<Op>>, String> {
    if !r.chance(1, 12) {
        return Ok(None);
    }
    Ok(crate::props_cli::aligned(r, c, frame, 50_000)?.map(|t| vec![Op::Parse(d, t), Op::IntoMir(d, d)]))
}
fn layout(e: u32, d: u32) -> Vec<Op> {
    vec![Op::PlaceNodes(e, d), Op::PlacePorts(e, d), Op::DrawEdges(e, d)]
}
/// The phases, now and then in disorder, or not all of them.
fn phases(r: &mut Rng, e: u32, d: u32) -> Vec<Op> {
    let l = layout(e, d);
    match r.below(6) {
        0 => (0..r.range(1, 4)).map(|_| l[r.below(3)].clone()).collect(),
        1 => l[r.range(1, 2)..].to_vec(),
        _ => l[..r.range(1, 2)].to_vec(),
    }
}
fn healthy(d: u32, view: bool) -> Op {
    Op::Render { doc: d, view, debug: NO_ENGINE, sink: Script::default() }
}
fn transient_script(r: &mut Rng) -> Script {
    if r.chance(1, 12) {
        // interrupted again and again
        let mut writes = vec![];
        let (n, streak, piece) = (r.range(1, 80), if r.chance(1, 2) { r.range(1, 3) } else { r.range(4, 300) }, r.range(1, 400));
        while writes.len() < 600 && writes.len() < n * (streak + 1) {
            writes.extend(vec![Act::Interrupted; streak]);
            writes.push(if r.chance(1, 8) { Act::Full } else { Act::Short(piece as u32) });
        }
        return Script { writes, flushes: if r.chance(1, 3) { vec![] } else { vec![Act::Full] }, limit: None, buffered: r.chance(1, 2), kept: r.chance(1, 2) };
    }
    let n = r.range(1, 25);
    let writes = (0..n)
        .map(|_| match r.below(4) {
            0 => Act::Interrupted,
            1 => Act::Full,
            _ => Act::Short(r.skewed(3000).max(1) as u32),
        })
        .collect();
    Script { writes, flushes: vec![], limit: None, buffered: r.chance(1, 2), kept: r.chance(1, 2) }
}
fn faulty_script(r: &mut Rng, len: usize) -> Script {
    let mut s = if r.chance(1, 2) { transient_script(r) } else { Script::default() };
    s.buffered = r.chance(1, 2);
    let e = if r.chance(1, 2) { r.below(10) } else { r.range(10, 200) } as u32;
    match r.below(10) {
        0..=3 => {
            if r.chance(1, 6) {
                s.flushes = vec![*r.pick(&[Act::Panic, Act::Err(e)]); 2];
            }
            s.limit = Some((if r.chance(1, 4) { len.saturating_sub(r.below(10)) } else { r.below(len + 1) } as u64, e))
        }
        4 | 5 => {
            let k = r.below(s.writes.len() + 2);
            while s.writes.len() <= k {
                s.writes.push(Act::Full);
            }
            s.writes[k] = match r.below(4) {
                0 => Act::Zero,
                1 => Act::Panic,
                _ => Act::Err(e),
            };
            // nor does flushing help
            if r.chance(1, 3) {
                s.flushes = vec![*r.pick(&[Act::Panic, Act::Err(e)]); 2];
            }
        }
        6 => s.flushes = vec![Act::Err(e)],
        7 => s.flushes = vec![if r.chance(1, 2) { Act::Interrupted } else { Act::Panic }],
        _ => {}
    }
    s
}
fn any_script(r: &mut Rng, len: usize) -> Script {
    let mut s = match r.below(4) {
        0 => Script::default(),
        1 => transient_script(r),
        _ => faulty_script(r, len),
    };
    s.kept = r.chance(1, 2);
    busy(r, &mut s);
    s
}
/// Now and then a sink that uses the library itself.
fn busy(r: &mut Rng, s: &mut Script) {
    if r.chance(1, 12) {
        let i = r.below(s.writes.len().min(4) + 1);
        s.writes.insert(i, if r.chance(1, 2) { Act::Render } else { Act::Compile });
    }
}
fn good_script(r: &mut Rng) -> Script {
    let mut s = if r.chance(1, 4) { transient_script(r) } else { Script { kept: r.chance(1, 2), ..Script::default() } };
    busy(r, &mut s);
    s
}

/// A change to document `d`, as the model knows it.
fn edit(r: &mut Rng, w: &ModelWorld, d: u32, wild: u32) -> Option<Op> {
    let dg = &w.docs.get(&d)?.d;
    let sh = Shape { max_tables: 1, max_cols: 4, max_rels: 1, wild, dup: 5, dangling: 0, table_ends: 20, alike: None, mark: false, full: false };
    Some(match r.below(4) {
        0 => Op::MirAddTable(d, model::gen_name(r, wild), model::gen_cols(r, &sh)),
        1 if !dg.tables.is_empty() => {
            let t = r.below(dg.tables.len()) as u32;
            Op::MirAddField(d, t, model::Col { name: model::gen_name(r, wild), ty: r.below(4) as u8, key: r.below(3) as u8 })
        }
        _ if !dg.tables.is_empty() => {
            let end = |r: &mut Rng| {
                let t = r.below(dg.tables.len());
                let n = dg.tables[t].cols.len();
                (t as u32, if n == 0 || r.chance(1, 5) { r.below(2) as u32 } else { 1 + r.range(1, n) as u32 })
            };
            let (a, x) = end(r);
            let (b, y) = end(r);
            Op::MirAddRelation(d, a, x, b, y)
        }
        _ => Op::MirAddTable(d, model::gen_name(r, wild), model::gen_cols(r, &sh)),
    })
}

/// A change of what is written in document `d`, as the model knows it.
fn change(r: &mut Rng, w: &ModelWorld, d: u32, wild: u32) -> Option<Op> {
    let dg = &w.docs.get(&d)?.d;
    if dg.tables.is_empty() {
        return None;
    }
    let t = r.below(dg.tables.len());
    let n = dg.tables[t].cols.len();
    let row = if r.chance(1, 3) { 0 } else { r.below(n + 1) };
    Some(Op::Change(d, t as u32, row as u32, model::Col { name: model::gen_name(r, wild), ty: r.below(4) as u8, key: r.below(3) as u8 }))
}

fn tiny(sh: Shape) -> Shape {
    Shape { max_tables: sh.max_tables.min(3), max_cols: sh.max_cols.min(3), max_rels: sh.max_rels.min(2), full: false, ..sh }
}
/// One kind of work many times, on engine 0.
fn series(r: &mut Rng, sh: &Shape, n_docs: u32) -> Vec<Op> {
    let d = r.below(n_docs as usize) as u32;
    let one: Vec<Op> = match r.below(7) {
        0 => layout(0, d),
        1 => vec![healthy(d, true)],
        2 => vec![Op::Render { doc: d, view: true, debug: NO_ENGINE, sink: any_script(r, 3000) }],
        3 => build(r, sh, d, d, false),
        _ => {
            let mut v = build(r, sh, d, d, false);
            v.extend(layout(0, d));
            if r.chance(1, 2) {
                v.push(healthy(d, true));
            }
            v
        }
    };
    let n = if r.chance(1, 2) { crate::dict::size(r, 5, 300) } else { *r.pick(&[12, 20, 33, 40, 66, 101, 130, 258]) };
    let n = n.min(2500 / one.len());
    let mut v = vec![];
    for _ in 0..n {
        v.extend(one.iter().cloned());
    }
    v
}

/// So often that small counters come round.
fn round(r: &mut Rng, rare: bool) -> u32 {
    match r.below(if rare { 80 } else { 10 }) {
        0..=5 => *r.pick(&[126, 127, 253, 254, 255, 255, 255, 256, 257, 509, 511]),
        6..=8 => r.range(2, 600) as u32,
        9 => *r.pick(&[1023, 1024, 2047, 4095]),
        10 => *r.pick(&[65535, 65534, 65536]),
        _ => *r.pick(&[255, 255, 254, 256]),
    }
}
/// A layout, another kind of work many times, and the same layout again.
fn again_later(r: &mut Rng, e: u32, d: u32) -> Vec<Op> {
    let mut v = vec![];
    let other = if r.chance(1, 3) { d } else { 90 };
    let mut heavy = false;
    if other == 90 {
        let k = r.below(4);
        heavy = k > 1;
        let t = ["erd { a { b int } }", "erd { }", INNER, "erd { c { } d { x text } c o--o d.x }"][k];
        v.extend([Op::Parse(90, t.into()), Op::IntoMir(90, 90)]);
        v.extend(layout(e, 90));
    }
    if r.chance(2, 3) {
        v.extend(layout(e, d));
    }
    let rare = r.chance(1, 2);
    let mut n = round(r, rare);
    if other == d || heavy {
        n = n.min(520);
    }
    v.push(match r.below(5) {
        0..=2 => Op::Often(0, e, other, n),
        3 => Op::Often(1, e, d, n.min(300)),
        _ => Op::Often(2, e, 0, n.min(300)),
    });
    v.extend(layout(e, d));
    v.push(Op::Inspect(d));
    v.push(healthy(d, true));
    v
}

/// A history of building, editing, laying out, abandoning and rendering.
fn history(r: &mut Rng, known: bool, wild: bool, steps: usize) -> Vec<Op> {
    let mut ops: Vec<Op> = vec![];
    let mut w = ModelWorld::default();
    let mut sh = small(r);
    if !wild {
        sh.wild = sh.wild.min(10);
    }
    let mut n_docs = r.range(1, 3) as u32;
    let n_eng = r.range(1, 2) as u32;
    let mut steps = steps;
    if r.chance(1, 40) {
        sh = Shape::tall(r);
        n_docs = 1;
        steps = steps.min(2);
    }
    let long = r.chance(1, 50);
    if long {
        sh = tiny(sh);
    }
    let mut modules: Vec<(u32, u32)> = vec![];
    fn push(ops: &mut Vec<Op>, w: &mut ModelWorld, v: Vec<Op>) {
        for o in v {
            w.exec(&o);
            ops.push(o);
        }
    }
    for e in 0..n_eng {
        push(&mut ops, &mut w, vec![Op::NewEngine(e)]);
    }
    for d in 0..n_docs {
        let b = build(r, &sh, d, d, known);
        if !matches!(b[0], Op::NewDocument(_)) {
            modules.push((d, d));
        }
        push(&mut ops, &mut w, b);
    }
    if long {
        let b = series(r, &sh, n_docs);
        modules.clear();
        push(&mut ops, &mut w, b);
    }
    for _ in 0..steps {
        let d = r.below(n_docs as usize) as u32;
        let e = r.below(n_eng as usize) as u32;
        let v: Vec<Op> = match r.below(20) {
            0..=4 => {
                let mut v = layout(e, d);
                v.push(Op::Inspect(d));
                v.push(healthy(d, true));
                v
            }
            5 | 6 => phases(r, e, d),
            7..=10 => {
                let mut v: Vec<Op> = edit(r, &w, d, sh.wild).into_iter().collect();
                if r.chance(1, 4) {
                    v.extend(change(r, &w, d, sh.wild));
                    if r.chance(1, 2) {
                        v.push(healthy(d, true));
                    }
                }
                v
            }
            11 => {
                let b = build(r, &sh, d, d, known);
                modules.retain(|m| m.1 != d);
                if !matches!(b[0], Op::NewDocument(_)) {
                    modules.push((d, d));
                }
                b
            }
            12 => {
                // the module grows and is compiled anew
                match modules.iter().find(|m| m.1 == d) {
                    Some((m, _)) => vec![
                        Op::AddEntity(*m, model::gen_name(r, sh.wild), model::gen_cols(r, &sh)),
                        Op::IntoMir(*m, d),
                    ],
                    None => vec![],
                }
            }
            13 => vec![if r.chance(1, 2) { Op::EngineDropped(e) } else { Op::NewEngine(e) }, Op::NewEngine(e)],
            14..=16 => vec![Op::Render { doc: d, view: r.chance(1, 2), debug: if r.chance(1, 6) { e } else { NO_ENGINE }, sink: any_script(r, 4000) }],
            17 => vec![Op::Inspect(d)],
            18 => {
                let d2 = r.below(n_docs as usize) as u32;
                if d2 == d {
                    layout(e, d)
                } else {
                    // the phases of two documents alternate
                    let (mut a, mut b) = (layout(e, d), layout(if r.chance(3, 4) { e } else { r.below(n_eng as usize) as u32 }, d2));
                    let mut v = vec![];
                    while !a.is_empty() || !b.is_empty() {
                        let x = if b.is_empty() || !a.is_empty() && r.chance(1, 2) { &mut a } else { &mut b };
                        v.push(x.remove(0));
                    }
                    for x in [d, d2] {
                        v.push(Op::Inspect(x));
                        v.push(healthy(x, true));
                    }
                    v
                }
            }
            _ => vec![match r.below(5) {
                0 | 1 => Op::Detached(d),
                2 | 3 => Op::Reserve(d),
                _ => Op::Bare(d),
            }],
        };
        push(&mut ops, &mut w, v);
    }
    if !long && sh.max_tables < 30 && sh.max_cols < 30 && r.chance(1, 30) {
        let (e, d) = (r.below(n_eng as usize) as u32, r.below(n_docs as usize) as u32);
        let v = again_later(r, e, d);
        push(&mut ops, &mut w, v);
    }
    for d in 0..n_docs {
        let e = r.below(n_eng as usize) as u32;
        let mut v = layout(e, d);
        v.push(Op::Inspect(d));
        v.push(healthy(d, true));
        push(&mut ops, &mut w, v);
    }
    ops
}

/// Decides the interleaving: measures the run, then chooses where threads lose the processor.
fn schedule(r: &mut Rng, c: &mut Ctx, k: &mut LibRun) -> Result<(), String> {
    let mut x = Sched::default();
    sched::before(r, &mut x);
    k.picks = x.picks.clone();
    k.yields = x.yields.clone();
    let b = c.run_lib(k, "measuring")?;
    sched::choose(r, &b, &mut x);
    k.preempt = x.preempt;
    k.sites = x.sites;
    k.atoms = x.atoms;
    Ok(())
}

/// No more displays than standard output has room for.
fn within_room(k: &mut LibRun) {
    const ROOM: usize = 8 << 20;
    let mut w = ModelWorld::default();
    k.pre.iter().for_each(|o| w.exec(o));
    let size = |d: &u32| {
        w.docs.get(d).map_or(0, |m| {
            let names: usize = m.d.tables.iter().map(|t| t.name.len() + t.cols.iter().map(|c| c.name.len()).sum::<usize>()).sum();
            let rows: usize = m.d.tables.iter().map(|t| 1 + t.cols.len()).sum();
            2000 + 6 * names + 900 * rows + 1500 * m.d.rels.len()
        })
    };
    let mut used = 0;
    let mut fits = |o: &Op| match o {
        Op::Display(d, _) | Op::DisplayAgain(d) | Op::DisplayShared(d, _) => {
            let n = size(d);
            let ok = used == 0 || used + n < ROOM;
            used += if ok { n } else { 0 };
            ok
        }
        _ => true,
    };
    k.pre.retain(&mut fits);
    k.threads.iter_mut().for_each(|t| t.retain(&mut fits));
}
/// Now and then a relation that leads out of the diagram.
fn outside(r: &mut Rng, v: &mut Vec<Op>) {
    if !v.is_empty() && r.chance(1, 10) {
        let i = r.below(v.len());
        v.insert(i, Op::RelationOutside(r.below(2) as u32, r.below(3) as u32, r.below(3) as u32));
    }
}
fn session(r: &mut Rng, sh: Option<Shape>) -> Vec<Op> {
    let mut sh = sh.unwrap_or_else(|| small(r));
    let mut v = vec![Op::NewEngine(0)];
    if r.chance(1, 80) {
        sh = tiny(sh);
        v.extend(series(r, &sh, 1));
    }
    let sh = &sh;
    for i in 0..r.range(1, 2) as u32 {
        v.extend(build(r, sh, i, i, false));
        if r.chance(1, 4) {
            v.push(Op::ModuleText(i));
        }
        if r.chance(1, 8) {
            v.extend(phases(r, 0, i));
        } else {
            v.extend(layout(0, i));
        }
        if r.chance(1, 2) {
            v.push(Op::Inspect(i));
        }
        if r.chance(1, 3) {
            v.push(Op::Render { doc: i, view: true, debug: NO_ENGINE, sink: any_script(r, 6000) });
        }
        v.push(Op::Render { doc: i, view: r.chance(2, 3), debug: if r.chance(1, 5) { 0 } else { NO_ENGINE }, sink: good_script(r) });
    }
    if r.chance(1, 5) {
        let n = r.range(1, v.len());
        v.truncate(n); // the session is abandoned
    }
    v
}

/// A text with a good many names, of which some are used again and again.
fn many_names(r: &mut Rng, th: usize) -> Vec<Op> {
    let n = if r.chance(1, 2) { crate::dict::size(r, 7, 300) } else { *r.pick(&[12, 20, 36, 70, 140]) } + r.below(6);
    let every = r.range(1, 5);
    let mine = r.chance(3, 4);
    let mut t = format!("erd {{ \n t{} {{ ", th);
    for j in 0..n {
        if j > 0 {
            t.push_str("; ");
        }
        if r.chance(1, every as u32 + 1) {
            t.push_str(*r.pick(&["id", "uuid_", "name", "t0"]));
        } else if mine {
            t.push_str(&format!("n{}_{}", th, j));
        } else {
            t.push_str(&format!("n{}", j));
        }
        t.push_str(*r.pick(&[" int", " text FK", " uuid"]));
    }
    t.push_str(" }\n}");
    let mut v = vec![];
    for i in 0..r.range(1, 3) as u32 {
        v.push(Op::Parse(i, t.clone()));
        v.push(Op::ModuleText(i));
        v.push(Op::IntoMir(i, i));
        if r.chance(1, 2) {
            v.push(Op::NewEngine(0));
            v.extend(layout(0, i));
            v.push(healthy(i, true));
        }
    }
    v
}

pub fn gen(prop: &str, r: &mut Rng, c: &mut Ctx, thorough: bool) -> Result<LibRun, String> {
    let more = if thorough { 2 } else { 1 };
    let mut k = LibRun::default();
    if r.chance(1, 4) {
        k.bases = Some(gen_bases(r));
        k.entropy = r.next();
    }
    if !matches!(prop, "S09" | "S10") && r.chance(1, 8) {
        k.world = Some(gen_world(r));
    }
    match prop {
        "S01" => {
            let n = r.range(2, if thorough { 6 } else { 4 });
            let same = r.chance(1, 3);
            let s0 = session(r, None);
            let names = r.chance(1, 10);
            for i in 0..n {
                k.threads.push(match () {
                    _ if names => many_names(r, i),
                    _ if i == 0 || same => s0.clone(),
                    _ => session(r, None),
                });
            }
            schedule(r, c, &mut k)?;
        }
        "S02" => {
            let mut sh = small(r);
            sh.max_tables = sh.max_tables.max(1);
            let n_docs = r.range(1, 2) as u32;
            k.pre.push(Op::NewEngine(0));
            for d in 0..n_docs {
                k.pre.extend(build(r, &sh, d, d, false));
                let l = layout(0, d);
                let upto = if r.chance(1, 12) { r.below(3) } else { 3 };
                k.pre.extend(l[..upto].to_vec());
            }
            let n = if r.chance(1, 8) { 0 } else { r.range(1, 4) };
            for _ in 0..n {
                let mut t = vec![];
                for _ in 0..r.range(1, 4) {
                    let d = r.below(n_docs as usize) as u32;
                    t.push(match r.below(8) {
                        0 => Op::InspectShared(d),
                        1..=3 => Op::RenderShared { doc: d, view: r.chance(2, 3), sink: any_script(r, 5000) },
                        _ => Op::RenderShared { doc: d, view: r.chance(2, 3), sink: good_script(r) },
                    });
                }
                k.threads.push(t);
            }
            for d in 0..n_docs {
                if sh.max_tables < 30 && sh.max_cols < 30 && r.chance(1, 30) {
                    let n = round(r, false).min(300);
                    k.post.push(Op::Often(1, 0, d, n));
                }
                if n == 0 {
                    for _ in 0..r.range(1, 3) {
                        k.post.push(Op::Render { doc: d, view: r.chance(1, 2), debug: NO_ENGINE, sink: any_script(r, 5000) });
                    }
                }
                k.post.push(Op::Inspect(d));
                k.post.push(healthy(d, true));
                k.post.push(healthy(d, false));
            }
            if n > 1 {
                schedule(r, c, &mut k)?;
            }
        }
        "S03" => {
            let n = r.range(3, 10) * more;
 k.pre = history(r, false, true, n);
            outside(r, &mut k.pre);
        }
        "S04" => {
            let sh = small(r);
            k.pre.push(Op::NewEngine(0));
            let b = build(r, &sh, 0, 0, true);
            k.pre.extend(of_chosen_length(r, c, 0, 0)?.unwrap_or(b));
            let mut w = ModelWorld::default();
            k.pre.iter().for_each(|o| w.exec(o));
            let renders = |r: &mut Rng, v: &mut Vec<Op>, n: usize| {
                for _ in 0..n {
                    v.push(Op::Render { doc: 0, view: r.chance(3, 4), debug: if r.chance(1, 8) { 0 } else { NO_ENGINE }, sink: any_script(r, 8000) });
                }
            };
            if r.chance(1, 3) {
                renders(r, &mut k.pre, 1);
            }
            for o in layout(0, 0) {
                k.pre.push(o);
                if r.chance(1, 5) {
                    renders(r, &mut k.pre, 1);
                }
            }
            let n = r.range(1, 5) * more;
            renders(r, &mut k.pre, n);
            if r.chance(1, 3) {
                k.pre.iter().for_each(|o| w.exec(o));
                if let Some(o) = edit(r, &w, 0, sh.wild) {
                    k.pre.push(o);
                }
                renders(r, &mut k.pre, 1);
                for o in layout(0, 0) {
                    k.pre.push(o);
                    if r.chance(1, 3) {
                        renders(r, &mut k.pre, 1);
                    }
                }
                let n = r.range(1, 3);
                renders(r, &mut k.pre, n);
            }
            k.pre.push(healthy(0, true));
        }
        "S05" | "S06" => {
            let n = r.range(0, 8) * more;
            k.pre = history(r, true, prop == "S05", n);
            if prop == "S05" {
                if let Some(b) = of_chosen_length(r, c, 0, 0)? {
                    k.pre = vec![Op::NewEngine(0)];
                    k.pre.extend(b);
                    k.pre.extend(layout(0, 0));
                    k.pre.push(healthy(0, true));
                }
            }
        }
        "S07" => {
            let mut sh = small(r);
            sh.max_tables = sh.max_tables.max(1);
            let n_docs = r.range(1, 2) as u32;
            let mut large = false;
            k.pre.push(Op::NewEngine(0));
            for d in 0..n_docs {
                let b = build(r, &sh, d, d, true);
                let frame = "EVCXR_BEGIN_CONTENT image/svg+xml\n\nEVCXR_END_CONTENT\n".len();
                let frame = *r.pick(&[0, frame, frame - 1]);
                let chosen = of_chosen_length(r, c, frame, d)?;
                large |= chosen.is_some();
                k.pre.extend(chosen.unwrap_or(b));
                k.pre.extend(layout(0, d));
            }
            let n = if r.chance(1, 3) { r.range(2, 4) } else { 0 };
            if n > 0 {
                for _ in 0..n {
                    let mut t = vec![];
                    for _ in 0..r.range(1, 3) {
                        let d = r.below(n_docs as usize) as u32;
                        t.push(Op::DisplayShared(d, r.chance(2, 3)));
                        if r.chance(1, 4) {
                            t.push(Op::DisplayAgain(d));
                        }
                    }
                    k.threads.push(t);
                }
            } else {
                for _ in 0..r.range(1, 4) {
                    let d = r.below(n_docs as usize) as u32;
                    k.pre.push(Op::Display(d, r.chance(2, 3)));
                    for _ in 0..r.below(8).saturating_sub(5) {
                        k.pre.push(Op::DisplayAgain(d));
                    }
                    if !large && sh.max_tables * sh.max_cols < 15 && k.pre.len() < 40 && k.encode().len() < 1500 && r.chance(1, 60) {
                        // so often that small counters come round
                        let n = round(r, false).min(300);
                        k.pre.push(Op::Often(1, 0, d, n));
                        for _ in 0..n {
                            k.pre.push(if r.chance(2, 3) { Op::DisplayAgain(d) } else { Op::Display(d, true) });
                        }
                    }
                    if r.chance(1, 4) {
                        k.pre.push(Op::Render { doc: 0, view: true, debug: NO_ENGINE, sink: any_script(r, 5000) });
                    }
                }
            }
            within_room(&mut k);
            let single = n == 0 && k.pre.iter().filter(|o| matches!(o, Op::Display(..) | Op::DisplayAgain(_))).count() == 1;
            match r.below(4) {
                0 => {}
                1 | 2 if n > 1 && r.chance(1, 2) => {
                    // a slow reader: who writes has to wait while the others go on
                    let stall = |r: &mut Rng| Oc::Stall(1 + r.next() % 3_000_000_000);
                    k.out.sched = (0..r.range(1, 30)).map(|_| if r.chance(1, 3) { stall(r) } else { Oc::Full }).collect();
                }
                1 | 2 => k.out = transient_writes(r),
                _ => {
                    if r.chance(1, 2) {
                        k.out = transient_writes(r);
                    }
                    let e = *r.pick(&WRITE_ERRNO);
                    if single && r.chance(1, 3) {
                        let i = r.below(k.out.sched.len() + 3);
                        while k.out.sched.len() <= i {
                            k.out.sched.push(Oc::Full);
                        }
                        k.out.sched[i] = if r.chance(1, 3) { Oc::Zero } else { Oc::Err(e) };
                    } else {
                        k.out.limit = Some((r.skewed(40_000) as u64, e));
                    }
                }
            }
            if n > 1 {
                schedule(r, c, &mut k)?;
            }
        }
        "S08" => {
            let mut sh = small(r);
            sh.max_tables = sh.max_tables.min(9);
            sh.max_rels = sh.max_rels.min(9);
            sh.max_cols = sh.max_cols.min(20);
            sh.mark = r.chance(2, 3);
            k.rounds = *r.pick(&[12, 24, 24, 24, 48]);
            k.keep = r.chance(1, 2);
            let n = if r.chance(1, 3) { r.range(1, 3) } else { 0 };
            if k.keep {
                // an engine and documents that are used again and again
                let n_docs = r.range(1, 2) as u32;
                k.pre.push(Op::NewEngine(0));
                for d in 0..n_docs {
                    k.pre.extend(build(r, &sh, d, d, false));
                    k.pre.extend(layout(0, d));
                }
                for _ in 0..n {
                    let mut t = vec![];
                    for _ in 0..r.range(1, 3) {
                        let d = r.below(n_docs as usize) as u32;
                        t.push(match r.below(5) {
                            0 => Op::InspectShared(d),
                            1 => Op::DisplayShared(d, r.chance(2, 3)),
                            _ => Op::RenderShared { doc: d, view: r.chance(2, 3), sink: any_script(r, 5000) },
                        });
                    }
                    k.threads.push(t);
                }
                for _ in 0..r.range(1, 5) {
                    let d = r.below(n_docs as usize) as u32;
                    match r.below(9) {
                        0..=2 => k.post.extend(layout(0, d)),
                        3 => k.post.extend(phases(r, 0, d)),
                        4 => {
                            k.post.extend(build(r, &sh, d, d, false));
                            k.post.extend(layout(0, d));
                        }
                        5 => k.post.push(Op::Display(d, r.chance(2, 3))),
                        6 => k.post.push(Op::Inspect(d)),
                        _ => k.post.push(Op::Render { doc: d, view: r.chance(2, 3), debug: if r.chance(1, 6) { 0 } else { NO_ENGINE }, sink: any_script(r, 5000) }),
                    }
                }
            } else {
                let s = |r: &mut Rng| {
                    let mut s = session(r, Some(sh));
                    if r.chance(1, 4) {
                        s.push(Op::Display(0, true));
                    }
                    outside(r, &mut s);
                    s
                };
                if n == 0 || r.chance(1, 2) {
                    k.pre = s(r);
                }
                for _ in 0..n {
                    let t = s(r);
                    k.threads.push(t);
                }
            }
            // so often that small counters come round
            let size = |k: &LibRun| k.pre.len() + k.post.len() + k.threads.iter().map(|t| t.len()).sum::<usize>();
            let displays = k.pre.iter().chain(&k.post).chain(k.threads.iter().flatten()).any(|o| matches!(o, Op::Display(..) | Op::DisplayShared(..)));
            if sh.max_tables * (sh.max_cols + sh.max_rels) < 20 && size(&k) < 40 && !displays && r.chance(1, 8) {
                k.rounds = r.range(257, 300) as u32;
            }
            // long series are not repeated many times besides
            if size(&k) > 150 {
                k.rounds = 12;
            }
            if r.chance(1, 3) {
                k.out = transient_writes(r);
            }
            if n > 0 {
                schedule(r, c, &mut k)?;
            }
        }
        "S09" => {
            let n = r.range(0, 3);
            if n == 0 || r.chance(1, 2) {
                let m = r.range(1, 6);
                k.pre = history(r, false, true, m);
            }
            for _ in 0..n {
                let s = session(r, None);
                k.threads.push(s);
            }
            if r.chance(1, 4) {
                k.post = session(r, None);
            }
            for v in [&mut k.pre, &mut k.post] {
                if !v.is_empty() && r.chance(1, 6) {
                    v.push(Op::Display(0, true));
                    if r.chance(1, 4) {
                        v.push(Op::DisplayAgain(0));
                    }
                }
                outside(r, v);
            }
            if r.chance(1, 2) {
                let mut w = gen_world(r);
                let b = if r.chance(1, 2) { c.run_lib(&k, "measuring")?.asked } else { vec![] };
                w.with(r, &b);
                k.world = Some(w);
            }
            if n > 1 && r.chance(1, 2) {
                schedule(r, c, &mut k)?;
            }
        }
        "S10" => {
            let n = r.range(1, 8) * more;
            k.pre = if r.chance(1, 2) { session(r, None) } else { history(r, false, true, n) };
            if r.chance(1, 4) {
                k.pre.push(Op::Display(0, r.chance(1, 2)));
            }
            outside(r, &mut k.pre);
            let b = c.run_lib(&k, "measuring")?;
            if r.chance(2, 3) {
                let mut w = gen_world(r);
                w.with(r, &b.asked);
                k.world = Some(w);
            }
            let threads = r.range(1, 3);
            k.spread = match r.below(6) {
                0 => vec![],
                1 => vec![1; k.pre.len()],
                2 => (0..k.pre.len()).map(|_| 100).collect(),
                // every kind of step has its thread
                3 => k.pre.iter().map(|o| (opname(o).bytes().map(|b| b as usize).sum::<usize>() % (threads + 1)) as u8).collect(),
                // from some step on, somewhere else
                4 => {
                    let at = r.below(k.pre.len() + 1);
                    let (a, b) = if r.chance(1, 2) { (0, 1) } else { (1, 2) };
                    (0..k.pre.len()).map(|i| if i < at { a } else { b }).collect()
                }
                _ => (0..k.pre.len()).map(|_| if r.chance(1, 8) { 100 } else { r.below(threads + 1) as u8 }).collect(),
            };
        }
        _ => return Err(format!("no such property {}", prop)),
    }
    Ok(k)
}

// ------------------------------------------------------------------ checks
fn get(m: &Reports, th: u8, i: u32) -> OpRep {
    m.get(&(th, i)).cloned().unwrap_or_default()
}
fn brief(r: &OpRep) -> String {
    let mut s: String = r.result.chars().take(160).collect();
    if r.panicked {
        s.push_str(" (panicked)");
    }
    if let Some(k) = &r.sink {
        s.push_str(&format!(" sink: {} accepted, {} committed, {} writes", k.accepted.len(), k.committed, k.writes));
    }
    s
}
fn differ(a: &OpRep, b: &OpRep) -> Option<String> {
    if a == b {
        return None;
    }
    if a.result != b.result {
        return Some(format!("result: {}", diff(a.result.as_bytes(), b.result.as_bytes())));
    }
    if let (Some(x), Some(y)) = (&a.sink, &b.sink) {
        if x.accepted != y.accepted {
            return Some(format!("rendering: {}", diff(&x.accepted, &y.accepted)));
        }
    }
    Some(format!("{} / {}", brief(a), brief(b)))
}
/// The process as a whole must have come to its end.
fn ended(r: &Res, class: &str) -> Result<(), Bad> {
    match r.end {
        // the last thing that the guest says
        End::Exit(0) if r.rep.ends_with(b"--end--") => Ok(()),
        e => viol(class, format!("the process ended with {} after {} steps", e.text(), r.steps)),
    }
}
fn alone(k: &LibRun, pre: Vec<Op>) -> LibRun {
    LibRun { pre, entropy: k.entropy, bases: k.bases, ..LibRun::default() }
}

/// The operations that make document `d` what it is after the first `upto` operations.
fn construction(ops: &[Op], upto: usize, d: u32) -> Vec<Op> {
    let mut mods: HashMap<u32, Vec<Op>> = HashMap::new();
    let mut docs: HashMap<u32, Vec<Op>> = HashMap::new();
    for o in &ops[..upto] {
        match o {
            Op::NewModule(m, _) | Op::Parse(m, _) => {
                mods.insert(*m, vec![o.clone()]);
            }
            Op::AddEntity(m, ..) | Op::AddRelation(m, ..) => mods.entry(*m).or_default().push(o.clone()),
            Op::IntoMir(m, x) => {
                let mut v = mods.get(m).cloned().unwrap_or_default();
                // a document that existed stays if there is no module to compile
                let mut old = docs.remove(x).unwrap_or_default();
                old.append(&mut v);
                old.push(o.clone());
                docs.insert(*x, old);
            }
            Op::NewDocument(x) => {
                docs.insert(*x, vec![o.clone()]);
            }
            Op::MirAddTable(x, ..) | Op::MirAddField(x, ..) | Op::MirAddRelation(x, ..) | Op::Detached(x) | Op::Reserve(x) | Op::RelationOutside(x, ..) | Op::Change(x, ..) | Op::Bare(x) => docs.entry(*x).or_default().push(o.clone()),
            _ => {}
        }
    }
    docs.remove(&d).unwrap_or_default()
}
/// The document that an operation changes.
fn changes(o: &Op) -> Option<u32> {
    match o {
        Op::PlaceNodes(_, x) | Op::PlacePorts(_, x) | Op::DrawEdges(_, x) | Op::IntoMir(_, x) | Op::Often(0, _, x, _) => Some(*x),
        Op::MirAddTable(x, ..) | Op::MirAddField(x, ..) | Op::MirAddRelation(x, ..) | Op::RelationOutside(x, ..) | Op::NewDocument(x) | Op::Change(x, ..) | Op::Bare(x) => Some(*x),
        _ => None,
    }
}
/// The phases of complete layouts, by one engine, and the document. Others may be worked on in between.
fn layouts(ops: &[Op]) -> Vec<([usize; 3], u32)> {
    let mut v = vec![];
    for i in 0..ops.len() {
        let Op::PlaceNodes(e, d) = ops[i] else { continue };
        let mut at = vec![i];
        for (j, o) in ops.iter().enumerate().skip(i + 1) {
            if matches!(o, Op::NewEngine(x) | Op::EngineDropped(x) if *x == e) {
                break;
            }
            if changes(o) != Some(d) {
                continue;
            }
            let next = if at.len() == 1 { Op::PlacePorts(e, d) } else { Op::DrawEdges(e, d) };
            if *o != next {
                break;
            }
            at.push(j);
            if at.len() == 3 {
                v.push(([at[0], at[1], at[2]], d));
                break;
            }
        }
    }
    v
}

pub fn check(prop: &str, k: &LibRun, c: &mut Ctx) -> Result<(), Bad> {
    match prop {
        "S01" => s01(k, c),
        "S02" => s02(k, c),
        "S03" => s03(k, c),
        "S04" => s04(k, c),
        "S05" | "S06" => s0506(prop, k, c),
        "S07" => s07(k, c),
        "S08" => s08(k, c),
        "S09" => s09(k, c),
        "S10" => s10(k, c),
        _ => Err(Bad::Harness(format!("no such property {}", prop))),
    }
}

/// What sinks did themselves, in two runs of the same operation.
fn inside_differs(a: &Reports, (at, ai): (u8, u32), b: &Reports, (bt, bi): (u8, u32)) -> Option<String> {
    let (x, y) = (inside(a, at, ai), inside(b, bt, bi));
    x.iter().zip(&y).find_map(|(x, y)| differ(x, y)).map(|d| format!("within the sink: {}", d))
}
/// What sinks compile, compiled elsewhere.
fn inner_alone(c: &mut Ctx) -> Result<Option<OpRep>, Bad> {
    let mut pre = vec![Op::Parse(0, INNER.into()), Op::IntoMir(0, 0), Op::NewEngine(0)];
    pre.extend(layout(0, 0));
    pre.push(healthy(0, true));
    let n = pre.len() as u32 - 1;
    let r = c.run_lib(&alone(&LibRun::default(), pre), "what sinks compile")?;
    Ok(if r.end == End::Exit(0) { Some(get(&reports(&r.rep)?, 0, n)) } else { None })
}
/// Work inside of a sink has the results that it has elsewhere.
fn inside_right(all: &Reports, t: u8, i: u32, same: Option<&[u8]>, c: &mut Ctx) -> Result<(), Bad> {
    for x in inside(all, t, i) {
        c.count("uses_of_the_library_within_a_sink");
        let compile = x.result.starts_with("compile");
        let want = if compile {
            match inner_alone(c)?.and_then(|w| w.sink) {
                Some(s) => s.accepted,
                None => continue,
            }
        } else {
            match same {
                Some(s) => s.to_vec(),
                None => continue,
            }
        };
        if !x.result.ends_with(" ok") {
            return viol("fails-within-a-sink", format!("operation {} of thread {}: within its sink: {}", i, t, x.result));
        }
        let got = x.sink.as_ref().map_or(&[][..], |s| &s.accepted);
        if got != want {
            return viol("differs-within-a-sink", format!("operation {} of thread {}: within its sink: {}", i, t, diff(&want, got)));
        }
    }
    Ok(())
}

fn s01(k: &LibRun, c: &mut Ctx) -> Result<(), Bad> {
    let r = c.run_lib(k, "together")?;
    ended(&r, "no-orderly-end")?;
    let all = reports(&r.rep)?;
    for (t, ops) in k.threads.iter().enumerate() {
        let solo = c.run_lib(&alone(k, ops.clone()), &format!("thread {} alone", t + 1))?;
        if solo.end != End::Exit(0) {
            return Ok(()); // not an effect of other threads
        }
        let s = reports(&solo.rep)?;
        for i in 0..ops.len() as u32 {
            let (a, b) = (get(&s, 0, i), get(&all, t as u8 + 1, i));
            if let Some(d) = differ(&a, &b) {
                return viol("influenced-by-other-threads", format!("operation {} of thread {}: alone / together: {}", i, t + 1, d));
            }
            if let Some(d) = inside_differs(&s, (0, i), &all, (t as u8 + 1, i)) {
                return viol("influenced-by-other-threads", format!("operation {} of thread {}: alone / together: {}", i, t + 1, d));
            }
            inside_right(&all, t as u8 + 1, i, None, c)?;
        }
        if all.contains_key(&(t as u8 + 1, u32::MAX)) {
            return viol("thread-lost", format!("thread {} died", t + 1));
        }
    }
    Ok(())
}

fn s02(k: &LibRun, c: &mut Ctx) -> Result<(), Bad> {
    // one rendering of each document, in isolation
    let docs: Vec<u32> = k.post.iter().filter_map(|o| if let Op::Inspect(d) = o { Some(*d) } else { None }).collect();
    let mut refs: HashMap<(u32, u8), OpRep> = HashMap::new();
    for d in &docs {
        for (kind, op) in [(0u8, healthy(*d, false)), (1, healthy(*d, true)), (2, Op::Inspect(*d))] {
            let mut pre = k.pre.clone();
            pre.push(op);
            let n = pre.len() as u32 - 1;
            let r = c.run_lib(&alone(k, pre), "in isolation")?;
            if r.end != End::Exit(0) {
                return Ok(());
            }
            refs.insert((*d, kind), get(&reports(&r.rep)?, 0, n));
        }
    }
    let r = c.run_lib(k, "together")?;
    ended(&r, "no-orderly-end")?;
    let all = reports(&r.rep)?;
    let mut seen: Vec<(u8, u32, &Op)> = vec![];
    for (t, ops) in k.threads.iter().enumerate() {
        seen.extend(ops.iter().enumerate().map(|(i, o)| (t as u8 + 1, i as u32, o)));
    }
    seen.extend(k.post.iter().enumerate().map(|(i, o)| (0u8, POST + i as u32, o)));
    for (t, i, o) in seen {
        let got = get(&all, t, i);
        match o {
            Op::RenderShared { doc, view, sink } | Op::Render { doc, view, sink, .. } => {
                let want = match refs.get(&(*doc, *view as u8)) {
                    Some(w) => w,
                    None => continue,
                };
                let (ws, gs) = match (&want.sink, &got.sink) {
                    (Some(a), Some(b)) => (a, b),
                    (None, None) => continue,
                    _ => return viol("document-changed", format!("operation {} of thread {}: {} / {}", i, t, brief(want), brief(&got))),
                };
                inside_right(&all, t, i, if want.result == "ok" { Some(&ws.accepted) } else { None }, c)?;
                let plain = sink.plain();
                if got.result == "ok" || plain {
                    if got.result != want.result {
                        return viol("rendering-differs", format!("operation {} of thread {}: {} instead of {}", i, t, brief(&got), brief(want)));
                    }
                    if gs.accepted != ws.accepted {
                        return viol("rendering-differs", format!("operation {} of thread {}: {}", i, t, diff(&ws.accepted, &gs.accepted)));
                    }
                }
            }
            Op::Often(..) if got.result.contains("differs") => {
                return viol("rendering-differs", format!("operation {}: {}", i, got.result));
            }
            Op::InspectShared(d) | Op::Inspect(d) => {
                if let Some(want) = refs.get(&(*d, 2)) {
                    if want.result != got.result {
                        return viol("document-changed", format!("operation {} of thread {}: {}", i, t, diff(want.result.as_bytes(), got.result.as_bytes())));
                    }
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn s03(k: &LibRun, c: &mut Ctx) -> Result<(), Bad> {
    let r = c.run_lib(k, "the history")?;
    ended(&r, "no-orderly-end")?;
    let all = reports(&r.rep)?;
    let ls = layouts(&k.pre);
    for (at, d) in ls.iter().rev().take(7) {
        let ([at, ports, edges], d) = (*at, *d);
        if get(&all, 0, at as u32).result == "absent" {
            continue; // there is no such engine or document
        }
        // the operations that look at it, up to the next one that changes it
        let mut look = vec![at, ports, edges];
        for (i, o) in k.pre.iter().enumerate().skip(edges + 1) {
            match o {
                Op::Inspect(x) if *x == d => look.push(i),
                Op::Render { doc, debug: NO_ENGINE, .. } if *doc == d => look.push(i),
                o if changes(o) == Some(d) => break,
                _ => {}
            }
        }
        let mut pre = construction(&k.pre, at, d);
        pre.push(Op::NewEngine(77));
        let base = pre.len();
        for i in &look {
            pre.push(match &k.pre[*i] {
                Op::PlaceNodes(..) => Op::PlaceNodes(77, d),
                Op::PlacePorts(..) => Op::PlacePorts(77, d),
                Op::DrawEdges(..) => Op::DrawEdges(77, d),
                o => o.clone(),
            });
        }
        let f = c.run_lib(&alone(k, pre), &format!("layout at {} afresh", at))?;
        if f.end != End::Exit(0) {
            return Ok(());
        }
        let fr = reports(&f.rep)?;
        for (n, i) in look.iter().enumerate() {
            let (a, b) = (get(&fr, 0, (base + n) as u32), get(&all, 0, *i as u32));
            if let Some(x) = differ(&a, &b) {
                return viol("layout-depends-on-history", format!("operation {} ({:?}): afresh / with its history: {}", i, opname(&k.pre[*i]), x));
            }
            if let Some(x) = inside_differs(&fr, (0, (base + n) as u32), &all, (0, *i as u32)) {
                return viol("layout-depends-on-history", format!("operation {} ({:?}): afresh / with its history: {}", i, opname(&k.pre[*i]), x));
            }
        }
    }
    Ok(())
}
fn opname(o: &Op) -> String {
    format!("{:?}", o).split(['(', ' ']).next().unwrap_or("").to_string()
}

fn s04(k: &LibRun, c: &mut Ctx) -> Result<(), Bad> {
    let r = c.run_lib(k, "the history")?;
    ended(&r, "no-orderly-end")?;
    let all = reports(&r.rep)?;
    let mut w = ModelWorld::default();
    for (i, o) in k.pre.iter().enumerate() {
        w.exec(o);
        let (doc, view, debug, sink) = match o {
            Op::Render { doc, view, debug, sink } => (*doc, *view, *debug, sink),
            _ => continue,
        };
        let got = get(&all, 0, i as u32);
        let (m, s) = match (w.docs.get(&doc), &got.sink) {
            (Some(m), Some(s)) => (m, s),
            _ => continue,
        };
        if m.unplaced() {
            if got.result == "ok" || !s.accepted.is_empty() {
                return viol("unlaid-document-rendered", format!("operation {}: {}", i, brief(&got)));
            }
            continue;
        }
        // the same rendering into a healthy sink
        let mut pre: Vec<Op> = k.pre[..i].iter().filter(|o| !matches!(o, Op::Render { .. })).cloned().collect();
        pre.push(Op::Render { doc, view, debug, sink: Script::default() });
        let n = pre.len() as u32 - 1;
        let f = c.run_lib(&alone(k, pre), &format!("operation {} with a healthy sink", i))?;
        let want = get(&reports(&f.rep)?, 0, n);
        let full = match &want.sink {
            Some(x) if want.result == "ok" => x.accepted.clone(),
            _ => return viol("healthy-sink-fails", format!("operation {}: into a healthy sink: {}", i, brief(&want))),
        };
        if let Err(e) = svgx::parse_xml(&full) {
            return viol("no-whole-diagram", format!("operation {}: success into a healthy sink, and what arrived is no whole diagram: {}", i, e));
        }
        if !full.starts_with(&s.accepted) {
            return viol("not-a-prefix", format!("operation {}: {}", i, diff(&full, &s.accepted)));
        }
        inside_right(&all, 0, i as u32, if debug == NO_ENGINE { Some(&full) } else { None }, c)?;
        let committed = &s.accepted[..s.committed];
        let hard = s.faults.iter().any(|f| matches!(f, 3 | 4 | 5 | 6 | 13 | 15));
        let flush_eintr = s.faults.contains(&12);
        let flushed = s.flushes as usize > s.faults.iter().filter(|f| matches!(f, 12 | 13 | 15)).count();
        let _ = sink;
        if got.result == "ok" {
            if committed != &full[..] {
                return viol("success-without-delivery", format!("operation {} returns success; the sink has {} of {} bytes for good", i, committed.len(), full.len()));
            }
            if !flushed {
                return viol("success-without-flush", format!("operation {} returns success although no flush succeeded", i));
            }
        } else if !hard && !flush_eintr {
            return viol("transient-faults-not-absorbed", format!("operation {}: {} with faults {:?}", i, brief(&got), s.faults));
        }
        if got.result.starts_with("another error") {
            return viol("wrong-error", format!("operation {}: {}", i, got.result));
        }
        if got.result == "invalid-layout" {
            return viol("wrong-error", format!("operation {}: a laid-out document is refused", i));
        }
        if got.result == "panic" && !s.faults.iter().any(|f| matches!(f, 5 | 15)) {
            return viol("panic", format!("operation {}: {} with faults {:?}", i, brief(&got), s.faults));
        }
    }
    Ok(())
}

fn s0506(prop: &str, k: &LibRun, c: &mut Ctx) -> Result<(), Bad> {
    let r = c.run_lib(k, "the history")?;
    ended(&r, "no-orderly-end")?;
    let all = reports(&r.rep)?;
    let mut w = ModelWorld::default();
    for (i, o) in k.pre.iter().enumerate() {
        // layout phases in their order must work
        let in_order = match o {
            Op::Often(..) => true,
            Op::PlacePorts(_, d) => w.docs.get(d).is_some_and(|m| m.phase >= 1),
            Op::DrawEdges(_, d) => w.docs.get(d).is_some_and(|m| m.phase == 2),
            Op::PlaceNodes(..) | Op::IntoMir(..) => true,
            _ => false,
        };
        w.exec(o);
        let got = get(&all, 0, i as u32);
        match o {
            Op::Often(1, ..) if got.result.contains("differs") => {
                return viol("repeated-rendering-differs", format!("operation {}: {}", i, got.result));
            }
            Op::Render { doc, view, debug: NO_ENGINE, .. } => {
                let m = match w.docs.get(doc) {
                    Some(m) if m.complete => m,
                    _ => continue,
                };
                let s = match &got.sink {
                    Some(s) => s,
                    None => continue,
                };
                if got.result == "ok" {
                    c.count("renderings_decoded");
                    let e = if prop == "S05" {
                        svgx::decode(&s.accepted).and_then(|dr| svgx::faithful(&dr, &m.d))
                    } else if *view {
                        svgx::decode(&s.accepted).and_then(|dr| svgx::geometry(&dr, &m.d))
                    } else {
                        Ok(())
                    };
                    if let Err(e) = e {
                        return viol(if prop == "S05" { "unfaithful" } else { "bad-geometry" }, format!("operation {}: {}", i, e));
                    }
                } else if s.faults.is_empty() {
                    return viol("laid-out-document-not-rendered", format!("operation {}: {}", i, brief(&got)));
                }
            }
            Op::Inspect(d) if prop == "S06" => {
                if let Some(m) = w.docs.get(d) {
                    if m.complete {
                        c.count("documents_inspected");
                        if let Err(e) = inspected(&got.result, &m.d) {
                            return viol("bad-geometry", format!("operation {}: {}", i, e));
                        }
                    }
                }
            }
            _ => {}
        }
        if got.panicked && in_order {
            return viol("layout-panics", format!("operation {} ({})", i, opname(o)));
        }
    }
    Ok(())
}

/// The document's own account of its layout.
fn inspected(text: &str, m: &Diagram) -> Result<(), String> {
    let mut view = None;
    let mut tables: Vec<Rc> = vec![];
    let mut fields: Vec<Vec<Rc>> = vec![];
    let mut lines: Vec<Vec<(f64, f64)>> = vec![];
    let rect = |s: &str| -> Option<Rc> {
        let v: Vec<f64> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        if v.len() == 4 && v.iter().all(|x: &f64| x.is_finite()) {
            Some(Rc { x: v[0], y: v[1], w: v[2], h: v[3] })
        } else {
            None
        }
    };
    for l in text.lines() {
        if let Some(s) = l.strip_prefix("view ") {
            view = rect(s);
        } else if let Some(s) = l.strip_prefix("table ") {
            let s = s.split(" |").next().unwrap_or("");
            let s = s.split_once(' ').map_or("", |x| x.1);
            tables.push(rect(s).ok_or_else(|| format!("a table has the place {:?}", s))?);
            fields.push(vec![]);
        } else if let Some(s) = l.strip_prefix("field ") {
            let s = s.split(" |").next().unwrap_or("");
            let s = s.splitn(3, ' ').nth(2).unwrap_or("");
            let f = rect(s).ok_or_else(|| format!("a row has the place {:?}", s))?;
            fields.last_mut().ok_or("a row without a table")?.push(f);
        } else if let Some(s) = l.strip_prefix("edge ") {
            let mut p = vec![];
            for w in s.split(' ').skip(2) {
                let xy: Vec<f64> = w.split(',').filter_map(|x| x.parse().ok()).collect();
                if xy.len() != 2 || !xy.iter().all(|x: &f64| x.is_finite()) {
                    return Err(format!("a relation runs through {:?}", w));
                }
                p.push((xy[0], xy[1]));
            }
            if p.len() < 2 {
                return Err("a relation has no line".into());
            }
            lines.push(p);
        }
    }
    let v = view.ok_or("there is no view box")?;
    if v.w <= 0.0 || v.h <= 0.0 {
        return Err(format!("view box {:?}", v));
    }
    if tables.len() != m.tables.len() || lines.len() != m.rels.len() {
        return Err(format!("{} tables and {} lines for {} and {}", tables.len(), lines.len(), m.tables.len(), m.rels.len()));
    }
    for (i, t) in tables.iter().enumerate() {
        if !v.contains((t.x, t.y)) || !v.contains((t.x + t.w, t.y + t.h)) {
            return Err(format!("table {} leaves the view box", i));
        }
        if tables.iter().skip(i + 1).any(|o| o.overlaps(t)) {
            return Err(format!("table {} overlaps another one", i));
        }
        let mut y = t.y;
        for (n, f) in fields[i].iter().enumerate() {
            if (f.x - t.x).abs() > 0.01 || (f.w - t.w).abs() > 0.01 || (f.y - y).abs() > 0.01 || f.h <= 0.0 {
                return Err(format!("row {} of table {} lies at {:?}, the one above ends at {}, the table is {:?}", n, i, f, y, t));
            }
            y += f.h;
        }
        if (y - t.y - t.h).abs() > 0.01 {
            return Err(format!("the rows of table {} end at {}, the table {:?}", i, y, t));
        }
    }
    for (i, l) in lines.iter().enumerate() {
        svgx::line_geometry(l, &tables, &v).map_err(|e| format!("relation {} {}", i, e))?;
        let on = |p: (f64, f64), ends: &[model::End]| {
            ends.iter().any(|e| match e.row {
                None => tables[e.table].on_border(p),
                Some(r) => fields[e.table].get(r).is_some_and(|f| f.on_border(p)),
            })
        };
        if !on(l[0], &m.rels[i].a) || !on(l[l.len() - 1], &m.rels[i].b) {
            return Err(format!("relation {} does not start and end on the borders of its ends: {:?}", i, l));
        }
        let out = |l: &[(f64, f64)], ends: &[model::End]| {
            ends.iter().any(|e| match e.row {
                None => svgx::leaves(l, &tables[e.table], &tables[e.table]),
                Some(r) => fields[e.table].get(r).is_some_and(|f| svgx::leaves(l, &tables[e.table], f)),
            })
        };
        let back: Vec<_> = l.iter().rev().copied().collect();
        if !out(l, &m.rels[i].a) || !out(&back, &m.rels[i].b) {
            return Err(format!("relation {} does not leave its ends straight outwards from the middle of a side: {:?}", i, l));
        }
    }
    Ok(())
}

/// The same again and again: what is in use, what it costs and what comes of it stays the same.
fn s08(k: &LibRun, c: &mut Ctx) -> Result<(), Bad> {
    // a damaged text may contain what the mark becomes in another round
    if k.encode().windows(4).any(|w| w.starts_with(&model::MARK.as_bytes()[..2]) && w[2..].iter().all(|x| x.is_ascii_digit() || x.is_ascii_lowercase()) && &w[2..] != b"00") {
        return Ok(());
    }
    let r = c.run_lib(k, "all rounds")?;
    ended(&r, "no-orderly-end")?;
    let v = rounds(&r.rep);
    let n = k.rounds as usize;
    if v.len() != n {
        return Err(Bad::Harness(format!("{} rounds of {}", v.len(), n)));
    }
    if n < 8 {
        return Ok(());
    }
    c.count("repeated_rounds");
    // from the second round on, documents that stayed may have been laid out before
    if let Some(i) = (2..n).find(|i| v[*i].hash != v[1].hash) {
        return viol("results-change", format!("round {} does not report what round 2 did", i + 1));
    }
    let Err(first) = steady(&v) else { return Ok(()) };
    // a store of limited size comes to its end: does it go on in eight times as many rounds?
    let Bad::Viol(Viol { class, .. }) = &first else { return Err(first) };
    let mut more = k.clone();
    more.rounds = (8 * k.rounds).min(400).max(k.rounds);
    let r = match c.run_lib(&more, "many more rounds") {
        Ok(r) if r.end == End::Exit(0) => r,
        _ => return Err(first),
    };
    let v = rounds(&r.rep);
    if v.len() != more.rounds as usize {
        return Err(first);
    }
    match steady(&v) {
        Err(Bad::Viol(again)) if again.class == *class => Err(Bad::Viol(again)),
        _ => {
            c.count("stores_that_came_to_their_full_size");
            Ok(())
        }
    }
}
/// Whether neither memory nor cost goes on growing from round to round.
fn steady(v: &[crate::lib_ops::Round]) -> Result<(), Bad> {
    let n = v.len();
    let q = [v[n / 8].live, v[n / 4].live, v[n / 2].live, v[n - 1].live];
    if q.windows(2).all(|w| w[0] < w[1]) {
        return viol("memory-grows", format!("bytes in use after rounds {}, {}, {} and {}: {:?}", n / 8 + 1, n / 4 + 1, n / 2 + 1, n, q));
    }
    let cost = |i: usize| v[i].steps - v[i - 1].steps;
    let early = (1..4).map(cost).max().unwrap();
    let late = (n - 3..n).map(cost).min().unwrap();
    if late > 2 * early + 50_000 {
        return viol("cost-grows", format!("rounds 2 to 4 took at most {} steps each, the last three at least {}", early, late));
    }
    Ok(())
}

/// The library acts on nothing but what it is handed.
fn s09(k: &LibRun, c: &mut Ctx) -> Result<(), Bad> {
    let r = c.run_lib(k, "the program")?;
    ended(&r, "no-orderly-end")?;
    if !r.forbidden.is_empty() {
        return viol("forbidden-effect", format!("{:?}", r.forbidden));
    }
    let show = |b: &[u8]| String::from_utf8_lossy(b).chars().take(200).collect::<String>();
    if !r.err.is_empty() {
        return viol("writes-to-standard-error", show(&r.err));
    }
    let displays = k.pre.iter().chain(&k.post).chain(k.threads.iter().flatten()).any(|o| matches!(o, Op::Display(..) | Op::DisplayShared(..)));
    if !displays && !r.out.is_empty() {
        return viol("writes-to-standard-output", show(&r.out));
    }
    if r.ctr[C_READS] > 0 {
        return viol("reads-standard-input", format!("{} reads", r.ctr[C_READS]));
    }
    let end = get(&reports(&r.rep)?, 255, 0).result;
    if end != "hook true env true threads 0 descriptors 0 --end--" {
        return viol("process-left-changed", end);
    }
    Ok(())
}

/// The same operations elsewhere.
fn s10(k: &LibRun, c: &mut Ctx) -> Result<(), Bad> {
    let plain = LibRun { spread: vec![], world: None, bases: None, entropy: 0, ..k.clone() };
    let b = c.run_lib(&plain, "here")?;
    if b.end != End::Exit(0) {
        return Ok(());
    }
    let r = c.run_lib(k, "elsewhere")?;
    ended(&r, "no-orderly-end")?;
    let (br, rr) = (reports(&b.rep)?, reports(&r.rep)?);
    for (i, o) in k.pre.iter().enumerate() {
        if let Some(x) = differ(&get(&br, 0, i as u32), &get(&rr, 0, i as u32)) {
            let on = k.spread.get(i).copied().unwrap_or(0);
            return viol("depends-on-where", format!("operation {} ({}, on thread {}): here / elsewhere: {}", i, opname(o), on, x));
        }
        if let Some(x) = inside_differs(&br, (0, i as u32), &rr, (0, i as u32)) {
            return viol("depends-on-where", format!("operation {} ({}): here / elsewhere: {}", i, opname(o), x));
        }
    }
    if b.out != r.out {
        return viol("depends-on-where", format!("standard output: {}", diff(&b.out, &r.out)));
    }
    Ok(())
}

fn s07(k: &LibRun, c: &mut Ctx) -> Result<(), Bad> {
    // frames of every document and view, from renderings into memory
    let build: Vec<Op> = k.pre.iter().filter(|o| !matches!(o, Op::Display(..) | Op::DisplayAgain(_) | Op::Render { .. })).cloned().collect();
    let mut frames: HashMap<(u32, bool), Vec<u8>> = HashMap::new();
    let mut used: Vec<(u32, bool)> = vec![];
    for o in k.pre.iter().chain(k.threads.iter().flatten()) {
        if let Op::Display(d, v) | Op::DisplayShared(d, v) = o {
            if !used.contains(&(*d, *v)) {
                used.push((*d, *v));
            }
        }
    }
    let mut pre = build.clone();
    let n0 = pre.len() as u32;
    for (d, v) in &used {
        pre.push(healthy(*d, *v));
    }
    let f = c.run_lib(&alone(k, pre), "renderings into memory")?;
    let fr = reports(&f.rep)?;
    for (n, u) in used.iter().enumerate() {
        let rep = get(&fr, 0, n0 + n as u32);
        match (&rep.sink, rep.result.as_str()) {
            (Some(s), "ok") => {
                if let Err(e) = svgx::parse_xml(&s.accepted) {
                    return viol("no-whole-diagram", format!("rendered into memory, document {} is no whole diagram: {}", u.0, e));
                }
                let mut b = b"EVCXR_BEGIN_CONTENT image/svg+xml\n".to_vec();
                b.extend_from_slice(&s.accepted);
                b.extend_from_slice(b"\nEVCXR_END_CONTENT\n");
                frames.insert(*u, b);
            }
            _ => return Ok(()),
        }
    }
    let r = c.run_lib(k, "displays")?;
    ended(&r, "no-orderly-end")?;
    let all = reports(&r.rep)?;
    let hard = k.out.limit.is_some() || k.out.sched.iter().any(|o| matches!(o, Oc::Err(_) | Oc::Zero));
    // each thread's displays, in its order
    let mut seqs: Vec<(u8, Vec<(u32, (u32, bool))>)> = vec![];
    let disp = |ops: &[Op]| -> Vec<(u32, (u32, bool))> {
        let mut last: HashMap<u32, bool> = HashMap::new();
        ops.iter()
            .enumerate()
            .filter_map(|(i, o)| match o {
                Op::Display(d, v) | Op::DisplayShared(d, v) => {
                    last.insert(*d, *v);
                    Some((i as u32, (*d, *v)))
                }
                // what was made for the display before
                Op::DisplayAgain(d) => last.get(d).map(|v| (i as u32, (*d, *v))),
                _ => None,
            })
            .collect()
    };
    seqs.push((0, disp(&k.pre)));
    for (t, ops) in k.threads.iter().enumerate() {
        seqs.push((t as u8 + 1, disp(ops)));
    }
    let total: usize = seqs.iter().flat_map(|s| &s.1).map(|x| frames[&x.1].len()).sum();
    // find a merge of the threads' displays that the output is (a prefix of)
    let order = match merge(&r.out, &seqs, &frames) {
        Some(o) => o,
        None => return viol("frames-damaged", format!("{} bytes on standard output are no sequence of displays: {:?}", r.out.len(), String::from_utf8_lossy(&r.out).chars().take(200).collect::<String>())),
    };
    if !hard && r.out.len() != total {
        return viol("frames-lost", format!("{} of {} bytes arrived although no call failed for good", r.out.len(), total));
    }
    // order: (thread, index in its sequence, end offset)
    let mut normal_ends: std::collections::BTreeMap<&Vec<u8>, Vec<(u64, usize, u8)>> = Default::default();
    for (t, ops) in &seqs {
        for (n, (i, u)) in ops.iter().enumerate() {
            let rep = get(&all, *t, *i);
            let normal = rep.result == "ok" && !rep.panicked;
            if !hard && !normal {
                return viol("display-fails", format!("display {} of thread {}: {}", n, t, brief(&rep)));
            }
            if normal {
                normal_ends.entry(&frames[u]).or_default().push((rep.out_len.unwrap_or(0), n, *t));
            }
        }
    }
    // a display that has returned was delivered: alike frames cannot be told apart, so there are at
    // least as many of them complete as calls for them have returned
    for (f, mut v) in normal_ends {
        v.sort();
        let mut ends: Vec<u64> = order.iter().filter(|o| frame_of(o, &seqs, &frames) == f && o.2 <= r.out.len()).map(|o| o.2 as u64).collect();
        ends.sort();
        for (j, (upto, n, t)) in v.iter().enumerate() {
            if ends.get(j).map_or(true, |e| e > upto) {
                return viol("returned-before-delivery", format!("display {} of thread {} returned when {} bytes had been handed over; such frames end at {:?}, and {} calls for them had returned", n, t, upto, ends, j + 1));
            }
        }
    }
    Ok(())
}
type Seqs = [(u8, Vec<(u32, (u32, bool))>)];
fn frame_of<'a>(o: &(u8, usize, usize), seqs: &Seqs, frames: &'a HashMap<(u32, bool), Vec<u8>>) -> &'a Vec<u8> {
    let s = seqs.iter().find(|s| s.0 == o.0).unwrap();
    &frames[&s.1[o.1].1]
}
/// Threads, positions in their sequences and end offsets, in the order of the output.
fn merge(out: &[u8], seqs: &Seqs, frames: &HashMap<(u32, bool), Vec<u8>>) -> Option<Vec<(u8, usize, usize)>> {
    fn go(out: &[u8], at: usize, pos: &mut Vec<usize>, seqs: &Seqs, frames: &HashMap<(u32, bool), Vec<u8>>, acc: &mut Vec<(u8, usize, usize)>) -> bool {
        if at == out.len() {
            return true;
        }
        for s in 0..seqs.len() {
            // thread 0 comes before the others
            if s > 0 && pos[0] < seqs[0].1.len() {
                break;
            }
            if pos[s] >= seqs[s].1.len() {
                continue;
            }
            let f = &frames[&seqs[s].1[pos[s]].1];
            let n = f.len().min(out.len() - at);
            if out[at..at + n] != f[..n] {
                continue;
            }
            pos[s] += 1;
            acc.push((seqs[s].0, pos[s] - 1, at + f.len()));
            if n < f.len() || go(out, at + n, pos, seqs, frames, acc) {
                return true;
            }
            acc.pop();
            pos[s] -= 1;
        }
        false
    }
    let mut acc = vec![];
    let mut pos = vec![0; seqs.len()];
    if go(out, 0, &mut pos, seqs, frames, &mut acc) {
        Some(acc)
    } else {
        None
    }
}

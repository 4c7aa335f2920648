//! Makes a failing case smaller while it keeps failing in the same way.
use crate::cli::{Bytes, Dist, World};
use crate::ctx::Ctx;
use crate::lib_ops::{LibRun, Op, Script};
use crate::model::{Col, Path};
use crate::props_cli::CliCase;
use crate::sched::Sched;
use crate::sim::{Oc, StreamPlan};
use crate::{judge_case, Case, Viol};
use std::time::{Duration, Instant};

struct Min<'a> {
    prop: &'a str,
    class: String,
    best: Case,
    v: Viol,
    c: &'a mut Ctx,
    end: Instant,
    tries: u64,
}
impl Min<'_> {
    fn out(&self) -> bool {
        self.tries > 4000 || Instant::now() > self.end
    }
    /// takes the candidate if it still fails alike
    fn take(&mut self, k: Case) -> Result<bool, String> {
        if k == self.best || self.out() {
            return Ok(false);
        }
        self.tries += 1;
        match judge_case(self.prop, &k, self.c)? {
            Some(v) if v.class == self.class => {
                self.best = k;
                self.v = v;
                Ok(true)
            }
            _ => Ok(false),
        }
    }
    /// removes pieces of a sequence, large ones first
    fn chunks<T: Clone>(&mut self, get: impl Fn(&Case) -> Vec<T>, put: impl Fn(&Case, Vec<T>) -> Case) -> Result<bool, String> {
        let mut any = false;
        let mut size = get(&self.best).len().div_ceil(2);
        while size > 0 {
            let mut i = 0;
            loop {
                let v = get(&self.best);
                if i >= v.len() || self.out() {
                    break;
                }
                let mut w = v.clone();
                w.drain(i..(i + size).min(v.len()));
                let k = put(&self.best, w);
                if self.take(k)? {
                    any = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size = size.div_ceil(2);
        }
        Ok(any)
    }
}

fn as_cli(k: &Case) -> &CliCase {
    match k {
        Case::Command(k) => k,
        _ => unreachable!(),
    }
}
fn as_lib(k: &Case) -> &LibRun {
    match k {
        Case::Library(k) => k,
        _ => unreachable!(),
    }
}

pub fn minimise(prop: &str, k: &Case, v: &Viol, c: &mut Ctx, limit: Duration) -> Result<(Case, Viol, u64), String> {
    let mut m = Min { prop, class: v.class.clone(), best: k.clone(), v: v.clone(), c, end: Instant::now() + limit, tries: 0 };
    loop {
        let any = match &m.best {
            Case::Command(_) => cli_round(&mut m)?,
            Case::Library(_) => lib_round(&mut m)?,
        };
        if !any || m.out() {
            break;
        }
    }
    Ok((m.best, m.v, m.tries))
}

fn streams(p: &StreamPlan) -> Vec<StreamPlan> {
    let mut v = vec![];
    if *p != StreamPlan::default() {
        v.push(StreamPlan::default());
    }
    if p.limit.is_some() && !p.sched.is_empty() {
        v.push(StreamPlan { sched: vec![], limit: p.limit });
    }
    if p.limit.is_some() {
        v.push(StreamPlan { sched: p.sched.clone(), limit: None });
    }
    let n = p.sched.len();
    if n > 0 {
        v.push(StreamPlan { sched: p.sched[..n / 2].to_vec(), limit: p.limit });
        v.push(StreamPlan { sched: p.sched[..n - 1].to_vec(), limit: p.limit });
        v.push(StreamPlan { sched: p.sched[1..].to_vec(), limit: p.limit });
        v.push(StreamPlan { sched: p.sched.iter().map(|o| if matches!(o, Oc::Stall(_)) { Oc::Full } else { *o }).collect(), limit: p.limit });
        for i in 0..n.min(40) {
            if p.sched[i] != Oc::Full {
                let mut s = p.sched.clone();
                s[i] = Oc::Full;
                v.push(StreamPlan { sched: s, limit: p.limit });
            }
        }
    }
    if let Some((l, e)) = p.limit {
        for l2 in [0, l / 2, l.saturating_sub(1)] {
            if l2 < l {
                v.push(StreamPlan { sched: p.sched.clone(), limit: Some((l2, e)) });
            }
        }
    }
    v
}
fn dists(d: &Dist) -> Vec<Dist> {
    let mut v = vec![];
    for s in streams(&d.read) {
        v.push(Dist { read: s, ..d.clone() });
    }
    for s in streams(&d.out) {
        v.push(Dist { out: s, ..d.clone() });
    }
    for s in streams(&d.err) {
        v.push(Dist { err: s, ..d.clone() });
    }
    v.push(Dist { world: None, ..d.clone() });
    if let Some(w) = &d.world {
        v.push(Dist { world: Some(World { jump: Default::default(), ..w.clone() }), ..d.clone() });
        v.push(Dist { world: Some(World { pace: 0, ..w.clone() }), ..d.clone() });
        let usual = World::default();
        v.push(Dist { world: Some(World { meta: 0, ..w.clone() }), ..d.clone() });
        v.push(Dist { world: Some(World { exe: usual.exe, name: usual.name, ..w.clone() }), ..d.clone() });
        for i in 0..4 {
            let mut kinds = w.kinds;
            kinds[i] = usual.kinds[i];
            v.push(Dist { world: Some(World { kinds, ..w.clone() }), ..d.clone() });
        }
        for i in 0..w.env.len() {
            let mut w2 = w.clone();
            w2.env.remove(i);
            v.push(Dist { world: Some(w2), ..d.clone() });
        }
    }
    v.push(Dist { file: None, ..d.clone() });
    v.push(Dist { stat_size: None, ..d.clone() });
    v.push(Dist { open_eintr: 0, ..d.clone() });
    v.push(Dist { open_errno: 0, ..d.clone() });
    v.push(Dist { missing: false, ..d.clone() });
    v.push(Dist { decoys: false, ..d.clone() });
    v.push(Dist { later: None, ..d.clone() });
    v.push(Dist { extra_args: vec![], ..d.clone() });
    v.push(Dist { crash_step: 0, ..d.clone() });
    v.push(Dist { crash_io: 0, ..d.clone() });
    v.push(Dist { alloc_fail: vec![], ..d.clone() });
    v.push(Dist { alloc_fail_from: 0, ..d.clone() });
    v.push(Dist { heap_limit: 0, ..d.clone() });
    let k = &d.sched;
    let mut to = |sched: Sched| v.push(Dist { sched, ..d.clone() });
    if *k != Sched::default() {
        to(Sched::default());
        to(Sched { picks: vec![], ..k.clone() });
        to(Sched { yields: vec![], ..k.clone() });
        to(Sched { preempt: vec![], ..k.clone() });
        to(Sched { sites: vec![], ..k.clone() });
        for x in halves(&k.preempt) {
            to(Sched { preempt: x, ..k.clone() });
        }
        for x in halves(&k.sites) {
            to(Sched { sites: x, ..k.clone() });
        }
        to(Sched { atoms: vec![], ..k.clone() });
        for x in halves(&k.atoms) {
            to(Sched { atoms: x, ..k.clone() });
        }
        for x in halves(&k.yields) {
            to(Sched { yields: x, ..k.clone() });
        }
        for x in halves(&k.picks) {
            to(Sched { picks: x, ..k.clone() });
        }
    }
    v
}
/// Parts of a list, and the list without each of its few last entries.
fn halves<T: Clone>(l: &[T]) -> Vec<Vec<T>> {
    let n = l.len();
    if n < 2 {
        return vec![];
    }
    let mut v = vec![l[..n / 2].to_vec(), l[n / 2..].to_vec()];
    if n <= 12 {
        for i in 0..n {
            let mut x = l.to_vec();
            x.remove(i);
            v.push(x);
        }
    }
    v
}

fn cli_round(m: &mut Min) -> Result<bool, String> {
    let mut any = false;
    any |= m.chunks(|k| as_cli(k).runs.clone(), |k, runs| Case::Command(CliCase { runs, ..as_cli(k).clone() }))?;
    for i in 0..as_cli(&m.best).runs.len() {
        let mut n = 0;
        loop {
            let ds = dists(&as_cli(&m.best).runs[i]);
            if n >= ds.len() || m.out() {
                break;
            }
            let mut k = as_cli(&m.best).clone();
            k.runs[i] = ds[n].clone();
            if m.take(Case::Command(k))? {
                any = true;
            } else {
                n += 1;
            }
        }
    }
    any |= m.chunks(|k| as_cli(k).damage.clone(), |k, damage| Case::Command(CliCase { damage, ..as_cli(k).clone() }))?;
    // the damage becomes part of the text
    if !as_cli(&m.best).damage.is_empty() {
        let k = as_cli(&m.best);
        let k = CliCase { text: Bytes(k.arrived()), damage: vec![], ..k.clone() };
        any |= m.take(Case::Command(k))?;
    }
    if as_cli(&m.best).damage.is_empty() {
        let lines = |k: &Case| as_cli(k).text.0.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect::<Vec<_>>();
        any |= m.chunks(lines, |k, l| Case::Command(CliCase { text: Bytes(l.concat()), ..as_cli(k).clone() }))?;
        // characters, or bytes where it is no text
        let chars = |k: &Case| match std::str::from_utf8(&as_cli(k).text.0) {
            Ok(t) => t.chars().map(|c| c.to_string().into_bytes()).collect::<Vec<_>>(),
            Err(_) => as_cli(k).text.0.iter().map(|b| vec![*b]).collect(),
        };
        any |= m.chunks(chars, |k, l| Case::Command(CliCase { text: Bytes(l.concat()), ..as_cli(k).clone() }))?;
    }
    Ok(any)
}

fn scripts(s: &Script) -> Vec<Script> {
    let mut v = vec![];
    if *s == Script::default() {
        return v;
    }
    v.push(Script::default());
    v.push(Script { writes: vec![], ..s.clone() });
    v.push(Script { flushes: vec![], ..s.clone() });
    v.push(Script { limit: None, ..s.clone() });
    v.push(Script { buffered: false, ..s.clone() });
    v.push(Script { kept: false, ..s.clone() });
    let n = s.writes.len();
    if n > 0 {
        v.push(Script { writes: s.writes[..n / 2].to_vec(), ..s.clone() });
        v.push(Script { writes: s.writes[..n - 1].to_vec(), ..s.clone() });
        v.push(Script { writes: s.writes[1..].to_vec(), ..s.clone() });
    }
    if let Some((l, e)) = s.limit {
        v.push(Script { limit: Some((l / 2, e)), ..s.clone() });
    }
    v
}
fn cols(v: &[Col]) -> Vec<Vec<Col>> {
    let mut o = vec![];
    for i in 0..v.len() {
        let mut w = v.to_vec();
        w.remove(i);
        o.push(w);
    }
    for i in 0..v.len() {
        if v[i].key != 0 || v[i].ty != 0 {
            let mut w = v.to_vec();
            w[i].key = 0;
            w[i].ty = 0;
            o.push(w);
        }
    }
    o
}
fn no_field(p: &Path) -> Option<Path> {
    p.field.as_ref().map(|_| Path { table: p.table.clone(), field: None })
}
fn ops(o: &Op) -> Vec<Op> {
    match o {
        Op::AddEntity(m, n, c) => cols(c).into_iter().map(|c| Op::AddEntity(*m, n.clone(), c)).collect(),
        Op::MirAddTable(d, n, c) => cols(c).into_iter().map(|c| Op::MirAddTable(*d, n.clone(), c)).collect(),
        Op::NewModule(m, Some(_)) => vec![Op::NewModule(*m, None)],
        Op::AddRelation(m, a, b) => {
            let mut v = vec![];
            if let Some(x) = no_field(a) {
                v.push(Op::AddRelation(*m, x, b.clone()));
            }
            if let Some(x) = no_field(b) {
                v.push(Op::AddRelation(*m, a.clone(), x));
            }
            v
        }
        Op::Parse(m, t) => {
            let mut v = vec![];
            let lines: Vec<&str> = t.split_inclusive('\n').collect();
            if lines.len() > 1 {
                for i in 0..lines.len() {
                    let mut w = lines.clone();
                    w.remove(i);
                    v.push(Op::Parse(*m, w.concat()));
                }
            } else if t.chars().count() <= 60 {
                let c: Vec<char> = t.chars().collect();
                for i in 0..c.len() {
                    let mut w = c.clone();
                    w.remove(i);
                    v.push(Op::Parse(*m, w.into_iter().collect()));
                }
            }
            v
        }
        Op::Render { doc, view, debug, sink } => {
            let mut v: Vec<Op> = scripts(sink).into_iter().map(|s| Op::Render { doc: *doc, view: *view, debug: *debug, sink: s }).collect();
            v.push(Op::Render { doc: *doc, view: *view, debug: crate::lib_ops::NO_ENGINE, sink: sink.clone() });
            v
        }
        Op::Often(k, e, d, n) => [1, n / 2, n.saturating_sub(1)].into_iter().filter(|x| x < n).map(|x| Op::Often(*k, *e, *d, x)).collect(),
        Op::RenderShared { doc, view, sink } => scripts(sink).into_iter().map(|s| Op::RenderShared { doc: *doc, view: *view, sink: s }).collect(),
        _ => vec![],
    }
}

fn lib_round(m: &mut Min) -> Result<bool, String> {
    let mut any = false;
    let put = |f: &dyn Fn(&mut LibRun), k: &Case| {
        let mut l = as_lib(k).clone();
        f(&mut l);
        Case::Library(l)
    };
    for f in [
        &(|l: &mut LibRun| l.preempt.clear()) as &dyn Fn(&mut LibRun),
        &|l| l.picks.clear(),
        &|l| l.yields.clear(),
        &|l| l.sites.clear(),
        &|l| l.atoms.clear(),
        &|l| {
            l.bases = None;
            l.entropy = 0;
        },
        &|l| l.world = None,
        &|l| l.world.iter_mut().for_each(|w| w.jump = Default::default()),
        &|l| l.world.iter_mut().for_each(|w| w.pace = 0),
        &|l| l.spread.clear(),
        &|l| l.spread.iter_mut().for_each(|t| *t = (*t).min(1)),
        &|l| l.out = StreamPlan::default(),
        &|l| l.rounds = l.rounds.min(12),
    ] {
        let k = put(f, &m.best);
        any |= m.take(k)?;
    }
    any |= m.chunks(|k| as_lib(k).threads.clone(), |k, threads| Case::Library(LibRun { threads, ..as_lib(k).clone() }))?;
    any |= m.chunks(|k| as_lib(k).preempt.clone(), |k, preempt| Case::Library(LibRun { preempt, ..as_lib(k).clone() }))?;
    any |= m.chunks(|k| as_lib(k).atoms.clone(), |k, atoms| Case::Library(LibRun { atoms, ..as_lib(k).clone() }))?;
    any |= m.chunks(|k| as_lib(k).sites.clone(), |k, sites| Case::Library(LibRun { sites, ..as_lib(k).clone() }))?;
    any |= m.chunks(|k| as_lib(k).yields.clone(), |k, yields| Case::Library(LibRun { yields, ..as_lib(k).clone() }))?;
    // each operation with its thread
    any |= m.chunks(
        |k| as_lib(k).pre.iter().enumerate().map(|(i, o)| (o.clone(), as_lib(k).spread.get(i).copied().unwrap_or(0))).collect::<Vec<_>>(),
        |k, v| {
            let spread = if as_lib(k).spread.is_empty() { vec![] } else { v.iter().map(|x| x.1).collect() };
            Case::Library(LibRun { pre: v.into_iter().map(|x| x.0).collect(), spread, ..as_lib(k).clone() })
        },
    )?;
    if as_lib(&m.best).world.is_some() {
        any |= m.chunks(
            |k| as_lib(k).world.as_ref().map_or(vec![], |w| w.env.clone()),
            |k, env| Case::Library(LibRun { world: as_lib(k).world.clone().map(|w| World { env, ..w }), ..as_lib(k).clone() }),
        )?;
    }
    any |= m.chunks(|k| as_lib(k).post.clone(), |k, post| Case::Library(LibRun { post, ..as_lib(k).clone() }))?;
    for t in 0..as_lib(&m.best).threads.len() {
        any |= m.chunks(
            |k| as_lib(k).threads[t].clone(),
            |k, ops| {
                let mut l = as_lib(k).clone();
                l.threads[t] = ops;
                Case::Library(l)
            },
        )?;
    }
    let n = as_lib(&m.best).out.sched.len();
    if n > 0 || as_lib(&m.best).out.limit.is_some() {
        let mut i = 0;
        loop {
            let c = streams(&as_lib(&m.best).out);
            if i >= c.len() || m.out() {
                break;
            }
            let k = Case::Library(LibRun { out: c[i].clone(), ..as_lib(&m.best).clone() });
            if m.take(k)? {
                any = true;
            } else {
                i += 1;
            }
        }
    }
    // single operations
    let sections = as_lib(&m.best).threads.len() + 2;
    for s in 0..sections {
        let section = |l: &LibRun| -> Vec<Op> {
            match s {
                0 => l.pre.clone(),
                1 => l.post.clone(),
                _ => l.threads[s - 2].clone(),
            }
        };
        let n = section(as_lib(&m.best)).len();
        for i in 0..n {
            let mut c = 0;
            loop {
                let all = section(as_lib(&m.best));
                let cand = ops(&all[i]);
                if c >= cand.len() || m.out() {
                    break;
                }
                let mut l = as_lib(&m.best).clone();
                let sec = match s {
                    0 => &mut l.pre,
                    1 => &mut l.post,
                    _ => &mut l.threads[s - 2],
                };
                sec[i] = cand[c].clone();
                if m.take(Case::Library(l))? {
                    any = true;
                } else {
                    c += 1;
                }
            }
        }
    }
    Ok(any)
}

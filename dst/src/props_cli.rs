//! C01-C08: the command, its streams, its source and its end.
use crate::cli::{self, Bytes, Damage, Dist, STDIN_NAME};
use crate::ctx::Ctx;
use crate::model::{self, diagram_of, Entry, Shape, Style, Table};
use crate::refparse::{judge, line_col, Stop, Verdict};
use crate::rng::Rng;
use crate::sched;
use crate::sim::{C_THREADS, End, LEN_ERR, Oc, Res, StreamPlan};
use crate::svgx;
use crate::{Bad, Viol};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct CliCase {
    /// the text as it was stored
    pub text: Bytes,
    /// what happened to it before it arrived
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub damage: Vec<Damage>,
    pub runs: Vec<Dist>,
    /// the program as it is built without optimisation
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub plain: bool,
}
impl CliCase {
    pub fn arrived(&self) -> Vec<u8> {
        let mut b = self.text.0.clone();
        for d in &self.damage {
            d.apply(&mut b);
        }
        b
    }
}

// ------------------------------------------------------------------ texts
const BLOG: &str = "erd blog {\n  users {\n    id int PK\n    uuid uuid\n    email text\n    about_html text\n    created_at timestamp\n  }\n\n  posts {\n    id int PK\n    uuid uuid\n    title text\n    content text\n    created_at timestamp\n    created_by int FK\n  }\n\n  comments { id int PK; post_id int FK; body text }\n\n  posts.created_by o--o users.id\n  comments.post_id o--o posts.id\n}\n";

/// The text in another encoding than UTF-8.
fn elsewhere_encoded(r: &mut Rng, t: &str) -> Vec<u8> {
    let bom = r.chance(3, 4);
    let mut b = vec![];
    match r.below(5) {
        0 | 1 => {
            let units = bom.then_some(0xfeff).into_iter().chain(t.encode_utf16());
            units.for_each(|u| b.extend(u.to_le_bytes()));
        }
        2 => {
            let units = bom.then_some(0xfeff).into_iter().chain(t.encode_utf16());
            units.for_each(|u| b.extend(u.to_be_bytes()));
        }
        3 => {
            let le = r.chance(1, 2);
            let chars = bom.then_some(0xfeff).into_iter().chain(t.chars().map(|c| c as u32));
            chars.for_each(|c| b.extend(if le { c.to_le_bytes() } else { c.to_be_bytes() }));
        }
        _ => {
            // one byte for each character
            b.extend(t.chars().map(|c| if (c as u32) < 256 { c as u8 } else { 0x9f }));
            b.push(0xe9);
            b.push(b'\n');
        }
    }
    b
}

pub fn gen_valid(r: &mut Rng) -> String {
    if r.chance(1, 25) {
        return BLOG.to_string();
    }
    if r.chance(1, 250) {
        // a diagram larger than any buffer on its way
        let very = r.chance(1, 8);
        let n = if very { r.range(1000, 4000) } else { r.range(100, 700) };
        let mut t = String::from("erd {\n  wide {\n");
        for i in 0..n {
            t.push_str(&format!("    c{} {}\n", i, model::TYPES[r.below(4)]));
        }
        t.push_str("  }\n  other { a int; b text FK }\n");
        for i in 0..if very { r.below(3) } else { 0 } {
            t.push_str(&format!("  later{} {{ x int\ny uuid }}\n", i));
        }
        for _ in 0..if very { 0 } else { r.below(3) } {
            t.push_str(&format!("  other.b o--o wide.c{}\n", r.below(n)));
        }
        t.push_str("}\n");
        return t;
    }
    let sh = Shape::random(r);
    let p = model::gen_program(r, &sh);
    let st = Style::random(r);
    let t = model::print_program(r, &p, &st);
    if r.chance(1, 200) {
        return pad(r, t);
    }
    t
}
/// One comment, so that the source is a whole number of blocks long, or nearly.
fn whole_blocks(r: &mut Rng, text: String) -> String {
    let block = if r.chance(1, 2) { crate::dict::size(r, 60, 66_000) } else { *r.pick(&[64usize, 512, 1000, 1024, 2048, 4096, 4096, 8192, 8192, 16_384, 32_768, 65_536]) };
    let ahead = r.chance(2, 3);
    let text = if ahead || text.ends_with('\n') { text } else { text + "\n" };
    let text = if ahead && r.chance(1, 2) && text.trim_end().ends_with('}') { text.trim_end().to_string() } else { text };
    let want = (text.len() + 3).div_ceil(block) * block + *r.pick(&[0usize, 0, 0, 1, 1, 2, block - 1]);
    let c = format!("//{}\n", "p".repeat(want - text.len() - 3));
    if ahead {
        c + &text
    } else {
        text + &c
    }
}
/// Comments around the program, so that the source is larger than any buffer on its way.
pub fn pad(r: &mut Rng, text: String) -> String {
    let want = if r.chance(1, 3) { crate::dict::size(r, 500, PAD_MAX) + r.below(3) } else { *r.pick(&[4090usize, 8180, 8192, 8200, 16384, 33000, 66000]) + r.below(40) };
    if r.chance(1, 3) {
        return whole_blocks(r, text);
    }
    let mut head = String::new();
    let mut tail = String::new();
    let line = *r.pick(&["// padding\n", "// 余白 余白 余白\n", "// é𝄞\r\n", "//                                                                 \n"]);
    while head.len() + tail.len() + text.len() < want {
        if r.chance(2, 3) {
            head.push_str(line)
        } else {
            tail.push_str(line)
        }
    }
    let text = if text.ends_with('\n') { text } else { text + "\n" };
    head + &text + &tail
}
const PAD_MAX: usize = 140_000;
/// One comment that is larger than any limit that somebody may have had in mind.
fn pad_far(r: &mut Rng, text: &str) -> String {
    let want = if crate::dict::beyond(PAD_MAX) { crate::dict::size(r, PAD_MAX, crate::dict::LARGEST) } else { *r.pick(&[1 << 18, 1_000_000, 1 << 20, 1 << 21]) } + r.below(40);
    let n = want.saturating_sub(text.len());
    let c = format!("//{}\n", r.pick(&["p", " ", "-"]).repeat(n));
    match r.below(3) {
        0 if text.ends_with('\n') => format!("{}{}", text, c),
        1 => format!("{}\n{}", text, c),
        _ => c + text,
    }
}
/// The same for one in so many texts, more often if the code speaks of such sizes.
fn far(r: &mut Rng, text: &mut Bytes) {
    if r.chance(1, if crate::dict::beyond(PAD_MAX) { 40 } else { 700 }) {
        if let Ok(t) = std::str::from_utf8(&text.0) {
            *text = Bytes(pad_far(r, t).into_bytes());
        }
    }
}
/// A program whose diagram, with `frame` bytes around it, is a whole number of blocks of some size long, or nearly.
pub fn aligned(r: &mut Rng, c: &mut Ctx, frame: usize, room: usize) -> Result<Option<String>, String> {
    const MARK: &str = "zqz";
    let mut sh = Shape::random(r);
    sh.full = false;
    sh.max_tables = sh.max_tables.min(6);
    sh.max_cols = sh.max_cols.min(*r.pick(&[10, 10, 10, 60]));
    sh.max_rels = sh.max_rels.min(4);
    let mut p = model::gen_program(r, &sh);
    p.entries.push(Entry::Table(Table { name: MARK.into(), cols: model::gen_cols(r, &sh) }));
    let st = Style::random(r);
    let t = model::print_program(r, &p, &st);
    let b = c.base(t.as_bytes(), &None)?;
    if t.matches(MARK).count() != 1 || !b.end.success() {
        return Ok(None);
    }
    let block = if r.chance(1, 2) { crate::dict::size(r, 60, 66_000) } else { *r.pick(&[64usize, 256, 512, 1000, 1024, 2048, 4096, 4096, 8192, 8192, 10_000, 16_384, 32_768, 65_536]) };
    let over = *r.pick(&[0usize, 0, 0, 1, 2, block - 1]);
    let n = (block + over % block - (b.out.len() + frame) % block) % block;
    if n > 20_000 || b.out.len() + n > room {
        return Ok(None);
    }
    c.count("diagrams_of_chosen_length");
    Ok(Some(t.replace(MARK, &format!("{}{}", MARK, "q".repeat(n)))))
}
fn some_damage(r: &mut Rng, text: &str, max: usize) -> Vec<Damage> {
    let mut b = text.as_bytes().to_vec();
    let n = r.range(1, max);
    let mut v = vec![];
    for _ in 0..n {
        let d = cli::gen_damage(r, &b);
        d.apply(&mut b);
        v.push(d);
    }
    v
}
fn gen_source(r: &mut Rng, damaged: u32) -> (Bytes, Vec<Damage>) {
    if r.chance(damaged, 100) {
        if r.chance(1, 8) {
            let t = cli::token_soup(r);
            return (Bytes(t), vec![]);
        }
        let t = gen_valid(r);
        let d = some_damage(r, &t, 3);
        (Bytes(t.into_bytes()), d)
    } else {
        (Bytes(gen_valid(r).into_bytes()), vec![])
    }
}
fn maybe_file(r: &mut Rng) -> Option<String> {
    if r.chance(1, 2) {
        Some(cli::gen_file_name(r))
    } else {
        None
    }
}

// ------------------------------------------------------------------ helpers
fn ordinary(e: End) -> bool {
    matches!(e, End::Exit(0) | End::Exit(1))
}
fn viol(class: &str, detail: String) -> Result<(), Bad> {
    Err(Bad::Viol(Viol { class: class.into(), detail }))
}
/// where two byte strings part
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let show = |s: &[u8]| {
        let f = k.saturating_sub(30);
        String::from_utf8_lossy(&s[f.min(s.len())..(k + 30).min(s.len())]).into_owned()
    };
    format!("{} and {} bytes, they part at byte {}: {:?} / {:?}", a.len(), b.len(), k, show(a), show(b))
}
pub fn strip_ansi(b: &[u8]) -> String {
    let s = String::from_utf8_lossy(b);
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for c in it.by_ref() {
                if ('@'..='~').contains(&c) {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}
/// Faults that the command has to absorb without a trace.
fn transient(d: &Dist) -> bool {
    let ok = |s: &StreamPlan| s.limit.is_none() && s.sched.iter().all(|o| !matches!(o, Oc::Err(_) | Oc::Zero));
    ok(&d.read) && ok(&d.out) && ok(&d.err) && d.open_errno == 0 && !d.missing && d.crash_step == 0 && d.crash_io == 0 && d.alloc_fail.is_empty() && d.alloc_fail_from == 0 && d.heap_limit == 0
}
fn err_hard(d: &Dist) -> bool {
    d.err.limit.is_some() || d.err.sched.iter().any(|o| matches!(o, Oc::Err(_) | Oc::Zero))
}

pub fn gen(prop: &str, r: &mut Rng, c: &mut Ctx, thorough: bool) -> Result<CliCase, String> {
    let mut k = gen_runs(prop, r, c, thorough)?;
    if matches!(prop, "C01" | "C02" | "C03" | "C04" | "C08") && r.chance(1, 4) {
        // in other surroundings
        let b = c.base(&k.arrived(), &k.runs.first().and_then(|d| d.file.clone()))?;
        for d in &mut k.runs {
            if r.chance(1, 2) {
                let mut w = cli::gen_world(r);
                w.with(r, &b.asked);
                // what memory it needs may depend on what it is called
                if d.crash_step == 0 && d.alloc_fail.is_empty() && d.alloc_fail_from == 0 && d.heap_limit == 0 {
                    d.world = Some(w);
                }
            }
        }
    }
    threads(prop, r, c, &mut k)?;
    Ok(k)
}
/// If the command starts threads on that text: who runs when.
fn threads(prop: &str, r: &mut Rng, c: &mut Ctx, k: &mut CliCase) -> Result<(), String> {
    let always = matches!(prop, "C01" | "C02" | "C06" | "C08");
    if k.runs.is_empty() || !(always || r.chance(1, 4)) || k.text.0.len() > 20_000 {
        return Ok(());
    }
    let a = k.arrived();
    let b = c.base(&a, &k.runs[0].file.clone())?;
    if b.ctr[C_THREADS] == 0 {
        return Ok(());
    }
    c.count("command_with_threads");
    let mut runs = vec![];
    for d in &k.runs {
        let mut d = d.clone();
        if r.chance(3, 4) {
            sched::before(r, &mut d.sched);
            let b = c.run_cli(&a, &d, "measuring")?;
            sched::choose(r, &b, &mut d.sched);
        }
        runs.push(d);
    }
    k.runs = runs;
    Ok(())
}
fn gen_runs(prop: &str, r: &mut Rng, c: &mut Ctx, thorough: bool) -> Result<CliCase, String> {
    let more = if thorough { 2 } else { 1 };
    Ok(match prop {
        "C01" => {
            let (mut text, damage) = gen_source(r, 15);
            if damage.is_empty() && r.chance(1, 15) {
                let t = String::from_utf8_lossy(&text.0).into_owned();
                text = Bytes(pad(r, t).into_bytes());
            }
            if damage.is_empty() && r.chance(1, 12) {
                if let Some(t) = aligned(r, c, 0, usize::MAX)? {
                    text = Bytes(t.into_bytes());
                }
            }
            let file = maybe_file(r);
            let mut k = CliCase { text, damage, ..CliCase::default() };
            let a = k.arrived();
            let b = c.base(&a, &file)?;
            for _ in 0..r.range(3, 8) * more {
                let mut d = Dist { file: file.clone(), ..Dist::default() };
                match r.below(14) {
                    0..=2 => d.out = cli::transient_writes(r),
                    3..=6 => d.out = cli::hard_writes(r, b.out.len()),
                    7 => d.crash_step = 1 + r.next() % b.steps.max(1),
                    8 => d.crash_step = b.steps.saturating_sub(r.skewed(200_000) as u64).max(1),
                    9 | 10 => {
                        d.crash_io = 2 + r.below(2 * b.ios as usize) as u64;
                        if r.chance(1, 2) {
                            d.out = cli::transient_writes(r);
                            d.crash_io += r.below(30) as u64;
                        }
                    }
                    11 => d.alloc_fail = vec![1 + r.next() % b.allocs.max(1)],
                    12 => d.alloc_fail_from = 1 + r.next() % b.allocs.max(1),
                    _ => d.heap_limit = 1 + r.next() % b.max_heap.max(1),
                }
                if r.chance(1, 6) {
                    d.read = cli::transient_reads(r, a.len().min(4000));
                }
                if r.chance(1, 10) {
                    d.err = cli::transient_writes(r);
                }
                k.runs.push(d);
            }
            k
        }
        "C02" => {
            let (mut text, damage) = gen_source(r, 30);
            if r.chance(1, 6) {
                if let Ok(t) = String::from_utf8(text.0.clone()) {
                    text = Bytes(pad(r, t).into_bytes());
                }
            }
            if damage.is_empty() {
                far(r, &mut text);
            }
            let mut k = CliCase { text, damage, ..CliCase::default() };
            let len = k.arrived().len();
            for i in 0..r.range(2, 5) * more {
                let mut d = Dist::default();
                if r.chance(1, 2) {
                    d.file = Some(if r.chance(1, 2) { STDIN_NAME.into() } else { cli::gen_file_name(r) });
                    if r.chance(1, 3) {
                        d.open_eintr = r.range(1, 3) as u32;
                    }
                    if r.chance(1, 2) {
                        d.stat_size = Some(match r.below(6) {
                            0 => 0,
                            1 => r.below(len + 1) as u64,
                            2 => len as u64 + 1,
                            3 => (len / 2) as u64,
                            4 => len as u64 + r.skewed(3_000_000) as u64,
                            _ => len.saturating_sub(1) as u64,
                        });
                    }
                }
                if i == 0 || !r.chance(1, 5) {
                    d.read = cli::transient_reads(r, len);
                }
                if d.file.is_some() && r.chance(1, 4) {
                    // somebody replaces the file meanwhile
                    let b = if r.chance(1, 3) {
                        gen_valid(r).into_bytes()
                    } else {
                        let mut b = k.arrived();
                        cli::gen_damage(r, &b).apply(&mut b);
                        b
                    };
                    d.later = Some((1 + r.skewed(12) as u64, Bytes(b)));
                }
                k.runs.push(d);
            }
            k
        }
        "C03" => {
            let (mut text, damage) = gen_source(r, 15);
            if damage.is_empty() {
                far(r, &mut text);
            }
            let mut k = CliCase { text, damage, ..CliCase::default() };
            if r.chance(1, 20) {
                // a text as other systems write it down
                let t = std::mem::take(&mut k.text);
                k.damage = vec![Damage::Foreign { at: 0, bytes: Bytes(elsewhere_encoded(r, &String::from_utf8_lossy(&t.0))) }];
                for _ in 0..r.range(1, 3) {
                    k.runs.push(Dist { file: maybe_file(r), ..Dist::default() });
                }
                return Ok(k);
            }
            let a = k.arrived();
            if r.chance(1, 3) {
                // bytes that are no text
                let bad: &[&[u8]] = &[
                    b"\xff", b"\xc3", b"\x80", b"\xe3\x81", b"\xf0\x9f\x98", b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xfe\xff", b"\xe3\x81\n", b"\xc3(",
                ];
                let bytes = Bytes(r.pick(bad).to_vec());
                let at = match r.below(4) {
                    0 => 0,
                    1 => a.len(),
                    _ => r.below(a.len() + 1),
                };
                k.damage.push(if r.chance(1, 4) && bytes.0.len() < 3 { Damage::Replace { at, bytes } } else { Damage::Foreign { at, bytes } });
                for _ in 0..r.range(1, 3) {
                    let mut d = Dist { file: maybe_file(r), ..Dist::default() };
                    if r.chance(2, 3) {
                        d.read = cli::transient_reads(r, a.len());
                    }
                    k.runs.push(d);
                }
                return Ok(k);
            }
            for _ in 0..r.range(2, 5) * more {
                let file = maybe_file(r);
                let mut d = Dist { file: file.clone(), ..Dist::default() };
                match r.below(10) {
                    0 | 1 if file.is_some() => d.open_errno = *r.pick(&cli::OPEN_ERRNO),
                    2 if file.is_some() => d.missing = true,
                    3 | 4 => {
                        let b = c.base(&a, &file)?;
                        let n = b.allocs_at_read.max(1);
                        match r.below(3) {
                            0 => d.alloc_fail = vec![n.saturating_sub(r.below(12) as u64).max(1)],
                            1 => d.alloc_fail = vec![1 + r.next() % n],
                            _ => d.alloc_fail_from = 1 + r.next() % n,
                        }
                    }
                    5 => {
                        // a call fails once, whatever follows would have succeeded
                        d.read = cli::transient_reads(r, a.len());
                        let n = d.read.sched.len();
                        let k = r.below(n + 1);
                        d.read.sched.insert(k, Oc::Err(*r.pick(&cli::READ_ERRNO)));
                    }
                    _ => {
                        if r.chance(1, 2) {
                            d.read = cli::transient_reads(r, a.len());
                        }
                        let at = match r.below(5) {
                            0 => 0,
                            1 => a.len(),
                            2 => a.len().saturating_sub(r.range(1, 3)),
                            _ => r.below(a.len() + 1),
                        };
                        d.read.limit = Some((at as u64, *r.pick(&cli::READ_ERRNO)));
                    }
                }
                d.decoys = d.file.is_some() && r.chance(1, 2);
                k.runs.push(d);
            }
            k
        }
        "C04" => {
            let (mut text, mut damage) = gen_source(r, 70);
            if damage.is_empty() {
                let n = text.0.len();
                far(r, &mut text);
                if text.0.len() > n && r.chance(1, 2) {
                    damage.push(Damage::Foreign { at: text.0.len(), bytes: Bytes(b"x".to_vec()) });
                }
                if r.chance(1, 20) {
                    if let Ok(t) = String::from_utf8(text.0.clone()) {
                        let mut t = whole_blocks(r, t);
                        if r.chance(1, 3) {
                            // and the last character another one
                            t.pop();
                            t.push(*r.pick(&['x', '{', '`', ' ', '/']));
                        }
                        text = Bytes(t.into_bytes());
                    }
                }
                if r.chance(1, 25) {
                    if let Some(t) = aligned(r, c, 0, usize::MAX)? {
                        text = Bytes(t.into_bytes());
                        damage.clear();
                    }
                }
            }
            let mut k = CliCase { text, damage, ..CliCase::default() };
            let file = maybe_file(r);
            k.runs.push(Dist { file: file.clone(), ..Dist::default() });
            if r.chance(1, 3) {
                let mut d = Dist { file, ..Dist::default() };
                d.err = cli::hard_writes(r, 600);
                k.runs.push(d);
            }
            k
        }
        "C05" => {
            let k_plain = r.chance(1, 8000);
            let (text, damage) = if k_plain { (gen_trivia(r, &[100_000, 140_000]), vec![]) } else if r.chance(1, 12) { gen_large(r, thorough) } else { gen_source(r, 60) };
            let mut d = Dist { file: if r.chance(1, 8) { maybe_file(r) } else { None }, ..Dist::default() };
            if r.chance(1, 6) {
                let b = c.base(&CliCase { text: text.clone(), damage: damage.clone(), ..CliCase::default() }.arrived(), &d.file)?;
                let mut w = cli::gen_world(r);
                w.with(r, &b.asked);
                d.world = Some(w);
            }
            CliCase { text, damage, plain: k_plain, runs: vec![d] }
        }
        "C06" => {
            let (text, damage) = gen_source(r, 45);
            let mut k = CliCase { text, damage, ..CliCase::default() };
            let file = maybe_file(r);
            let b = c.base(&k.arrived(), &file)?;
            for _ in 0..r.range(2, 5) * more {
                let mut w = cli::gen_world(r);
                w.with(r, &b.asked);
                k.runs.push(Dist { file: file.clone(), world: Some(w), decoys: r.chance(1, 2), ..Dist::default() });
            }
            k
        }
        "C07" => {
            let (mut text, damage) = gen_source(r, 40);
            if damage.is_empty() {
                far(r, &mut text);
            }
            let mut k = CliCase { text, damage, ..CliCase::default() };
            let a = k.arrived();
            for _ in 0..r.range(2, 5) * more {
                let mut d = Dist { file: maybe_file(r), ..Dist::default() };
                d.decoys = r.chance(1, 2);
                if r.chance(1, 2) {
                    d.world = Some(cli::gen_world(r));
                }
                if r.chance(1, 3) {
                    d.read = cli::transient_reads(r, a.len());
                }
                if r.chance(1, 3) {
                    d.out = cli::hard_writes(r, 4000);
                }
                if r.chance(1, 4) {
                    d.err = cli::hard_writes(r, 400);
                }
                if d.file.is_some() && r.chance(1, 6) {
                    if r.chance(1, 2) {
                        d.missing = true
                    } else {
                        d.open_errno = *r.pick(&cli::OPEN_ERRNO)
                    }
                }
                if r.chance(1, 6) {
                    d.read.limit = Some((r.below(a.len() + 1) as u64, *r.pick(&cli::READ_ERRNO)));
                }
                if r.chance(1, 10) {
                    d.alloc_fail = vec![1 + r.below(4000) as u64];
                }
                if r.chance(1, 10) && d.file.is_some() {
                    d.extra_args = vec![r.pick(&["-o", "out.svg", "--help", "second.seiren", "--output=x.svg"]).to_string()];
                }
                k.runs.push(d);
            }
            k
        }
        "C08" => {
            let (text, damage) = gen_source(r, 92);
            let mut k = CliCase { text, damage, ..CliCase::default() };
            let file = maybe_file(r);
            k.runs.push(Dist { file: file.clone(), ..Dist::default() });
            for _ in 0..r.range(0, 2) {
                let mut d = Dist { file: file.clone(), ..Dist::default() };
                d.err = if r.chance(1, 2) { cli::transient_writes(r) } else { cli::hard_writes(r, 900) };
                if r.chance(1, 4) {
                    d.out = cli::transient_writes(r);
                }
                k.runs.push(d);
            }
            k
        }
        _ => return Err(format!("no such property {}", prop)),
    })
}

/// Very much of what means nothing, before, after or inside a small program.
fn gen_trivia(r: &mut Rng, sizes: &[usize]) -> Bytes {
    let n = *r.pick(sizes) + r.below(100);
    let u = *r.pick(&["\n", "// x\n", " \n", "\r\n", " ", "//", "; ", "\t", "x"]);
    let mut t = vec!["erd { a { b int; c text }", "\n", "a.b o--o a.c }"];
    let fill = u.repeat(n / u.len());
    t.insert(r.below(t.len() + 1), &fill);
    Bytes(t.concat().into_bytes())
}
/// Sources at the large end: many tables, many relations, long words, many errors.
fn gen_large(r: &mut Rng, thorough: bool) -> (Bytes, Vec<Damage>) {
    let f = if thorough { 2 } else { 1 };
    if r.chance(1, 40) {
        return (gen_trivia(r, &[40_000, 70_000, 140_000, 300_000 * f]), vec![]);
    }
    match r.below(5) {
        0 => {
            let sh = Shape { max_tables: 16 * f, max_cols: 5, max_rels: 20 * f, wild: 5, dup: 5, dangling: 10, table_ends: 20, alike: None, mark: false, full: false };
            let p = model::gen_program(r, &sh);
            let st = Style::random(r);
            let t = model::print_program(r, &p, &st);
            let d = if r.chance(1, 2) { some_damage(r, &t, 2) } else { vec![] };
            (Bytes(t.into_bytes()), d)
        }
        1 => {
            // one table with very many columns, related to itself and another
            let n = r.range(30, 60 * f);
            let mut t = String::from("erd {\n big {\n");
            for i in 0..n {
                t.push_str(&format!("c{} int\n", i));
            }
            t.push_str("}\n small { a int }\n");
            for _ in 0..r.range(1, 6) {
                let (a, b) = (r.below(n), r.below(n));
                let l = match r.below(4) {
                    0 => format!("big.c{} o--o small.a\n", a),
                    1 => format!("small o--o big.c{}\n", a),
                    2 => format!("big.c{} o--o big.c{}\n", a, b),
                    _ => "big o--o small\n".to_string(),
                };
                t.push_str(&l);
            }
            t.push('}');
            (Bytes(t.into_bytes()), vec![])
        }
        2 => {
            let n = r.range(500, 3000 * f);
            let u = *r.pick(&["{", "}", "a", "`", "\\", ";", "\n", "a.", "o--o ", "erd ", "a{", "日", "\u{0}", "int ", "//", "-", "\r"]);
            let mut t = String::from(*r.pick(&["", "erd {", "erd { a {", "erd { a { b int"]));
            t.push_str(&u.repeat(n / u.len().max(1)));
            (Bytes(t.into_bytes()), vec![])
        }
        3 => {
            let n = r.range(100, 1500 * f);
            let name: String = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect();
            let t = format!("erd {{\n {} {{ {} int }}\n b {{ c int }}\n {}.{} o--o b.c\n}}", name, name, name, name);
            let d = if r.chance(1, 2) { some_damage(r, &t, 2) } else { vec![] };
            (Bytes(t.into_bytes()), d)
        }
        _ => {
            // many broken lines
            let n = r.range(20, 120 * f);
            let mut t = String::from("erd {\n");
            for i in 0..n {
                t.push_str(&match r.below(5) {
                    0 => format!("t{} {{ a int b }}\n", i),
                    1 => format!("t{} o-- t{}\n", i, i),
                    2 => "@ # $\n".to_string(),
                    3 => format!("t{} {{ a int }}\n", i),
                    _ => "`\\q`\n".to_string(),
                });
            }
            t.push('}');
            (Bytes(t.into_bytes()), vec![])
        }
    }
}

// ------------------------------------------------------------------ checks
pub fn check(prop: &str, k: &CliCase, c: &mut Ctx) -> Result<(), Bad> {
    let a = k.arrived();
    let mut before = k.text.0.clone();
    for d in &k.damage {
        let was = before.clone();
        d.apply(&mut before);
        if was != before {
            c.count(&format!("damage_{}", d.name()));
        }
    }
    match prop {
        "C01" => {
            for (i, d) in k.runs.iter().enumerate() {
                let b = c.base(&a, &d.file)?;
                if !ordinary(b.end) {
                    return Ok(());
                }
                if i == 0 && b.end.success() {
                    if let Err(e) = svgx::parse_xml(&b.out) {
                        return viol("no-whole-diagram", format!("success without any fault, and what arrived is no whole diagram: {}", e));
                    }
                }
                c.limit = Some(b.steps * 20 + 100_000_000);
                let r = c.run_cli(&a, d, &format!("run {}", i))?;
                c.limit = None;
                prefix(&r, &b)?;
                if r.end.success() && r.out != b.out {
                    return viol("success-without-diagram", format!("run {} reports success, but the sink holds {} of {} bytes", i, r.out.len(), b.out.len()));
                }
                if transient(d) {
                    if r.out != b.out {
                        return viol("lost-under-transient-faults", format!("run {}: only short, interrupted or slow calls, yet the output differs: {}", i, diff(&b.out, &r.out)));
                    }
                    if r.end != b.end {
                        return viol("failed-under-transient-faults", format!("run {}: only short, interrupted or slow calls, yet {} instead of {}", i, r.end.text(), b.end.text()));
                    }
                }
            }
            Ok(())
        }
        "C02" => {
            let b = c.base(&a, &None)?;
            if !ordinary(b.end) {
                return Ok(());
            }
            for (i, d) in k.runs.iter().enumerate() {
                c.limit = Some(b.steps * 20 + 100_000_000 + 3000 * a.len() as u64);
                let r = c.run_cli(&a, d, &format!("run {}", i))?;
                c.limit = None;
                let Err(e) = like(&a, &r, &b, d, i) else { continue };
                if let Some((_, t)) = &d.later {
                    // the new file, as a whole, is as good
                    c.count("source_replaced");
                    let b = c.base(&t.0, &None)?;
                    if !ordinary(b.end) || like(&t.0, &r, &b, d, i).is_ok() {
                        continue;
                    }
                }
                return Err(e);
            }
            Ok(())
        }
        "C03" => {
            let text_ok = std::str::from_utf8(&a).is_ok();
            for (i, d) in k.runs.iter().enumerate() {
                let alloc = !d.alloc_fail.is_empty() || d.alloc_fail_from > 0;
                let r = c.run_cli(&a, d, &format!("run {}", i))?;
                let failed = [2usize, 14].iter().any(|x| r.ctr[*x] > 0) || d.missing;
                if text_ok && !failed && !(alloc && r.ctr[16] > 0) {
                    continue; // the fault did not meet the run
                }
                if alloc && text_ok && !failed {
                    let b = c.base(&a, &d.file)?;
                    if r.end == b.end && r.out == b.out {
                        continue; // it got by without that memory
                    }
                }
                if !r.out.is_empty() {
                    return viol("drew-an-unreadable-source", format!("run {}: {} bytes on standard output ({})", i, r.out.len(), r.end.text()));
                }
                if r.end.success() {
                    return viol("unreadable-source-succeeds", format!("run {}: success", i));
                }
                if matches!(r.end, End::StepLimit | End::Deadlock | End::Hung) {
                    return viol("unreadable-source-hangs", format!("run {}: {}", i, r.end.text()));
                }
                if !alloc && r.err.is_empty() {
                    return viol("unreadable-source-unreported", format!("run {}: {}, standard error is empty", i, r.end.text()));
                }
            }
            Ok(())
        }
        "C04" => {
            let text = match std::str::from_utf8(&a) {
                Ok(t) => t,
                Err(_) => return Ok(()),
            };
            let v = judge(text);
            c.count(match &v {
                Verdict::Program(_) => "verdict_program",
                Verdict::Wide(_) => "verdict_undocumented_separators",
                Verdict::Refused(_) => "verdict_refused",
                Verdict::Unknown => "verdict_undecided",
            });
            for (i, d) in k.runs.iter().enumerate() {
                let r = c.run_cli(&a, d, &format!("run {}", i))?;
                if !ordinary(r.end) && !err_hard(d) {
                    return Ok(()); // C05
                }
                let good = r.end.success();
                if good && !r.err.is_empty() {
                    return viol("success-with-diagnostics", format!("run {} succeeds, and says {:?}", i, head(&r.err)));
                }
                match &v {
                    Verdict::Program(_) if !good => {
                        return viol("valid-program-refused", format!("run {}: {}, {:?}", i, r.end.text(), head(&r.err)));
                    }
                    Verdict::Refused(_) if good => {
                        return viol("invalid-text-accepted", format!("run {} succeeds on a text that is no program", i));
                    }
                    _ => {}
                }
                if !good && !err_hard(d) && r.err.is_empty() {
                    return viol("failure-without-diagnostics", format!("run {}: {}, standard error is empty", i, r.end.text()));
                }
                if let (Verdict::Program(p) | Verdict::Wide(p), true) = (&v, good) {
                    let dg = diagram_of(p);
                    let x = svgx::decode(&r.out).and_then(|dr| {
                        svgx::faithful(&dr, &dg)?;
                        Ok(dr)
                    });
                    let dr = match x {
                        Err(e) => return viol("diagram-of-another-program", format!("run {}: {}", i, e)),
                        Ok(dr) => dr,
                    };
                    if let Err(e) = svgx::geometry(&dr, &dg) {
                        return viol("diagram-not-readable", format!("run {}: {}", i, e));
                    }
                }
            }
            Ok(())
        }
        "C05" => {
            c.use_plain = k.plain;
            for d in &k.runs {
                let r = c.run_cli(&a, d, "run")?;
                let n = a.len() as u64 + 200;
                let room = 32_000_000 + 2000 * n + 10 * n * n;
                if r.max_heap > room {
                    return viol("memory", format!("{} bytes in use at once for a text of {} bytes", r.max_heap, a.len()));
                }
                match r.end {
                    End::Exit(0) | End::Exit(1) => {}
                    End::Exit(101) => return viol("panic", format!("exit status 101: {:?}", head(&r.err))),
                    e => return viol("abnormal-end", format!("{} after {} steps on {} bytes: {:?}", e.text(), r.steps, a.len(), head(&r.err))),
                }
            }
            Ok(())
        }
        "C06" => {
            for (i, d) in k.runs.iter().enumerate() {
                let b = c.base(&a, &d.file)?;
                let r = c.run_cli(&a, d, &format!("world {}", i))?;
                if r.end != b.end {
                    return viol("status-varies", format!("world {}: {} instead of {}", i, r.end.text(), b.end.text()));
                }
                if r.out != b.out {
                    return viol("diagram-varies", format!("world {}: {}", i, diff(&b.out, &r.out)));
                }
                if r.err != b.err && ordinary(b.end) {
                    return viol("diagnostics-vary", format!("world {}: {}", i, diff(&b.err, &r.err)));
                }
            }
            Ok(())
        }
        "C07" => {
            for (i, d) in k.runs.iter().enumerate() {
                let r = c.run_cli(&a, d, &format!("run {}", i))?;
                let bad = &r.forbidden;
                if !bad.is_empty() {
                    return viol("forbidden-effect", format!("run {}: {:?}", i, bad));
                }
            }
            Ok(())
        }
        "C08" => {
            let text = match std::str::from_utf8(&a) {
                Ok(t) => t,
                Err(_) => return Ok(()),
            };
            let v = judge(text);
            for (i, d) in k.runs.iter().enumerate() {
                let b = c.base(&a, &d.file)?;
                if !ordinary(b.end) {
                    return Ok(());
                }
                let r = if d.is_quiet() { b.clone() } else { c.run_cli(&a, d, &format!("run {}", i))? };
                prefix(&r, &b)?;
                if err_hard(d) || r.err.len() >= LEN_ERR {
                    continue;
                }
                if let Verdict::Refused(Some(s)) = &v {
                    c.count("located_errors");
                    let said = strip_ansi(&r.err);
                    if !names_place(&said, d.name(), text, *s) {
                        let (l, col) = line_col(text, s.from);
                        return viol("damage-not-located", format!("run {}: the text stops being a program at {}:{}:{}; said: {}", i, d.name(), l, col, head(said.as_bytes())));
                    }
                }
            }
            Ok(())
        }
        _ => Err(Bad::Harness(format!("no such property {}", prop))),
    }
}

/// The run `r` of `d` does what the undisturbed run `b` of the same text on standard input does.
fn like(a: &[u8], r: &Res, b: &Res, d: &Dist, i: usize) -> Result<(), Bad> {
    let how = if d.file.is_some() { "file" } else { "standard input" };
    if r.end != b.end {
        return viol("status-depends-on-arrival", format!("run {} ({}): {} instead of {}", i, how, r.end.text(), b.end.text()));
    }
    if r.out != b.out {
        return viol("diagram-depends-on-arrival", format!("run {} ({}): {}", i, how, diff(&b.out, &r.out)));
    }
    let same = match d.file.as_deref() {
        // no text at all: how the failure is worded is left open
        _ if std::str::from_utf8(a).is_err() => r.err.is_empty() == b.err.is_empty(),
        None | Some(STDIN_NAME) => r.err == b.err,
        _ if r.err.len().max(b.err.len()) >= LEN_ERR => true,
        Some(n) => {
            let x = strip_ansi(&r.err).replace(&format!("[{}:", n), &format!("[{}:", STDIN_NAME));
            x == strip_ansi(&b.err)
        }
    };
    if !same {
        return viol("diagnostics-depend-on-arrival", format!("run {} ({}): {}", i, how, diff(&b.err, &r.err)));
    }
    Ok(())
}
fn prefix(r: &Res, b: &Res) -> Result<(), Bad> {
    if !b.out.starts_with(&r.out) {
        return viol("output-not-a-prefix", diff(&b.out, &r.out));
    }
    Ok(())
}
fn head(b: &[u8]) -> String {
    strip_ansi(b).chars().take(300).collect()
}
fn names_place(said: &str, name: &str, text: &str, s: Stop) -> bool {
    let at = |l: usize, c: usize| said.contains(&format!("[{}:{}:{}]", name, l, c));
    let n = text.chars().count();
    (s.from..=s.to).any(|p| {
        let (l, c) = line_col(text, p);
        // the end after a final line feed is also the end of the line before
        let end = p >= n && text.ends_with('\n') && {
            let (l, c) = line_col(text, n - 1);
            at(l, c) || at(l, c + 1)
        };
        at(l, c) || end
    })
}

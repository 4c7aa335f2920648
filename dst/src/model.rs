//! The reference model of programs and diagrams: plain data, no layout, no code under test.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};

pub const TYPES: [&str; 4] = ["int", "uuid", "text", "timestamp"];
pub const KEYS: [&str; 3] = ["", "PK", "FK"];

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Col {
    pub name: String,
    pub ty: u8,
    pub key: u8,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Table {
    pub name: String,
    pub cols: Vec<Col>,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Path {
    pub table: String,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub field: Option<String>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Entry {
    Table(Table),
    Rel(Path, Path),
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Program {
    pub name: Option<String>,
    pub entries: Vec<Entry>,
}

/// A table's row: 0 is the header, k the k-th column; None is the table as a whole.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct End {
    pub table: usize,
    pub row: Option<usize>,
}
/// One relation: each end is one of those named.
#[derive(Clone, Debug, PartialEq)]
pub struct Rel {
    pub a: Vec<End>,
    pub b: Vec<End>,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Diagram {
    pub tables: Vec<Table>,
    pub rels: Vec<Rel>,
}

fn lookup(tables: &[Table], p: &Path) -> Vec<End> {
    let mut v = vec![];
    for (ti, t) in tables.iter().enumerate() {
        if t.name != p.table {
            continue;
        }
        match &p.field {
            None => v.push(End { table: ti, row: None }),
            Some(f) => {
                for (ci, c) in t.cols.iter().enumerate() {
                    if c.name == *f {
                        v.push(End { table: ti, row: Some(ci + 1) });
                    }
                }
            }
        }
    }
    // the latest declaration is meant
    v.split_off(v.len().saturating_sub(1))
}

/// Relations between ends that were declared before them; others are not part of the diagram.
pub fn diagram_of(p: &Program) -> Diagram {
    let mut d = Diagram::default();
    for e in &p.entries {
        match e {
            Entry::Table(t) => d.tables.push(t.clone()),
            Entry::Rel(a, b) => {
                let a = lookup(&d.tables, a);
                let b = lookup(&d.tables, b);
                if !a.is_empty() && !b.is_empty() {
                    d.rels.push(Rel { a, b });
                }
            }
        }
    }
    d
}

// ------------------------------------------------------------------ generation
const PLAIN: [&str; 34] = [
    "users", "posts", "comments", "tags", "id", "uuid_", "email", "name", "created_at", "user_id", "post_id", "a", "b", "c", "x1", "_", "_p",
    "integer", "texture", "timestamps", "PKey", "FKs", "erdx", "oo", "o", "intPK", "Z9_", "int2", "T", "very_long_identifier_that_goes_on_and_on_0123456789",
    "tag_id", "k1", "k2", "k3",
];
const WILD: [&str; 42] = [
    "int", "erd", "PK", "two words", "a.b", "a;b", "{", "}", "<b>", "a&b", "\"q\"", "'", "naïve", "日本語", "𝄞clef", "e\u{301}", "//no comment",
    "o--o", "tab\there", "line\nbreak", "back`tick", "back\\slash", "]]>", "&lt;", "<!--", "x=\"1\"", "ß", "\u{7f}", "\u{85}", "\u{2028}", "\u{feff}",
    "cr\rlf", "\u{1}ctl", "\u{0}", "\u{fffd}", "\u{ffff}", "  pad  ", "", "-", "%s{}", "\u{8}\u{c}", "</svg>",
];

/// Small sets of names that are easily mistaken for each other.
const ALIKE: [&[&str]; 14] = [
    &["a", "b", "a.b", "b.a", "a.b.a", "b.a.b"],
    &["a", "b", "c", "a.b", "b.c", "a.b.c", "."],
    &["users", "Users", "USERS", "user", "id", "ID", "Id"],
    &["a", "A", "b", "B"],
    &["a", "b", "c"],
    &["x", "x1", "x11", "x_1", "x_", "_x", "1x"],
    &["\u{e9}", "e\u{301}", "e", "E", "\u{c9}"],
    &["a", "", "_", "a_", "a.", ".a"],
    &["ab", "a", "b", "abb", "bb", "aab", "abab"],
    &["a/b", "a", "b", "a:b", "a::b", "a->b", "a b", "a#b", "a\u{0}b", "a,b", "a|b"],
    &["int", "Int", "INT", "int ", "PK", "pk", "erd", "text", "o--o"],
    &["stra\u{df}e", "strasse", "STRASSE", "\u{212a}", "k", "K", "\u{130}", "i", "I", "\u{131}"],
    // the same letters in another order, and others that add up to the same
    &["\u{e9}ab", "ab\u{e9}", "b\u{e9}a", "ba\u{e9}", "\u{ea}aa", "\u{e8}bb", "\u{e9}b", "b\u{e9}", "a\u{ea}", "c\u{e8}"],
    &["abc", "acb", "bca", "cab", "cba", "bbb", "ac", "ca", "bb"],
];

#[derive(Clone, Copy)]
pub struct Shape {
    pub max_tables: usize,
    pub max_cols: usize,
    pub max_rels: usize,
    pub wild: u32,     // per cent
    pub dup: u32,      // per cent: reuse a name although it was used
    pub dangling: u32, // per cent
    pub table_ends: u32,
    /// all names come from one of the sets of names alike
    pub alike: Option<usize>,
    /// every name carries the mark that the guest changes from round to round
    pub mark: bool,
    /// as many of everything as allowed
    pub full: bool,
}
pub const MARK: &str = "zq00";
impl Shape {
    /// tables much taller than everything else
    pub fn tall(r: &mut Rng) -> Shape {
        Shape {
            max_tables: r.range(2, 5),
            max_cols: r.range(40, 95),
            max_rels: r.range(1, 6),
            wild: 0,
            dup: 0,
            dangling: 0,
            table_ends: *r.pick(&[0, 15, 50]),
            alike: None,
            mark: false,
            full: false,
        }
    }
    pub fn random(r: &mut Rng) -> Shape {
        let mut full = false;
        let (max_tables, max_cols, max_rels) = match r.below(48) {
            // beyond 100, 128, 256 of something
            7 if r.chance(1, 6) => {
                full = true;
                let n = if r.chance(1, 2) { crate::dict::size(r, 7, 300) } else { *r.pick(&[90, 105, 130, 260, 270]) };
                // far beyond
                let far = if r.chance(1, 4) { crate::dict::size(r, 300, 2000) } else { r.range(300, 600) << r.below(2) };
                if r.chance(1, 4) {
                    *r.pick(&[(far.min(340), 1, 0), (1, far, 1), (1, far * 4, 0), (4, far / 2, 2)])
                } else {
                    *r.pick(&[(n, 1, 2), (n, 0, 0), (2, n, 3), (3, 2, n), (20, 20, 0), (12, 3, 60)])
                }
            }
            0..=3 => (r.range(5, 14), r.range(1, 12), r.range(0, 16)),
            4 => (r.range(15, 40), 2, r.range(0, 3)),      // many tables
            5 => (3, r.range(13, 70), r.range(0, 4)),      // long tables
            6 => (r.range(2, 5), 3, r.range(17, 48)),      // many relations
            _ => (r.range(0, 6), r.range(0, 6), r.range(0, 7)),
        };
        Shape {
            max_tables,
            max_cols,
            max_rels,
            wild: *r.pick(&[0, 0, 10, 40]),
            dup: *r.pick(&[0, 0, 0, 15]),
            dangling: *r.pick(&[0, 0, 20]),
            table_ends: *r.pick(&[0, 15, 50]),
            alike: if r.chance(1, 6) { Some(r.below(ALIKE.len())) } else { None },
            mark: false,
            full,
        }
    }
}

pub fn gen_name(r: &mut Rng, wild: u32) -> String {
    if r.chance(1, 150) {
        // long, with a beginning or an end shared by others
        let n = if r.chance(1, 2) { crate::dict::size(r, 7, 5000) } else { *r.pick(&[31usize, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) };
        let mut s: String = (0..n).map(|i| if wild > 0 && i % 7 == 3 { '\u{e9}' } else { (b'a' + (i % 23) as u8) as char }).collect();
        if r.chance(1, 2) {
            s.push(*r.pick(b"xyz") as char);
        }
        return s;
    }
    if r.chance(1, 60) {
        let w = crate::dict::word(r);
        if wild > 0 || crate::refparse::is_ident(&w) && !crate::refparse::is_keyword(&w) {
            return w;
        }
    }
    if r.chance(wild, 100) {
        if r.chance(1, 3) {
            let n = r.range(0, 6);
            (0..n).map(|_| gen_char(r)).collect()
        } else {
            r.pick(&WILD).to_string()
        }
    } else if r.chance(1, 3) {
        let n = r.range(1, 5);
        let mut s = String::new();
        for i in 0..n {
            let set: &[u8] = if i == 0 { b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_" } else { b"abcxyzABCXYZ_0123456789" };
            s.push(*r.pick(set) as char);
        }
        if crate::refparse::is_keyword(&s) {
            s.push('_');
        }
        s
    } else {
        r.pick(&PLAIN).to_string()
    }
}
fn gen_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(6) {
            0 => r.range(0x20, 0x7e) as u32,
            1 => r.range(0, 0x1f) as u32,
            2 => r.range(0x80, 0x7ff) as u32,
            3 => r.range(0x800, 0xffff) as u32,
            4 => r.range(0x10000, 0x10ffff) as u32,
            _ => *r.pick(b"<>&\"'`\\;.{}/o- ") as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
    }
}

impl Shape {
    fn name(&self, r: &mut Rng) -> String {
        match self.alike {
            Some(k) => r.pick(ALIKE[k]).to_string(),
            None => gen_name(r, self.wild),
        }
    }
    fn plain(&self, r: &mut Rng) -> String {
        match self.alike {
            Some(_) => self.name(r),
            None => gen_name(r, 0),
        }
    }
}

pub fn gen_cols(r: &mut Rng, sh: &Shape) -> Vec<Col> {
    let n = r.range(if sh.full { sh.max_cols } else { 0 }, sh.max_cols);
    let mut cols: Vec<Col> = vec![];
    for _ in 0..n {
        let mut name = sh.name(r);
        if !r.chance(sh.dup, 100) {
            let mut k = 0;
            while cols.iter().any(|c| c.name == name) {
                k += 1;
                name = if k < 4 { sh.name(r) } else { format!("{}{}", gen_name(r, 0), k) };
            }
        }
        cols.push(Col { name, ty: r.below(4) as u8, key: *r.pick(&[0, 0, 0, 1, 2]) });
    }
    cols
}

pub fn gen_program(r: &mut Rng, sh: &Shape) -> Program {
    let mut p = Program { name: None, entries: vec![] };
    if r.chance(1, 3) {
        p.name = Some(gen_name(r, sh.wild));
    }
    let n_tables = r.range(if sh.full { sh.max_tables } else { 0 }, sh.max_tables);
    let n_rels = r.range(if sh.full { sh.max_rels } else { 0 }, sh.max_rels);
    let mut tables: Vec<Table> = vec![];
    let late = r.chance(1, 2); // relations after all tables, or mixed
    let mut rels_left = n_rels;
    for _ in 0..n_tables {
        let mut name = sh.name(r);
        if !r.chance(sh.dup, 100) {
            let mut k = 0;
            while tables.iter().any(|t| t.name == name) {
                k += 1;
                name = if k < 4 { sh.name(r) } else { format!("{}{}", gen_name(r, 0), k) };
            }
        }
        let t = Table { name, cols: gen_cols(r, sh) };
        tables.push(t.clone());
        p.entries.push(Entry::Table(t));
        while !late && rels_left > 0 && r.chance(1, 3) {
            rels_left -= 1;
            if let Some(e) = gen_rel(r, &tables, sh) {
                p.entries.push(e);
            }
        }
    }
    for _ in 0..rels_left {
        if let Some(e) = gen_rel(r, &tables, sh) {
            p.entries.push(e);
        }
    }
    if sh.mark {
        let path = |p: &mut Path| {
            p.table.push_str(MARK);
            if let Some(f) = &mut p.field {
                f.push_str(MARK);
            }
        };
        for e in &mut p.entries {
            match e {
                Entry::Table(t) => {
                    t.name.push_str(MARK);
                    t.cols.iter_mut().for_each(|c| c.name.push_str(MARK));
                }
                Entry::Rel(a, b) => {
                    path(a);
                    path(b);
                }
            }
        }
    }
    p
}

fn gen_rel(r: &mut Rng, tables: &[Table], sh: &Shape) -> Option<Entry> {
    if tables.is_empty() {
        return None;
    }
    let one = |r: &mut Rng| {
        let t = r.pick(tables);
        if r.chance(if sh.alike.is_some() { sh.dangling.max(30) } else { sh.dangling }, 100) {
            // one end or both that may not exist, or a column of another table
            let table = if r.chance(1, 3) { t.name.clone() } else { sh.plain(r) };
            let field = match r.below(3) {
                0 => None,
                1 => {
                    let o = r.pick(tables);
                    if o.cols.is_empty() { Some(sh.plain(r)) } else { Some(r.pick(&o.cols).name.clone()) }
                }
                _ => Some(sh.plain(r)),
            };
            return Path { table, field };
        }
        if t.cols.is_empty() || r.chance(sh.table_ends, 100) {
            return Path { table: t.name.clone(), field: None };
        }
        let c = r.pick(&t.cols);
        Path { table: t.name.clone(), field: Some(c.name.clone()) }
    };
    let a = one(r);
    let mut b = one(r);
    if r.chance(3, 4) && b.table == a.table {
        b = one(r);
    }
    Some(Entry::Rel(a, b))
}

// ------------------------------------------------------------------ printing
pub struct Style {
    pub comments: u32,
    pub semis: u32,
    pub blank: u32,
    pub crlf: bool,
    pub escapes: u32,
    pub cozy: bool,
    /// per mille: quoted names with escapes of every kind, valid or not
    pub odd: u32,
}
impl Style {
    pub fn random(r: &mut Rng) -> Style {
        Style {
            comments: *r.pick(&[0, 0, 10, 30]),
            semis: *r.pick(&[0, 20, 60]),
            blank: *r.pick(&[0, 20, 50]),
            crlf: r.chance(1, 8),
            escapes: *r.pick(&[0, 30, 100]),
            cozy: r.chance(1, 4),
            odd: if r.chance(1, 12) { 80 } else { 0 },
        }
    }
}

pub const ODD: [&str; 24] = [
    "\\ud800", "\\uDFFF", "\\uD83D\\uDE00", "\\uffff", "\\uFFFE", "\\u0000", "\\u001b", "\\u00e9", "\\u12", "\\u12g4", "\\uu0041", "\\u{41}", "\\x41", "\\ ",
    "\\'", "\\\n", "\\0", "\\e", "\\b\\f\\n\\r\\t", "\\\\\\`", "\\/\\\"", "\\U0001F600", "\\u+041", "\\uFEFF",
];

fn needs_quote(s: &str) -> bool {
    let mut it = s.chars();
    let ok = match it.next() {
        Some(c) => (c == '_' || c.is_ascii_alphabetic()) && it.all(|c| c == '_' || c.is_ascii_alphanumeric()),
        None => false,
    };
    !ok || crate::refparse::is_keyword(s)
}
fn print_name(r: &mut Rng, st: &Style, s: &str) -> String {
    let odd = r.chance(st.odd, 1000);
    if !needs_quote(s) && !odd && !r.chance(1, 20) {
        return s.to_string();
    }
    let mut o = String::from("`");
    let odd_at = if odd { r.below(s.chars().count() + 1) } else { usize::MAX };
    if odd_at == 0 {
        o.push_str(r.pick(&ODD));
    }
    for (i, c) in s.chars().enumerate() {
        if i > 0 && i == odd_at {
            o.push_str(r.pick(&ODD));
        }
        let esc = r.chance(st.escapes, 100);
        match c {
            '`' => o.push_str("\\`"),
            '\\' => o.push_str("\\\\"),
            '\n' if esc || st.crlf => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' if esc => o.push_str("\\t"),
            '\u{8}' if esc => o.push_str("\\b"),
            '\u{c}' if esc => o.push_str("\\f"),
            '"' if esc => o.push_str("\\\""),
            '/' if esc => o.push_str("\\/"),
            c if esc && (c as u32) < 0x10000 && !c.is_ascii_alphanumeric() => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('`');
    o
}

pub fn print_program(r: &mut Rng, p: &Program, st: &Style) -> String {
    let mut o = String::new();
    let nl = if st.crlf { "\r\n" } else { "\n" };
    let comment = |r: &mut Rng, o: &mut String| {
        if r.chance(st.comments, 100) {
            o.push_str(r.pick::<&str>(&["// note", "//", "// o--o { ; }", "// naïve ✓ `", "  // indented"]));
        }
    };
    let line_end = |r: &mut Rng, o: &mut String| {
        comment(r, o);
        o.push_str(nl);
        while r.chance(st.blank, 100) {
            o.push_str(r.pick::<&str>(&["", " ", "\t"]));
            comment(r, o);
            o.push_str(nl);
        }
    };
    let sp = |r: &mut Rng| r.pick::<&str>(&[" ", " ", "  ", "\t"]).to_string();
    let opt = |r: &mut Rng| if st.cozy { String::new() } else { r.pick::<&str>(&["", " ", " ", "\t "]).to_string() };
    // SEP, PAD
    let sep = |r: &mut Rng, o: &mut String| {
        if r.chance(st.semis, 100) {
            o.push_str(&opt(r));
            o.push(';');
            if r.chance(1, 3) {
                line_end(r, o);
            } else {
                o.push_str(&opt(r));
            }
        } else {
            line_end(r, o);
        }
    };
    if r.chance(st.comments, 100) {
        o.push_str("// head");
        o.push_str(nl);
    }
    while r.chance(st.blank / 2, 100) {
        o.push_str(nl);
    }
    o.push_str("erd");
    if let Some(n) = &p.name {
        o.push_str(&sp(r));
        o.push_str(&print_name(r, st, n));
        o.push_str(&opt(r));
    } else {
        o.push_str(&opt(r));
    }
    o.push('{');
    if !st.cozy || r.chance(1, 2) {
        line_end(r, &mut o);
    }
    for (i, e) in p.entries.iter().enumerate() {
        if i > 0 {
            sep(r, &mut o);
        }
        if !st.cozy {
            o.push_str("  ");
        }
        match e {
            Entry::Table(t) => {
                o.push_str(&print_name(r, st, &t.name));
                o.push_str(&opt(r));
                o.push('{');
                if !t.cols.is_empty() || r.chance(1, 2) {
                    if r.chance(st.semis, 100) {
                        o.push_str(&opt(r));
                    } else {
                        line_end(r, &mut o);
                    }
                }
                for (k, c) in t.cols.iter().enumerate() {
                    if k > 0 {
                        sep(r, &mut o);
                    }
                    o.push_str(&opt(r));
                    o.push_str(&print_name(r, st, &c.name));
                    o.push_str(&sp(r));
                    o.push_str(TYPES[c.ty as usize]);
                    if c.key > 0 {
                        o.push_str(&sp(r));
                        o.push_str(KEYS[c.key as usize]);
                    }
                }
                if !t.cols.is_empty() {
                    if r.chance(st.semis, 100) {
                        o.push_str(&opt(r));
                    } else {
                        line_end(r, &mut o);
                    }
                }
                o.push('}');
            }
            Entry::Rel(a, b) => {
                for (k, p) in [a, b].into_iter().enumerate() {
                    if k == 1 {
                        o.push_str(&sp(r));
                        o.push_str("o--o");
                        o.push_str(&sp(r));
                    }
                    o.push_str(&print_name(r, st, &p.table));
                    if let Some(f) = &p.field {
                        o.push('.');
                        o.push_str(&print_name(r, st, f));
                    }
                }
            }
        }
    }
    if !st.cozy || r.chance(1, 2) {
        line_end(r, &mut o);
    }
    o.push('}');
    if r.chance(2, 3) {
        o.push_str(nl);
    }
    o
}

//! Reference reader of the documented grammar.
//!
//! Two readings: the strict one is the documented EBNF (plus the comments the examples use); the
//! wide one also lets `;` stand wherever padding may. A text the wide reading refuses is no
//! program; a text the strict reading accepts is one; between the two nothing is decided.
use crate::model::{Col, Entry, Path, Program, Table};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Edge,
    Ident(String),
    Kw(&'static str),
    Ctrl(char),
    Nl,
}
const KW: [&str; 7] = ["erd", "int", "uuid", "text", "timestamp", "PK", "FK"];
pub fn is_keyword(s: &str) -> bool {
    KW.contains(&s)
}
/// A name that needs no quotes.
pub fn is_ident(s: &str) -> bool {
    s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_')
}

/// Where a text stops being the beginning of a program: a range of character positions
/// (both ends included) that all name that place.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Stop {
    pub from: usize,
    pub to: usize,
}

#[derive(Clone, Debug)]
pub enum Verdict {
    /// accepted, and by the strict reading too
    Program(Program),
    /// only the wide reading accepts it
    Wide(Program),
    /// refused; None: where it stops is not decided
    Refused(Option<Stop>),
    /// not decided
    Unknown,
}

struct Lexed {
    toks: Vec<(Tok, usize, usize)>,
    fail: Option<Stop>,
    odd: bool,       // characters whose role the documentation leaves open
    surrogate: bool, // an escape that names no character
}

fn lex(src: &[char]) -> Lexed {
    let mut l = Lexed { toks: vec![], fail: None, odd: false, surrogate: false };
    let n = src.len();
    let mut i = 0;
    while i < n {
        let c = src[i];
        if c == ' ' || c == '\t' {
            i += 1;
        } else if c == '/' {
            if i + 1 < n && src[i + 1] == '/' {
                while i < n && src[i] != '\n' {
                    i += 1;
                }
            } else {
                l.fail = Some(Stop { from: i, to: i + 1 });
                return l;
            }
        } else if c == '\n' {
            l.toks.push((Tok::Nl, i, i + 1));
            i += 1;
        } else if c == '\r' {
            if i + 1 < n && src[i + 1] == '\n' {
                l.toks.push((Tok::Nl, i, i + 2));
                i += 2;
            } else {
                l.odd = true;
                l.fail = Some(Stop { from: i, to: i + 1 });
                return l;
            }
        } else if "{};.".contains(c) {
            l.toks.push((Tok::Ctrl(c), i, i + 1));
            i += 1;
        } else if c == 'o' && src[i..].starts_with(&['o', '-', '-', 'o']) {
            l.toks.push((Tok::Edge, i, i + 4));
            i += 4;
        } else if c == '_' || c.is_ascii_alphabetic() {
            let s = i;
            while i < n && (src[i] == '_' || src[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            let w: String = src[s..i].iter().collect();
            match KW.iter().find(|k| **k == w) {
                Some(k) => l.toks.push((Tok::Kw(k), s, i)),
                None => l.toks.push((Tok::Ident(w), s, i)),
            }
        } else if c == '`' {
            let s = i;
            i += 1;
            let mut w = String::new();
            loop {
                if i >= n {
                    l.fail = Some(Stop { from: s, to: n });
                    return l;
                }
                match src[i] {
                    '`' => {
                        i += 1;
                        break;
                    }
                    '\\' => {
                        i += 1;
                        if i >= n {
                            l.fail = Some(Stop { from: s, to: n });
                            return l;
                        }
                        match src[i] {
                            '\\' => w.push('\\'),
                            '/' => w.push('/'),
                            '"' => w.push('"'),
                            '`' => w.push('`'),
                            'b' => w.push('\u{8}'),
                            'f' => w.push('\u{c}'),
                            'n' => w.push('\n'),
                            'r' => w.push('\r'),
                            't' => w.push('\t'),
                            'u' => {
                                let mut v = 0;
                                for k in 1..=4 {
                                    match src.get(i + k).and_then(|c| c.to_digit(16)) {
                                        Some(d) => v = v * 16 + d,
                                        None => {
                                            l.fail = Some(Stop { from: s, to: i + k });
                                            return l;
                                        }
                                    }
                                }
                                match char::from_u32(v) {
                                    Some(c) => w.push(c),
                                    None => {
                                        l.surrogate = true;
                                        w.push('\u{fffd}')
                                    }
                                }
                                i += 4;
                            }
                            _ => {
                                l.fail = Some(Stop { from: s, to: i });
                                return l;
                            }
                        }
                        i += 1;
                    }
                    c => {
                        w.push(c);
                        i += 1;
                    }
                }
            }
            l.toks.push((Tok::Ident(w), s, i));
        } else {
            if c.is_whitespace() {
                l.odd = true;
            }
            // the beginning of `o--o`
            let to = if c == '-' && i > 0 && src[i - 1] == 'o' { (i + 2).min(n) } else { i };
            l.fail = Some(Stop { from: i, to });
            return l;
        }
    }
    l
}

struct P<'a> {
    t: &'a [(Tok, usize, usize)],
    i: usize,
    strict: bool,
}
type R<T> = Result<T, ()>;
impl P<'_> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i).map(|x| &x.0)
    }
    fn is(&self, t: &Tok) -> bool {
        self.peek() == Some(t)
    }
    fn eat(&mut self, t: &Tok) -> R<()> {
        if self.is(t) {
            self.i += 1;
            Ok(())
        } else {
            Err(())
        }
    }
    fn pad(&mut self) {
        while self.is(&Tok::Nl) || (!self.strict && self.is(&Tok::Ctrl(';'))) {
            self.i += 1;
        }
    }
    /// `{ SEP, PAD, item }` then `PAD`: true if another item follows
    fn sep(&mut self) -> bool {
        let mut any = false;
        if self.strict {
            if self.is(&Tok::Nl) || self.is(&Tok::Ctrl(';')) {
                self.i += 1;
                any = true;
                self.pad();
            }
        } else {
            while self.is(&Tok::Nl) || self.is(&Tok::Ctrl(';')) {
                self.i += 1;
                any = true;
            }
        }
        any
    }
    fn ident(&mut self) -> R<String> {
        match self.peek() {
            Some(Tok::Ident(s)) => {
                let s = s.clone();
                self.i += 1;
                Ok(s)
            }
            _ => Err(()),
        }
    }
    fn field(&mut self) -> R<Col> {
        let name = self.ident()?;
        let ty = match self.peek() {
            Some(Tok::Kw("int")) => 0,
            Some(Tok::Kw("uuid")) => 1,
            Some(Tok::Kw("text")) => 2,
            Some(Tok::Kw("timestamp")) => 3,
            _ => return Err(()),
        };
        self.i += 1;
        let key = match self.peek() {
            Some(Tok::Kw("PK")) => 1,
            Some(Tok::Kw("FK")) => 2,
            _ => 0,
        };
        if key > 0 {
            self.i += 1;
        }
        Ok(Col { name, ty, key })
    }
    fn path_tail(&mut self, table: String) -> R<Path> {
        let mut p = Path { table, field: None };
        if self.is(&Tok::Ctrl('.')) {
            self.i += 1;
            p.field = Some(self.ident()?);
        }
        Ok(p)
    }
    fn entry(&mut self) -> R<Entry> {
        let name = self.ident()?;
        if self.is(&Tok::Ctrl('.')) {
            let a = self.path_tail(name)?;
            self.pad();
            return self.rel(a);
        }
        self.pad();
        match self.peek() {
            Some(Tok::Edge) => self.rel(Path { table: name, field: None }),
            Some(Tok::Ctrl('{')) => {
                self.i += 1;
                self.pad();
                let mut cols = vec![];
                if !self.is(&Tok::Ctrl('}')) {
                    cols.push(self.field()?);
                    loop {
                        let more = self.sep();
                        if self.is(&Tok::Ctrl('}')) {
                            break;
                        }
                        if !more {
                            return Err(());
                        }
                        cols.push(self.field()?);
                    }
                }
                self.eat(&Tok::Ctrl('}'))?;
                Ok(Entry::Table(Table { name, cols }))
            }
            _ => Err(()),
        }
    }
    fn rel(&mut self, a: Path) -> R<Entry> {
        self.eat(&Tok::Edge)?;
        self.pad();
        let t = self.ident()?;
        let b = self.path_tail(t)?;
        Ok(Entry::Rel(a, b))
    }
    fn module(&mut self) -> R<Program> {
        self.pad();
        self.eat(&Tok::Kw("erd"))?;
        self.pad();
        let mut p = Program::default();
        if let Some(Tok::Ident(_)) = self.peek() {
            p.name = Some(self.ident()?);
            self.pad();
        }
        self.eat(&Tok::Ctrl('{'))?;
        self.pad();
        if !self.is(&Tok::Ctrl('}')) {
            p.entries.push(self.entry()?);
            loop {
                let more = self.sep();
                if self.is(&Tok::Ctrl('}')) {
                    break;
                }
                if !more {
                    return Err(());
                }
                p.entries.push(self.entry()?);
            }
        }
        self.eat(&Tok::Ctrl('}'))?;
        self.pad();
        if self.i < self.t.len() {
            return Err(());
        }
        Ok(p)
    }
}

fn strict_trailing_semicolon(t: &[(Tok, usize, usize)]) -> bool {
    // `SEP` before a closing brace is not followed by an item: only padding may stand there
    let mut last = None;
    for (k, _, _) in t {
        if *k == Tok::Ctrl('}') && last == Some(Tok::Ctrl(';')) {
            return true;
        }
        if *k != Tok::Nl {
            last = Some(k.clone());
        }
    }
    false
}

pub fn judge(src: &str) -> Verdict {
    let chars: Vec<char> = src.chars().collect();
    let l = lex(&chars);
    let mut wide = P { t: &l.toks, i: 0, strict: false };
    let w = wide.module();
    let at = wide.i;
    if l.odd {
        return Verdict::Unknown;
    }
    if let Some(f) = l.fail {
        return Verdict::Refused(if l.surrogate { None } else { Some(f) });
    }
    match w {
        Err(()) => {
            let s = match l.toks.get(at) {
                Some(t) => Stop { from: t.1, to: t.1 },
                None => Stop { from: chars.len(), to: chars.len() },
            };
            Verdict::Refused(if l.surrogate { None } else { Some(s) })
        }
        Ok(p) => {
            if l.surrogate {
                return Verdict::Refused(None);
            }
            let mut strict = P { t: &l.toks, i: 0, strict: true };
            match strict.module() {
                Ok(q) if q == p && !strict_trailing_semicolon(&l.toks) => Verdict::Program(p),
                _ => Verdict::Wide(p),
            }
        }
    }
}

/// Line and column (both from 1) of a character position.
pub fn line_col(src: &str, pos: usize) -> (usize, usize) {
    let mut line = 1;
    let mut col = 1;
    for (i, c) in src.chars().enumerate() {
        if i == pos {
            break;
        }
        if c == '\n' {
            line += 1;
            col = 1;
        } else {
            col += 1;
        }
    }
    (line, col)
}

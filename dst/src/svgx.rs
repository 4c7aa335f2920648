//! Reads the emitted SVG back: a strict XML reader and a decoder that recovers tables, rows and
//! relation lines from the drawing, so that it can be compared with the reference model.
use crate::model::{Diagram, End, KEYS, TYPES};

#[derive(Debug, Clone)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Elem>,
    pub text: String,
}
impl Elem {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == n).map(|a| a.1.as_str())
    }
    fn num(&self, n: &str) -> Result<f64, String> {
        let s = self.attr(n).ok_or_else(|| format!("<{}> has no {}", self.name, n))?;
        let v: f64 = s.trim().parse().map_err(|_| format!("<{}> has {}={:?}", self.name, n, s))?;
        if v.is_finite() {
            Ok(v)
        } else {
            Err(format!("<{}> has {}={:?}", self.name, n, s))
        }
    }
}

pub fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | ' '..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..='\u{10ffff}')
}

struct X<'a> {
    s: &'a [char],
    i: usize,
}
impl X<'_> {
    fn err<T>(&self, m: &str) -> Result<T, String> {
        let ctx: String = self.s[self.i.saturating_sub(20)..(self.i + 20).min(self.s.len())].iter().collect();
        Err(format!("not well-formed XML: {} near {:?}", m, ctx))
    }
    fn looking(&self, p: &str) -> bool {
        let mut k = self.i;
        for c in p.chars() {
            if self.s.get(k) != Some(&c) {
                return false;
            }
            k += 1;
        }
        true
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], ' ' | '\t' | '\n' | '\r') {
            self.i += 1;
        }
    }
    fn name(&mut self) -> Result<String, String> {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_alphanumeric() || "-_:.".contains(self.s[self.i])) {
            self.i += 1;
        }
        if st == self.i || self.s[st].is_ascii_digit() || "-.".contains(self.s[st]) {
            return self.err("a name is missing");
        }
        Ok(self.s[st..self.i].iter().collect())
    }
    fn reference(&mut self) -> Result<char, String> {
        let st = self.i + 1;
        let mut k = st;
        while k < self.s.len() && self.s[k] != ';' && k - st < 12 {
            k += 1;
        }
        if self.s.get(k) != Some(&';') {
            return self.err("unescaped &");
        }
        let n: String = self.s[st..k].iter().collect();
        let c = match n.as_str() {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = n.strip_prefix("#x") {
                    u32::from_str_radix(h, 16).ok()
                } else if let Some(d) = n.strip_prefix('#') {
                    d.parse().ok()
                } else {
                    None
                };
                match v.and_then(char::from_u32).filter(|c| xml_char(*c)) {
                    Some(c) => c,
                    None => return self.err("bad reference"),
                }
            }
        };
        self.i = k + 1;
        Ok(c)
    }
    fn elem(&mut self) -> Result<Elem, String> {
        if !self.looking("<") {
            return self.err("an element is missing");
        }
        self.i += 1;
        let mut e = Elem { name: self.name()?, attrs: vec![], kids: vec![], text: String::new() };
        loop {
            let before = self.i;
            self.ws();
            if self.looking("/>") {
                self.i += 2;
                return Ok(e);
            }
            if self.looking(">") {
                self.i += 1;
                break;
            }
            if before == self.i {
                return self.err("space before an attribute is missing");
            }
            let n = self.name()?;
            self.ws();
            if !self.looking("=") {
                return self.err("= is missing");
            }
            self.i += 1;
            self.ws();
            let q = match self.s.get(self.i) {
                Some(q @ ('"' | '\'')) => *q,
                _ => return self.err("a quote is missing"),
            };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.s.get(self.i) {
                    None => return self.err("unterminated attribute"),
                    Some(c) if *c == q => break,
                    Some('<') => return self.err("< in an attribute"),
                    Some('&') => v.push(self.reference()?),
                    Some(c) => {
                        v.push(*c);
                        self.i += 1;
                    }
                }
            }
            self.i += 1;
            if e.attrs.iter().any(|a| a.0 == n) {
                return self.err("duplicate attribute");
            }
            e.attrs.push((n, v));
        }
        loop {
            if self.i >= self.s.len() {
                return self.err("unterminated element");
            }
            if self.looking("</") {
                self.i += 2;
                let n = self.name()?;
                self.ws();
                if n != e.name || !self.looking(">") {
                    return self.err("wrong end tag");
                }
                self.i += 1;
                return Ok(e);
            }
            if self.looking("<!--") || self.looking("<?") || self.looking("<![CDATA[") {
                return self.err("unexpected markup");
            }
            if self.looking("<") {
                let k = self.elem()?;
                e.kids.push(k);
            } else if self.looking("&") {
                let c = self.reference()?;
                e.text.push(c);
            } else if self.looking("]]>") {
                return self.err("]]> in text");
            } else {
                e.text.push(self.s[self.i]);
                self.i += 1;
            }
        }
    }
}

pub fn parse_xml(b: &[u8]) -> Result<Elem, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not UTF-8".to_string())?;
    // a literal carriage return reaches the reader as a line feed
    let chars: Vec<char> = s.replace("\r\n", "\n").replace('\r', "\n").chars().collect();
    if let Some(c) = chars.iter().find(|c| !xml_char(**c)) {
        return Err(format!("not well-formed XML: character {:?}", c));
    }
    let mut x = X { s: &chars, i: 0 };
    x.ws();
    if x.looking("<?xml") {
        while x.i < chars.len() && !x.looking("?>") {
            x.i += 1;
        }
        x.i += 2;
        x.ws();
    }
    let e = x.elem()?;
    x.ws();
    if x.i < chars.len() {
        return x.err("text after the document");
    }
    Ok(e)
}

// ------------------------------------------------------------------ the drawing
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Rc {
    pub x: f64,
    pub y: f64,
    pub w: f64,
    pub h: f64,
}
impl Rc {
    pub fn on_border(&self, p: (f64, f64)) -> bool {
        let e = 0.01;
        let inx = p.0 >= self.x - e && p.0 <= self.x + self.w + e;
        let iny = p.1 >= self.y - e && p.1 <= self.y + self.h + e;
        let bx = (p.0 - self.x).abs() < e || (p.0 - self.x - self.w).abs() < e;
        let by = (p.1 - self.y).abs() < e || (p.1 - self.y - self.h).abs() < e;
        (bx && iny) || (by && inx)
    }
    pub fn contains(&self, p: (f64, f64)) -> bool {
        let e = 0.01;
        p.0 >= self.x - e && p.0 <= self.x + self.w + e && p.1 >= self.y - e && p.1 <= self.y + self.h + e
    }
    /// the open interior, shrunk by one unit, meets the axis-parallel segment
    pub fn crossed(&self, a: (f64, f64), b: (f64, f64)) -> bool {
        let (x0, x1) = (self.x + 1.0, self.x + self.w - 1.0);
        let (y0, y1) = (self.y + 1.0, self.y + self.h - 1.0);
        a.0.min(b.0) < x1 && a.0.max(b.0) > x0 && a.1.min(b.1) < y1 && a.1.max(b.1) > y0
    }
    pub fn overlaps(&self, o: &Rc) -> bool {
        let e = 0.01;
        self.x + e < o.x + o.w && o.x + e < self.x + self.w && self.y + e < o.y + o.h && o.y + e < self.y + self.h
    }
}

#[derive(Debug, Clone)]
pub struct Row {
    pub rect: Rc,
    pub title: String,
    pub subtitle: Option<String>,
    pub badge: Option<String>,
    pub circles: usize,
}
#[derive(Debug, Clone)]
pub struct DTable {
    pub rect: Rc,
    pub rows: Vec<Row>,
}
#[derive(Debug, Clone)]
pub struct Drawing {
    pub view: Option<Rc>,
    pub tables: Vec<DTable>,
    /// the corners of each line, first end first
    pub lines: Vec<Vec<(f64, f64)>>,
}

fn parse_path(d: &str) -> Result<Vec<(f64, f64)>, String> {
    // M x y, L x y, Q cx cy x y; numbers may touch the command letters
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in d.chars() {
        if c.is_ascii_alphabetic() && c != 'e' {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
            toks.push(c.to_string());
        } else if c.is_whitespace() || c == ',' {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(c);
        }
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut v: Vec<(f64, f64)> = vec![];
    let mut i = 0;
    let num = |i: usize| -> Result<f64, String> {
        let s = toks.get(i).ok_or("path data ends early")?;
        let x: f64 = s.parse().map_err(|_| format!("path data has {:?}", s))?;
        if x.is_finite() {
            Ok(x)
        } else {
            Err(format!("path data has {:?}", s))
        }
    };
    while i < toks.len() {
        match toks[i].as_str() {
            "M" if v.is_empty() => {
                v.push((num(i + 1)?, num(i + 2)?));
                i += 3;
            }
            "L" if !v.is_empty() => {
                v.push((num(i + 1)?, num(i + 2)?));
                i += 3;
            }
            "Q" if !v.is_empty() => {
                v.push((num(i + 1)?, num(i + 2)?));
                v.push((num(i + 3)?, num(i + 4)?));
                i += 5;
            }
            t => return Err(format!("unexpected path command {:?}", t)),
        }
    }
    if v.len() < 2 {
        return Err("a line without length".into());
    }
    Ok(v)
}

pub fn decode(svg: &[u8]) -> Result<Drawing, String> {
    let root = parse_xml(svg)?;
    if root.name != "svg" || root.attr("xmlns") != Some("http://www.w3.org/2000/svg") {
        return Err("the root is not an SVG element".into());
    }
    let view = match root.attr("viewBox") {
        None => None,
        Some(s) => {
            let v: Vec<f64> = s.split([',', ' ']).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
            if v.len() != 4 || v.iter().any(|x: &f64| !x.is_finite()) {
                return Err(format!("viewBox={:?}", s));
            }
            Some(Rc { x: v[0], y: v[1], w: v[2], h: v[3] })
        }
    };
    if !root.text.trim().is_empty() {
        return Err("stray text in the drawing".into());
    }
    let mut tables: Vec<DTable> = vec![];
    let mut seps: Vec<Vec<f64>> = vec![];
    let mut texts: Vec<(f64, f64, usize, String, String)> = vec![];
    let mut circles: Vec<(f64, f64)> = vec![];
    let mut fills: Vec<Rc> = vec![];
    let mut lines = vec![];
    let mut straight: Vec<(f64, f64, f64, f64)> = vec![];
    // what is drawn later lies on top
    let mut painted = 0usize;
    let mut opaque: Vec<(usize, Rc)> = vec![];
    let mut ids: Vec<&str> = vec![];
    let mut clips: Vec<(&str, Option<Rc>)> = vec![];
    let mut todo = vec![&root];
    while let Some(e) = todo.pop() {
        todo.extend(&e.kids);
        ids.extend(e.attr("id"));
        if let ("clipPath", Some(id)) = (e.name.as_str(), e.attr("id")) {
            let rc = match &e.kids[..] {
                [r] if r.name == "rect" => Some(Rc { x: r.attr("x").map_or(Ok(0.0), |_| r.num("x"))?, y: r.attr("y").map_or(Ok(0.0), |_| r.num("y"))?, w: r.num("width")?, h: r.num("height")? }),
                _ => None,
            };
            clips.push((id, rc));
        }
    }
    ids.sort();
    if let Some(w) = ids.windows(2).find(|w| w[0] == w[1]) {
        return Err(format!("id {:?} is not unique", w[0]));
    }
    for e in &root.kids {
        painted += 1;
        match e.name.as_str() {
            "defs" | "style" | "title" | "desc" | "metadata" => {}
            "rect" => {
                if e.attr("width").is_some_and(|w| w.ends_with('%')) {
                    if !(tables.is_empty() && texts.is_empty() && lines.is_empty()) {
                        return Err("a background lies on the drawing".into());
                    }
                    continue;
                }
                let rc = Rc { x: e.attr("x").map_or(Ok(0.0), |_| e.num("x"))?, y: e.attr("y").map_or(Ok(0.0), |_| e.num("y"))?, w: e.num("width")?, h: e.num("height")? };
                opaque.push((painted, rc));
                if let Some(c) = e.attr("clip-path") {
                    let id = c.trim().strip_prefix("url(#").and_then(|x| x.strip_suffix(')'));
                    match clips.iter().find(|x| Some(x.0) == id) {
                        None => return Err(format!("clip-path={:?}: no such clip path", c)),
                        Some((_, Some(r))) if !(r.contains((rc.x, rc.y)) && r.contains((rc.x + rc.w, rc.y + rc.h))) => return Err(format!("a background at {:?} is clipped to {:?}", rc, r)),
                        _ => {}
                    }
                    fills.push(rc);
                } else if e.attr("rx").is_some() {
                    tables.push(DTable { rect: rc, rows: vec![] });
                    seps.push(vec![]);
                } else {
                    fills.push(rc);
                }
            }
            "line" => straight.push((e.num("x1")?, e.num("y1")?, e.num("x2")?, e.num("y2")?)),
            "text" => {
                if !e.kids.is_empty() {
                    return Err("markup inside a text".into());
                }
                texts.push((e.num("x")?, e.num("y")?, painted, e.attr("text-anchor").unwrap_or("start").to_string(), e.text.clone()));
            }
            "circle" => {
                let c = (e.num("cx")?, e.num("cy")?);
                let w = e.num("r")?;
                opaque.push((painted, Rc { x: c.0 - w * 0.7, y: c.1 - w * 0.7, w: w * 1.4, h: w * 1.4 }));
                circles.push(c);
            }
            "path" => lines.push(parse_path(e.attr("d").unwrap_or(""))?),
            n => return Err(format!("unexpected element <{}>", n)),
        }
    }
    let owner = |p: (f64, f64)| -> Vec<usize> { (0..tables.len()).filter(|i| tables[*i].rect.contains(p)).collect() };
    for (x1, y1, x2, y2) in &straight {
        if (y1 - y2).abs() > 0.01 {
            return Err("a separator is not horizontal".into());
        }
        let o = owner(((x1 + x2) / 2.0, *y1));
        if o.len() != 1 {
            return Err(format!("a separator at y={} belongs to {} tables", y1, o.len()));
        }
        seps[o[0]].push(*y1);
    }
    for i in 0..tables.len() {
        let rc = tables[i].rect;
        let mut b = vec![rc.y];
        seps[i].sort_by(|a, b| a.partial_cmp(b).unwrap());
        b.extend(&seps[i]);
        b.push(rc.y + rc.h);
        for k in 0..b.len() - 1 {
            let r = Rc { x: rc.x, y: b[k], w: rc.w, h: b[k + 1] - b[k] };
            if r.h <= 0.0 || r.w <= 0.0 {
                return Err(format!("table {} has an empty row {}", i, k));
            }
            tables[i].rows.push(Row { rect: r, title: String::new(), subtitle: None, badge: None, circles: 0 });
        }
    }
    for f in &fills {
        if tables.iter().filter(|t| t.rows.iter().any(|r| r.rect == *f)).count() != 1 {
            return Err("a background that belongs to no row".into());
        }
    }
    let mut titled: Vec<Vec<bool>> = tables.iter().map(|t| vec![false; t.rows.len()]).collect();
    for (x, y, z, anchor, s) in texts {
        if opaque.iter().any(|o| o.0 > z && o.1.contains((x, y))) {
            return Err(format!("text {:?} at {},{} lies under a background", s, x, y));
        }
        let mut found = vec![];
        for (ti, t) in tables.iter().enumerate() {
            for (ri, r) in t.rows.iter().enumerate() {
                if r.rect.contains((x, y)) {
                    found.push((ti, ri));
                }
            }
        }
        if found.len() != 1 {
            return Err(format!("text {:?} at {},{} belongs to {} rows", s, x, y, found.len()));
        }
        let (ti, ri) = found[0];
        let r = &mut tables[ti].rows[ri];
        let slot_taken = match anchor.as_str() {
            "start" => {
                let was = titled[ti][ri];
                titled[ti][ri] = true;
                r.title = s;
                was
            }
            "end" => r.subtitle.replace(s).is_some(),
            "middle" => r.badge.replace(s).is_some(),
            a => return Err(format!("text anchor {:?}", a)),
        };
        if slot_taken {
            return Err(format!("row {} of table {} shows a text twice", ri, ti));
        }
    }
    for (ti, t) in titled.iter().enumerate() {
        if let Some(ri) = t.iter().position(|x| !x) {
            return Err(format!("row {} of table {} shows no name", ri, ti));
        }
    }
    // two circles per line, at its ends; the others lie under badges
    for l in &lines {
        for p in [l[0], *l.last().unwrap()] {
            let k = circles.iter().position(|c| (c.0 - p.0).abs() < 0.01 && (c.1 - p.1).abs() < 0.01);
            match k {
                Some(k) => {
                    circles.swap_remove(k);
                }
                None => return Err(format!("no end mark at {:?}", p)),
            }
        }
    }
    for c in &circles {
        let mut hit = false;
        for t in tables.iter_mut() {
            for r in t.rows.iter_mut() {
                if r.rect.contains(*c) && !hit {
                    r.circles += 1;
                    hit = true;
                }
            }
        }
        if !hit {
            return Err(format!("a mark at {:?} belongs to nothing", c));
        }
    }
    for (ti, t) in tables.iter().enumerate() {
        for (ri, r) in t.rows.iter().enumerate() {
            if r.circles != r.badge.is_some() as usize {
                return Err(format!("row {} of table {} has {} marks", ri, ti, r.circles));
            }
        }
    }
    Ok(Drawing { view, tables, lines })
}

/// What is visible of a text: white space collapses, and characters that XML cannot carry are shown
/// as something else, which is not compared.
fn shown(s: &str) -> String {
    let t: String = s.chars().filter(|c| xml_char(*c) && *c != '\u{fffd}').collect();
    t.split([' ', '\t', '\r', '\n']).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ")
}

/// The drawing shows exactly the model.
pub fn faithful(dr: &Drawing, m: &Diagram) -> Result<(), String> {
    if dr.tables.len() != m.tables.len() {
        return Err(format!("{} tables are shown, the diagram has {}", dr.tables.len(), m.tables.len()));
    }
    for (i, (d, t)) in dr.tables.iter().zip(&m.tables).enumerate() {
        if d.rows.len() != t.cols.len() + 1 {
            return Err(format!("table {} shows {} rows for {} columns", i, d.rows.len(), t.cols.len()));
        }
        if shown(&d.rows[0].title) != shown(&t.name) || d.rows[0].subtitle.is_some() || d.rows[0].badge.is_some() {
            return Err(format!("table {} is headed {:?}, its name is {:?}", i, d.rows[0].title, t.name));
        }
        for (k, (r, c)) in d.rows[1..].iter().zip(&t.cols).enumerate() {
            if shown(&r.title) != shown(&c.name) {
                return Err(format!("column {} of table {} shows {:?}, its name is {:?}", k, i, r.title, c.name));
            }
            if r.subtitle.as_deref().map(shown).as_deref() != Some(TYPES[c.ty as usize & 3]) {
                return Err(format!("column {} of table {} shows type {:?}, it is {:?}", k, i, r.subtitle, TYPES[c.ty as usize & 3]));
            }
            let want = if c.key == 0 { None } else { Some(KEYS[c.key as usize]) };
            if r.badge.as_deref().map(shown).as_deref() != want {
                return Err(format!("column {} of table {} shows key {:?}, it is {:?}", k, i, r.badge, want));
            }
        }
    }
    if dr.lines.len() != m.rels.len() {
        return Err(format!("{} lines are shown, the diagram has {} relations", dr.lines.len(), m.rels.len()));
    }
    // match lines and relations
    let fits = |l: usize, r: usize| -> bool {
        let a = dr.lines[l][0];
        let b = *dr.lines[l].last().unwrap();
        m.rels[r].a.iter().any(|e| end_rect(dr, e).on_border(a)) && m.rels[r].b.iter().any(|e| end_rect(dr, e).on_border(b))
    };
    if (0..m.rels.len()).all(|i| fits(i, i)) {
        return Ok(());
    }
    let n = m.rels.len();
    let mut of_line: Vec<Option<usize>> = vec![None; n];
    fn place(r: usize, n: usize, fits: &dyn Fn(usize, usize) -> bool, seen: &mut [bool], of_line: &mut [Option<usize>]) -> bool {
        for l in 0..n {
            if seen[l] || !fits(l, r) {
                continue;
            }
            seen[l] = true;
            if of_line[l].is_none() || place(of_line[l].unwrap(), n, fits, seen, of_line) {
                of_line[l] = Some(r);
                return true;
            }
        }
        false
    }
    for r in 0..n {
        let mut seen = vec![false; n];
        if !place(r, n, &fits, &mut seen, &mut of_line) {
            return Err(format!("no line runs from {:?} to {:?}", m.rels[r].a, m.rels[r].b));
        }
    }
    Ok(())
}

pub fn end_rect(dr: &Drawing, e: &End) -> Rc {
    let t = &dr.tables[e.table];
    match e.row {
        None => t.rect,
        Some(r) => t.rows[r].rect,
    }
}

/// Geometry of the drawing.
pub fn geometry(dr: &Drawing, m: &Diagram) -> Result<(), String> {
    let v = dr.view.ok_or("there is no view box")?;
    if v.w <= 0.0 || v.h <= 0.0 {
        return Err(format!("view box {:?}", v));
    }
    for (i, t) in dr.tables.iter().enumerate() {
        let r = t.rect;
        if r.w <= 0.0 || r.h <= 0.0 {
            return Err(format!("table {} has no area", i));
        }
        if !v.contains((r.x, r.y)) || !v.contains((r.x + r.w, r.y + r.h)) {
            return Err(format!("table {} leaves the view box", i));
        }
        for (k, o) in dr.tables.iter().enumerate().skip(i + 1) {
            if r.overlaps(&o.rect) {
                return Err(format!("tables {} and {} overlap", i, k));
            }
        }
    }
    for (li, l) in dr.lines.iter().enumerate() {
        line_geometry(l, &dr.tables.iter().map(|t| t.rect).collect::<Vec<_>>(), &v).map_err(|e| format!("line {} {}", li, e))?;
    }
    if dr.tables.len() == m.tables.len() && dr.lines.len() == m.rels.len() {
        for (i, r) in m.rels.iter().enumerate() {
            let ok = |p: (f64, f64), ends: &[End]| {
                ends.iter().any(|e| e.table < dr.tables.len() && e.row.map_or(true, |r| r < dr.tables[e.table].rows.len()) && end_rect(dr, e).on_border(p))
            };
            let any = |f: &dyn Fn(&Vec<(f64, f64)>) -> bool| dr.lines.iter().any(|l| f(l));
            if !any(&|l| ok(l[0], &r.a) && ok(*l.last().unwrap(), &r.b)) {
                return Err(format!("no line joins the borders of the ends of relation {}", i));
            }
            let out = |l: &[(f64, f64)], ends: &[End]| ends.iter().any(|e| leaves(l, &dr.tables[e.table].rect, &end_rect(dr, e)));
            let back = |l: &[(f64, f64)]| l.iter().rev().copied().collect::<Vec<_>>();
            if !any(&|l| ok(l[0], &r.a) && ok(*l.last().unwrap(), &r.b) && out(l, &r.a) && out(&back(l), &r.b)) {
                return Err(format!("no line leaves both ends of relation {} straight outwards from the middle of a side", i));
            }
        }
    }
    Ok(())
}

/// The line leaves the row (or table) `r` of table `t` in the middle of a side that is also a side of
/// the table, straight outwards.
pub fn leaves(l: &[(f64, f64)], t: &Rc, r: &Rc) -> bool {
    let p = l[0];
    let q = *l.iter().find(|q| (q.0 - p.0).abs() > 0.01 || (q.1 - p.1).abs() > 0.01).unwrap_or(&p);
    let near = |a: f64, b: f64| (a - b).abs() < 0.01;
    let side = |x: f64, y: f64, dx: f64, dy: f64| near(p.0, x) && near(p.1, y) && (q == p || (q.0 - p.0) * dx + (q.1 - p.1) * dy > 0.0);
    let (mx, my) = (r.x + r.w / 2.0, r.y + r.h / 2.0);
    side(r.x, my, -1.0, 0.0)
        || side(r.x + r.w, my, 1.0, 0.0)
        || near(r.y, t.y) && side(mx, r.y, 0.0, -1.0)
        || near(r.y + r.h, t.y + t.h) && side(mx, r.y + r.h, 0.0, 1.0)
}

pub fn line_geometry(l: &[(f64, f64)], tables: &[Rc], v: &Rc) -> Result<(), String> {
    for w in l.windows(2) {
        let (a, b) = (w[0], w[1]);
        if (a.0 - b.0).abs() > 0.01 && (a.1 - b.1).abs() > 0.01 {
            return Err(format!("runs obliquely from {:?} to {:?}", a, b));
        }
        if !v.contains(a) || !v.contains(b) {
            return Err(format!("leaves the view box at {:?}", b));
        }
        for (i, r) in tables.iter().enumerate() {
            if r.crossed(a, b) {
                return Err(format!("crosses table {} between {:?} and {:?}", i, a, b));
            }
        }
    }
    Ok(())
}

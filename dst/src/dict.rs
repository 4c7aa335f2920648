//! Words and numbers that occur in the source of the code under test. They only steer the search towards
//! inputs and sizes that the code itself speaks of; nothing is judged by them.
use crate::rng::Rng;
use std::sync::OnceLock;

pub const LARGEST: usize = 5_300_000;

#[derive(Default)]
pub struct Dict {
    pub words: Vec<String>,
    /// 2..=LARGEST
    pub nums: Vec<usize>,
}

fn number(s: &str) -> Option<usize> {
    let t: String = s.chars().filter(|c| *c != '_').collect();
    if let Some(h) = t.strip_prefix("0x") {
        return usize::from_str_radix(h.trim_end_matches(|c: char| !c.is_ascii_hexdigit()), 16).ok();
    }
    let d: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
    d.parse().ok()
}
fn scan(src: &str, d: &mut Dict) {
    let src = match src.find("#[cfg(test)]") {
        Some(i) => &src[..i],
        None => src,
    };
    let c: Vec<char> = src.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    // the last number, and the operator behind it
    let mut last: Option<(usize, char)> = None;
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        match at(i) {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            '0' => s.push('\0'),
                            'u' => {
                                let h: String = c[i + 1..].iter().take_while(|x| **x != '}').filter(|x| x.is_ascii_hexdigit()).collect();
                                s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                                while at(i) != '}' && i < c.len() {
                                    i += 1;
                                }
                            }
                            '\n' => {}
                            x => s.push(x),
                        }
                    } else {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                last = None;
                for w in [s.trim(), &s[..]].into_iter().chain(s.split([' ', ',', '|', '{', '}', ':'])) {
                    if !w.is_empty() && w.chars().count() <= 40 {
                        d.words.push(w.to_string());
                    }
                }
            }
            '\'' => {
                // a character, not a lifetime
                if at(i + 1) == '\\' {
                    let e = (i + 2..c.len().min(i + 14)).find(|k| c[*k] == '\'' && *k > i + 2).unwrap_or(i + 3);
                    if at(i + 2) == 'u' {
                        let h: String = c[i + 3..e].iter().filter(|x| x.is_ascii_hexdigit()).collect();
                        d.words.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).map(String::from));
                    }
                    i = e + 1;
                } else if at(i + 2) == '\'' {
                    d.words.push(at(i + 1).to_string());
                    i += 3;
                } else {
                    i += 1;
                }
            }
            x if x.is_ascii_digit() => {
                let b = i;
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
                let s: String = c[b..i].iter().collect();
                if let Some(n) = number(&s) {
                    d.nums.push(n);
                    match last {
                        Some((a, '<')) if n < 24 => d.nums.push(a << n),
                        Some((a, '*')) => d.nums.push(a.saturating_mul(n)),
                        _ => {}
                    }
                    last = Some((n, ' '));
                }
            }
            x if x.is_alphanumeric() || x == '_' => {
                while at(i).is_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
                last = None;
            }
            x => {
                if !x.is_whitespace() {
                    last = match (last, x) {
                        (Some((a, ' ')), '<' | '*') => Some((a, x)),
                        (Some((a, '<')), '<') => Some((a, '<')),
                        _ => None,
                    };
                }
                i += 1;
            }
        }
    }
}
fn walk(dir: &std::path::Path, d: &mut Dict) {
    let mut v: Vec<_> = std::fs::read_dir(dir).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    for p in v {
        if p.is_dir() {
            walk(&p, d);
        } else if p.extension().is_some_and(|e| e == "rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                scan(&s, d);
            }
        }
    }
}
pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict::default();
        let repo = std::env::var("SEIREN_REPO").unwrap_or_else(|_| "/repo".into());
        walk(&std::path::Path::new(&repo).join("src"), &mut d);
        d.words.sort();
        d.words.dedup();
        d.nums.retain(|n| (2..=LARGEST).contains(n));
        d.nums.sort();
        d.nums.dedup();
        d
    })
}
/// A word of the code's, as it is, or with something before or behind it.
pub fn word(r: &mut Rng) -> String {
    let d = dict();
    if d.words.is_empty() {
        return "x".into();
    }
    let w = r.pick(&d.words).clone();
    match r.below(6) {
        0 => format!("x{}", w),
        1 => format!("{}x", w),
        2 => w.to_uppercase(),
        _ => w,
    }
}
/// The same for arguments and variables.
pub fn printable(r: &mut Rng) -> String {
    word(r).chars().filter(|c| !c.is_control()).collect()
}
/// A number of the code's within the limits, or one next to it.
pub fn size(r: &mut Rng, lo: usize, hi: usize) -> usize {
    let v: Vec<usize> = dict().nums.iter().copied().filter(|n| (lo..=hi).contains(n)).collect();
    if v.is_empty() {
        return r.range(lo, hi.min(lo + 50));
    }
    *r.pick(&v) + *r.pick(&[0, 1, 1, 2])
}
/// Whether the code speaks of sizes beyond this one.
pub fn beyond(lo: usize) -> bool {
    dict().nums.last().is_some_and(|n| *n > lo)
}

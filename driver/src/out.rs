//! Parser for what qlc prints: messages with level, place and named things.
use crate::project::normalise;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Lv {
    Warning,
    Error,
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Printed {
    pub level: Lv,
    pub headline: String,
    /// Backquoted words of the headline, paths normalised.
    pub names: Vec<String>,
    pub path: Option<String>,
    pub line: Option<u32>,
    pub col: Option<u32>,
    /// The message as printed, without colours.
    pub text: String,
    /// The source line shown.
    pub shown: Option<String>,
    /// How far below the start of that line the mark is, in characters.
    pub mark: Option<usize>,
}

impl Printed {
    /// What the message says may have been meant.
    pub fn suggested(&self) -> Vec<String> {
        let mut v = self.text.split_once("Did you mean").map_or(vec![], |(_, t)| backquoted(t));
        v.sort();
        v
    }
}

#[derive(Clone, Debug, Default)]
pub struct Output {
    pub msgs: Vec<Printed>,
    pub err_total: Option<u64>,
    pub warn_total: Option<u64>,
    /// Grammar of the two totals ("1 error" / "2 errors").
    pub totals: Vec<String>,
    pub stray: Vec<String>,
}

pub fn strip_ansi(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\u{1b}' && it.peek() == Some(&'[') {
            it.next();
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

/// Turns a printed path into a box-relative one.
pub fn rel(p: &str) -> String {
    if p == "/sim" {
        return String::new();
    }
    match p.strip_prefix("/sim/") {
        Some(r) => normalise(r),
        None => {
            if p.starts_with('/') {
                p.to_string()
            } else {
                normalise(p)
            }
        }
    }
}

fn backquoted(s: &str) -> Vec<String> {
    let parts: Vec<&str> = s.split('`').collect();
    let mut v = Vec::new();
    let mut i = 1;
    while i + 1 < parts.len() {
        let w = parts[i];
        v.push(if w.contains('/') || w.contains(".graphql") || w == "." { rel(w) } else { w.to_string() });
        i += 2;
    }
    v
}

fn place(s: &str) -> (String, Option<u32>, Option<u32>) {
    let mut p = s.to_string();
    let mut nums = Vec::new();
    for _ in 0..2 {
        if let Some(i) = p.rfind(':') {
            if let Ok(n) = p[i + 1..].parse::<u32>() {
                nums.push(n);
                p.truncate(i);
                continue;
            }
        }
        break;
    }
    nums.reverse();
    (rel(&p), nums.first().copied(), nums.get(1).copied())
}

pub fn parse(stdout: &str) -> Output {
    let s = strip_ansi(stdout);
    let mut blocks: Vec<(Lv, Vec<String>)> = Vec::new();
    let mut o = Output::default();
    for l in s.lines() {
        let lv = if l.starts_with("error: ") || l.starts_with("program error: ") {
            Some(Lv::Error)
        } else if l.starts_with("warning: ") {
            Some(Lv::Warning)
        } else {
            None
        };
        match lv {
            Some(v) => blocks.push((v, vec![l.to_string()])),
            None => match blocks.last_mut() {
                Some(b) => b.1.push(l.to_string()),
                None => {
                    if !l.trim().is_empty() {
                        o.stray.push(l.to_string())
                    }
                }
            },
        }
    }
    for (level, lines) in blocks {
        let head = lines[0].splitn(2, ": ").nth(1).unwrap_or("").to_string();
        if level == Lv::Error {
            if let Some(r) = head.strip_prefix("failure due to ") {
                o.err_total = r.split(' ').next().and_then(|x| x.parse().ok());
                o.totals.push(head.clone());
                continue;
            }
        } else if head.ends_with(" emitted") {
            o.warn_total = head.split(' ').next().and_then(|x| x.parse().ok());
            o.totals.push(head.clone());
            continue;
        }
        let mut m = Printed {
            level,
            names: backquoted(&head),
            headline: head,
            path: None,
            line: None,
            col: None,
            text: lines.join("\n").trim_end().to_string(),
            shown: None,
            mark: None,
        };
        for (i, l) in lines.iter().enumerate() {
            let t = l.trim_start();
            if let Some(p) = t.strip_prefix("--> ") {
                let (p, a, b) = place(p);
                m.path = Some(p);
                m.line = a;
                m.col = b;
                if let Some(a) = a {
                    if let Some(x) = lines.get(i + 2) {
                        m.shown = x.strip_prefix(&format!("{a} | ")).map(|s| s.to_string());
                        let start = a.to_string().len() + 3;
                        m.mark = lines.get(i + 3).and_then(|y| {
                            let (bar, at) = (y.find('|')?, y.find('^')?);
                            (y.trim_end().ends_with('^') && bar + 2 == start && y[bar + 1..at].trim().is_empty() && at >= start).then(|| at - start)
                        });
                    }
                }
                break;
            }
        }
        o.msgs.push(m);
    }
    o
}

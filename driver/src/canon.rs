//! Canonical form of generated TypeScript types, shared by the reference model
//! and by the parser of real output. Two outputs are equal here when they
//! describe the same set of values, however the text is laid out.
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum C {
    Null,
    Name(String),
    Lit(String),
    Arr(Box<C>),
    Obj(BTreeMap<String, P>),
    Union(BTreeSet<C>),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct P {
    pub ty: C,
    pub readonly: bool,
    pub optional: bool,
    pub doc: Vec<String>,
    pub deprecated: bool,
}

fn is_lit(c: &C) -> bool {
    match c {
        C::Lit(_) => true,
        C::Union(s) => s.iter().all(|x| matches!(x, C::Lit(_))),
        _ => false,
    }
}
fn lits(c: &C) -> BTreeSet<C> {
    match c {
        C::Union(s) => s.clone(),
        x => [x.clone()].into(),
    }
}

/// Normalised union: flattened, and object alternatives that differ only in
/// literal-valued properties merged.
pub fn union(parts: Vec<C>) -> C {
    let mut flat: BTreeSet<C> = BTreeSet::new();
    fn add(c: C, flat: &mut BTreeSet<C>) {
        match c {
            C::Union(s) => s.into_iter().for_each(|x| add(x, flat)),
            x => {
                flat.insert(x);
            }
        }
    }
    parts.into_iter().for_each(|p| add(p, &mut flat));
    let mut groups: BTreeMap<BTreeMap<String, P>, BTreeMap<String, P>> = BTreeMap::new();
    let mut rest: BTreeSet<C> = BTreeSet::new();
    for c in flat {
        match c {
            C::Obj(m) => {
                let mut key = m.clone();
                for p in key.values_mut() {
                    if is_lit(&p.ty) {
                        p.ty = C::Lit(String::new());
                    }
                }
                match groups.get_mut(&key) {
                    None => {
                        groups.insert(key, m);
                    }
                    Some(g) => {
                        for (n, p) in m {
                            if is_lit(&p.ty) {
                                let q = g.get_mut(&n).unwrap();
                                let mut s = lits(&q.ty);
                                s.extend(lits(&p.ty));
                                q.ty = if s.len() == 1 { s.into_iter().next().unwrap() } else { C::Union(s) };
                            }
                        }
                    }
                }
            }
            x => {
                rest.insert(x);
            }
        }
    }
    for m in groups.into_values() {
        rest.insert(C::Obj(m));
    }
    if rest.len() == 1 {
        rest.into_iter().next().unwrap()
    } else {
        C::Union(rest)
    }
}

pub fn show(c: &C) -> String {
    match c {
        C::Null => "null".into(),
        C::Name(n) => n.clone(),
        C::Lit(l) => format!("\"{l}\""),
        C::Arr(a) => format!("({})[]", show(a)),
        C::Union(s) => s.iter().map(show).collect::<Vec<_>>().join(" | "),
        C::Obj(m) => format!(
            "{{{}}}",
            m.iter()
                .map(|(n, p)| format!(
                    "{}{n}{}: {}{}{}",
                    if p.readonly { "ro " } else { "" },
                    if p.optional { "?" } else { "" },
                    show(&p.ty),
                    if p.deprecated { " @deprecated" } else { "" },
                    if p.doc.is_empty() { String::new() } else { format!(" /*{}*/", p.doc.join("|")) },
                ))
                .collect::<Vec<_>>()
                .join("; ")
        ),
    }
}

/// First place where two canonical types differ.
pub fn diff(path: &str, want: &C, got: &C) -> Option<String> {
    if want == got {
        return None;
    }
    if let (C::Obj(a), C::Obj(b)) = (want, got) {
        for (n, p) in a {
            match b.get(n) {
                None => return Some(format!("{path}.{n}: missing (expected {})", show(&p.ty))),
                Some(q) => {
                    if let Some(d) = diff(&format!("{path}.{n}"), &p.ty, &q.ty) {
                        return Some(d);
                    }
                    if p != q {
                        return Some(format!("{path}.{n}: expected {} got {}", show(&C::Obj([(n.clone(), p.clone())].into())), show(&C::Obj([(n.clone(), q.clone())].into()))));
                    }
                }
            }
        }
        for n in b.keys() {
            if !a.contains_key(n) {
                return Some(format!("{path}.{n}: not expected"));
            }
        }
    }
    if let (C::Arr(a), C::Arr(b)) = (want, got) {
        return diff(&format!("{path}[]"), a, b);
    }
    let mut s = format!("{path}: expected {} got {}", show(want), show(got));
    if s.len() > 600 {
        s = format!("{}...", s.chars().take(600).collect::<String>());
    }
    Some(s)
}

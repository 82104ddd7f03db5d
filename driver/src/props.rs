//! One generator and one judge per property.
//!
//! `generate` turns a seed into a case (project, history, schedules, faults);
//! `judge` decides from what the simulated runs did whether the property held.
use crate::case::{Case, Obs, Step};
use crate::doc::*;
use crate::edit;
use crate::model::{Expected, Io, Level, Model};
use crate::oracle::{self, Files};
use crate::out::{self, Lv, Output, Printed};
use crate::project::{self, join, parent, Entry, GenOpts, Project, RawKind};
use crate::rng::{hash_bytes, mix, Rng};
use crate::schema::{Kind, GT};
use crate::sim::{End, Env, Lab, Run};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
pub struct Viol {
    /// Which judge found it: kept fixed while a case is being minimised.
    pub tag: String,
    pub text: String,
}

fn viol<T>(tag: &str, text: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { tag: tag.into(), text: text.into() })
}
fn t<T>(tag: &str, r: Result<T, String>) -> Result<T, Viol> {
    r.map_err(|text| Viol { tag: tag.into(), text })
}

pub const SIMULATED: [&str; 24] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C19", "C20", "C21", "C22", "C23", "C24", "C26", "C27", "C28",
];

pub fn with_threads(args: &[String], n: usize) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let mut skip = false;
    for a in args {
        if skip {
            skip = false;
        } else if a == "--num-threads" {
            skip = true;
        } else {
            v.push(a.clone());
        }
    }
    v.push("--num-threads".into());
    v.push(n.to_string());
    v
}

fn run_step(p: &Project, env: Env) -> Step {
    Step::Run { args: p.args.clone(), env }
}
fn case(prop: &str, seed: u64, flavour: &str, proj: Project, steps: Vec<Step>) -> Case {
    Case { prop: prop.into(), seed, flavour: flavour.into(), proj, steps }
}

// ------------------------------------------------------------ fault planning

/// Everything one run may have trouble with.
#[derive(Clone, Debug, PartialEq)]
pub struct Target {
    pub cls: &'static str,
    pub path: String,
}

fn imports_of(p: &Project) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for (k, e) in &p.entries {
        if let Entry::Doc(d) = e {
            for i in d.imports() {
                let tgt = p.resolve(k, &i.text);
                if matches!(p.entries.get(&tgt), Some(Entry::Doc(_)) | Some(Entry::Raw(..))) {
                    s.insert(tgt);
                }
            }
        }
    }
    s
}

pub fn targets(p: &Project) -> Vec<Target> {
    let mut v = Vec::new();
    let mut add = |cls: &'static str, path: &str| v.push(Target { cls, path: path.to_string() });
    let srcs = p.sources();
    let mut files: BTreeSet<String> = srcs.iter().cloned().collect();
    files.extend(imports_of(p));
    for f in &files {
        add("openr", f);
        add("read", f);
    }
    for d in p.dirs() {
        if d == p.root || p.under_root(&d) {
            add("opendir", &d);
            add("readdir", &d);
            if d != p.root {
                add("stat", &d);
            }
        }
    }
    for s in &srcs {
        add("openw", &Project::output_of(s));
        add("write", &Project::output_of(s));
    }
    for _ in 0..3 {
        add("openw", &p.globals_path());
        add("write", &p.globals_path());
    }
    v
}

pub fn errno_for(r: &mut Rng, cls: &str) -> i64 {
    *match cls {
        "openr" => r.pick(&[13i64, 5, 24, 2, 12, 116, 40, 1]),
        "read" => r.pick(&[5i64, 11, 21, 12, 116]),
        "opendir" => r.pick(&[13i64, 5, 24, 2, 12, 20]),
        "readdir" => r.pick(&[5i64, 12, 75]),
        "stat" => r.pick(&[5i64, 13, 12]),
        "openw" => r.pick(&[13i64, 28, 30, 5, 122, 24, 21, 2]),
        _ => r.pick(&[28i64, 5, 122, 27, 32]),
    }
}

// ------------------------------------------------------------ generators

fn base_opts(prop: &str, r: &mut Rng) -> GenOpts {
    let mut o = GenOpts::default();
    o.odd_names = r.pct(10);
    match prop {
        "C01" => {
            o.wide_pct = 12;
            if r.pct(25) {
                o.error_pct = 25;
                o.raw_pct = 10;
            }
            o.max_dirs = [6, 14][r.below(2)];
        }
        "C03" => {
            o.error_pct = [0, 35][r.below(2)];
            o.raw_pct = 5;
            o.wide_pct = 3;
            o.narrow_pct = 15;
            o.import_faults = r.pct(20);
            o.max_frags = 6;
        }
        "C04" => {
            o.error_pct = [0, 0, 20][r.below(3)];
        }
        "C05" => {
            o.error_pct = 25;
            o.raw_pct = 15;
            o.import_faults = r.pct(25);
            o.max_queries = 9;
        }
        "C06" => o.error_pct = [0, 25][r.below(2)],
        "C08" => {
            o.error_pct = 20;
            o.raw_pct = 10;
            o.import_faults = r.pct(30);
        }
        "C09" => {
            o.error_pct = [0, 20][r.below(2)];
            o.max_queries = 9;
            o.recursive_inputs = r.pct(40);
        }
        "C11" => {
            o.max_frags = 8;
            o.import_faults = true;
            o.import_cycles = r.pct(30);
            o.error_pct = 8;
        }
        "C12" => {
            o.max_frags = 6;
            o.sel_budget = 24;
            o.big_schema = r.pct(50);
            o.narrow_pct = 12;
            o.recursive_inputs = r.pct(20);
        }
        "C23" => {
            o.docs = true;
            o.recursive_inputs = r.pct(20);
            o.narrow_pct = 8;
        }
        "C26" => {
            o.docs = r.pct(30);
            o.recursive_inputs = r.pct(20);
            o.big_schema = r.pct(30);
            o.max_frags = 5;
            o.sel_budget = 20;
            o.narrow_pct = 8;
            o.error_pct = [0, 6][r.below(2)];
        }
        "C24" => {
            o.max_frags = 5;
            o.sel_budget = 24;
            o.narrow_pct = 8;
        }
        "C13" => {
            o.error_pct = [0, 15, 50][r.below(3)];
            o.raw_pct = [0, 10][r.below(2)];
            o.narrow_pct = 20;
            o.import_faults = r.pct(30);
        }
        "C14" => {
            o.error_pct = 50;
            o.raw_pct = 12;
            o.narrow_pct = 15;
            o.max_frags = 6;
        }
        "C28" => {
            o.error_pct = 25;
            o.raw_pct = 8;
            o.narrow_pct = 10;
            o.max_frags = 6;
        }
        "C19" => {
            o.error_pct = 10;
            o.max_queries = 4;
        }
        "C20" | "C07" | "C27" => {
            o.error_pct = 8;
            o.max_queries = 5;
            o.narrow_pct = 8;
        }
        "C21" => {
            o.input_deprecations = false; // see findings/C21-deprecated-input-field.json
            o.narrow_pct = 8;
            o.error_pct = 10;
            o.recursive_inputs = r.pct(20);
        }
        "C22" => {
            o.error_pct = 20;
            o.raw_pct = 5;
            o.max_queries = 8;
        }
        _ => {}
    }
    o
}

/// A chain of directories one below the other: work trickles in one item at a time.
fn chain(r: &mut Rng, p: &mut Project) {
    let mut d = p.root.clone();
    for i in 0..if r.pct(5) { r.range(12, 70) } else { r.range(2, 12) } {
        d = join(&d, &format!("c{i}"));
        if r.pct(40) || i == 1 {
            let mut doc = tiny(&format!("Chain{i}"));
            doc.render();
            p.entries.insert(join(&d, &format!("c{i}.graphql")), Entry::Doc(doc));
        }
        p.entries.insert(d.clone(), Entry::Dir);
    }
    let mut doc = tiny("ChainEnd");
    doc.render();
    p.entries.insert(join(&d, "end.graphql"), Entry::Doc(doc));
}

pub fn field(n: &str) -> Sel {
    Sel::Field { alias: None, name: n.into(), args: None, sel: vec![], pos: Pos::default() }
}
pub fn tiny(name: &str) -> Doc {
    Doc {
        header: vec![],
        def: Def::Op { kind: OpKind::Query, name: Some(name.into()), vars: vec![], sel: vec![field("__typename")] },
        trailer: vec![],
        crlf: false,
        cr: false,
        bom: false,
        compact: true,
        style: 0,
    }
}
fn frag(name: &str, on: &str, imports: &[String], sel: Vec<Sel>) -> Doc {
    let mut d = Doc {
        header: imports
            .iter()
            .map(|t| HeaderLine::Import(Import { text: t.clone(), suffix: "".into(), closed: true, line: 0 }))
            .collect(),
        def: Def::Frag { name: name.into(), on: on.into(), sel, pos: Pos::default() },
        trailer: vec![],
        crlf: false,
        cr: false,
        bom: false,
        compact: false,
        style: 0,
    };
    d.render();
    d
}

/// A document and its fragment in some directory, under names every directory may use:
/// the same import text means another file in each.
pub fn twin(r: &mut Rng, p: &mut Project) {
    let dirs: Vec<String> = p.dirs().into_iter().filter(|d| d == &p.root || p.under_root(d)).collect();
    let mut ds: Vec<String> = Vec::new();
    for _ in 0..r.range(1, 3) {
        let d = r.pick(&dirs).clone();
        if !ds.contains(&d) {
            ds.push(d);
        }
    }
    let leafs: Vec<String> =
        p.schema.fields("Query").unwrap_or(&[]).iter().filter(|f| !p.schema.is_composite(f.ty.name())).map(|f| f.name.clone()).collect();
    let same_name = r.pct(60);
    let nested = r.pct(40);
    let n = r.below(3);
    for d in ds {
        if [format!("use{n}"), format!("twin{n}"), format!("twin_inner{n}")].iter().any(|s| p.entries.contains_key(&join(&d, &format!("{s}.graphql")))) {
            continue;
        }
        let k = r.below(1000);
        let (name, inner) = if same_name { (format!("Twin{n}"), format!("TwinInner{n}")) } else { (format!("Twin{n}x{k}"), format!("TwinInner{n}x{k}")) };
        let some = |r: &mut Rng| -> Vec<Sel> {
            let mut v = vec![Sel::Field { alias: Some(format!("in{k}")), name: "__typename".into(), args: None, sel: vec![], pos: Pos::default() }];
            if !leafs.is_empty() {
                v.push(field(r.pick(&leafs)));
            }
            v
        };
        let mut sel = some(r);
        let mut imps = vec![];
        if nested {
            imps.push(format!("./twin_inner{n}.graphql"));
            sel.push(Sel::Spread { name: inner.clone(), pos: Pos::default() });
            let s = some(r);
            p.entries.insert(join(&d, &format!("twin_inner{n}.graphql")), Entry::Doc(frag(&inner, "Query", &[], s)));
        }
        p.entries.insert(join(&d, &format!("twin{n}.graphql")), Entry::Doc(frag(&name, "Query", &imps, sel)));
        let mut u = tiny(&format!("Use{n}x{k}"));
        u.header.push(HeaderLine::Import(Import { text: format!("./twin{n}.graphql"), suffix: "".into(), closed: true, line: 0 }));
        u.sel_mut().push(Sel::Spread { name, pos: Pos::default() });
        u.compact = false;
        u.render();
        p.entries.insert(join(&d, &format!("use{n}.graphql")), Entry::Doc(u));
    }
}

/// How many field selections a compiler that keeps one selection per concrete type would handle.
/// Nested selections on interfaces multiply; projects where they multiply into millions are not generated.
fn size(p: &Project) -> usize {
    fn go(p: &Project, f: &BTreeMap<&str, (&str, &Vec<Sel>)>, sels: &[Sel], ty: &str, live: usize, depth: usize, n: &mut usize) {
        for s in sels {
            *n += live.max(1);
            if *n > LIMIT || depth > 60 {
                return;
            }
            match s {
                Sel::Field { name, sel, .. } if !sel.is_empty() => {
                    if let Some(fd) = p.schema.fields(ty).and_then(|x| x.iter().find(|x| &x.name == name)) {
                        let k = p.schema.possible(fd.ty.name()).map_or(1, |x| x.len());
                        // Kept once per concrete type around it.
                        let before = *n;
                        go(p, f, sel, fd.ty.name(), k, depth + 1, n);
                        *n += (*n - before) * live.saturating_sub(1);
                    }
                }
                Sel::Inline { on: Some(on), sel, .. } => {
                    let k = p.schema.possible(on).map_or(1, |x| x.len());
                    go(p, f, sel, on, k, depth + 1, n);
                }
                Sel::Spread { name, .. } => {
                    if let Some((on, sel)) = f.get(name.as_str()) {
                        let k = p.schema.possible(on).map_or(1, |x| x.len());
                        go(p, f, sel, on, k, depth + 1, n);
                    }
                }
                _ => {}
            }
        }
    }
    let frags: BTreeMap<&str, (&str, &Vec<Sel>)> = p
        .entries
        .values()
        .filter_map(|e| match e {
            Entry::Doc(Doc { def: Def::Frag { name, on, sel, .. }, .. }) => Some((name.as_str(), (on.as_str(), sel))),
            _ => None,
        })
        .collect();
    let mut n = 0;
    for e in p.entries.values() {
        if let Entry::Doc(d) = e {
            let ty = match &d.def {
                Def::Frag { on, .. } => on.as_str(),
                Def::Op { kind: OpKind::Mutation, .. } => "Mutation",
                _ => "Query",
            };
            go(p, &frags, d.sel(), ty, p.schema.possible(ty).map_or(1, |x| x.len()), 0, &mut n);
        }
    }
    n
}
const LIMIT: usize = 300_000;

fn generated(r: &mut Rng, o: &GenOpts) -> Project {
    let mut p = project::generate(r, o);
    while !o.spread_cycles && size(&p) > LIMIT {
        p = project::generate(r, &GenOpts { sel_budget: 6, max_frags: o.max_frags.min(4), big_schema: false, ..o.clone() });
    }
    if r.pct(18) {
        chain(r, &mut p);
    }
    if r.pct(2) {
        links(r, &mut p);
    }
    for _ in 0..r.below(3) {
        if r.pct(30) {
            twin(r, &mut p);
        }
    }
    p
}

/// Documents no server would accept, on which runs could still disagree with one another.
fn weirdify(r: &mut Rng, p: &mut Project) {
    let frags: Vec<String> = p
        .entries
        .iter()
        .filter(|(_, e)| matches!(e, Entry::Doc(Doc { def: Def::Frag { .. }, .. })))
        .map(|(k, _)| k.clone())
        .collect();
    if frags.len() >= 2 && r.pct(60) {
        // Two files define the same fragment.
        let a = r.pick(&frags).clone();
        let b = r.pick(&frags).clone();
        let name = match &p.entries[&a] {
            Entry::Doc(Doc { def: Def::Frag { name, .. }, .. }) => name.clone(),
            _ => return,
        };
        if let Some(Entry::Doc(d)) = p.entries.get_mut(&b) {
            if let Def::Frag { name: n, .. } = &mut d.def {
                *n = name;
            }
            d.render();
        }
    }
    for e in p.entries.values_mut() {
        if let Entry::Doc(d) = e {
            if r.pct(30) {
                let fields: Vec<Sel> = d.sel().iter().filter(|s| matches!(s, Sel::Field { sel, .. } if sel.is_empty())).cloned().collect();
                for f in fields.iter().take(3) {
                    if let Sel::Field { name, .. } = f {
                        d.sel_mut().push(Sel::Field { alias: Some("same".into()), name: name.clone(), args: None, sel: vec![], pos: Pos::default() });
                    }
                }
                d.render();
            }
            if r.pct(25) {
                // A misspelt field with several near neighbours.
                let names: Vec<String> = p.schema.fields("Query").unwrap_or(&[]).iter().map(|f| f.name.clone()).collect();
                if !names.is_empty() {
                    let mut n = r.pick(&names).clone();
                    n.pop();
                    n.push('z');
                    d.sel_mut().push(field(&n));
                }
                d.render();
            }
        }
    }
}

/// A long chain of fragments, each importing and spreading the next, across two directories.
fn links(r: &mut Rng, p: &mut Project) {
    let n = r.range(12, 56);
    let style = r.below(3);
    let below = p.schema.fields("Query").unwrap_or(&[]).iter().find(|f| f.ty.name() == "Query").map(|f| f.name.clone());
    let place = |i: usize| if i % 3 == 2 { format!("links/link{i}.graphql") } else { format!("link{i}.graphql") };
    for i in 0..n {
        let mut sel = vec![Sel::Field { alias: Some(format!("link{i}")), name: "__typename".into(), args: None, sel: vec![], pos: Pos::default() }];
        let mut imps = Vec::new();
        if i + 1 < n {
            imps.push(project::relative(if i % 3 == 2 { "links" } else { "" }, &place(i + 1)));
            let sp = Sel::Spread { name: format!("Link{}", i + 1), pos: Pos::default() };
            sel.push(match (style, &below) {
                (1, _) => Sel::Inline { on: Some("Query".into()), sel: vec![sp], pos: Pos::default() },
                (2, Some(f)) if i < 20 => Sel::Field { alias: Some("down".into()), name: f.clone(), args: None, sel: vec![sp], pos: Pos::default() },
                _ => sp,
            });
        }
        p.entries.insert(join(&p.root, &place(i)), Entry::Doc(frag(&format!("Link{i}"), "Query", &imps, sel)));
    }
    let mut q = tiny("LinkUser");
    q.header.push(HeaderLine::Import(Import { text: "./link0.graphql".into(), suffix: "".into(), closed: true, line: 0 }));
    q.sel_mut().push(Sel::Spread { name: "Link0".into(), pos: Pos::default() });
    q.render();
    p.entries.insert(join(&p.root, "link_user.graphql"), Entry::Doc(q));
}

/// Import-only diamonds: 2^depth paths through `depth` files.
fn ladder(r: &mut Rng, p: &mut Project) {
    let n = r.range(12, 24);
    let ty = "Query";
    for i in 0..n {
        for s in ["l", "r"] {
            let imps: Vec<String> = if i + 1 < n {
                vec![format!("./ladder_l{}.graphql", i + 1), format!("./ladder_r{}.graphql", i + 1)]
            } else {
                vec![]
            };
            let d = frag(&format!("Ladder{}{i}", s.to_uppercase()), ty, &imps, vec![field("__typename")]);
            p.entries.insert(join(&p.root, &format!("ladder_{s}{i}.graphql")), Entry::Doc(d));
        }
    }
}

/// Fragments that each spread others several times: as many paths as there are ways down.
fn spread_ladder(r: &mut Rng, p: &mut Project) {
    let n = r.range(14, 40);
    let style = r.below(3);
    let name = |i: usize| format!("./spread{i}.graphql");
    let roots: Vec<String> = p
        .schema
        .fields("Query")
        .unwrap_or(&[])
        .iter()
        .filter(|f| f.ty.name() == "Query" && p.schema.is_composite(f.ty.name()))
        .map(|f| f.name.clone())
        .collect();
    for i in 0..n {
        let to: Vec<usize> = match style {
            0 => vec![i + 1, i + 1],
            1 => vec![i + 1, i + 2],
            _ => vec![i + 2, i + 1, i + 3],
        };
        let to: Vec<usize> = to.into_iter().filter(|j| *j < n).collect();
        let mut sel = vec![field("__typename")];
        for (k, j) in to.iter().enumerate() {
            let sp = Sel::Spread { name: format!("Ladder{j}"), pos: Pos::default() };
            sel.push(match k % 3 {
                1 => Sel::Inline { on: Some("Query".into()), sel: vec![sp], pos: Pos::default() },
                2 if !roots.is_empty() => {
                    Sel::Field { alias: None, name: roots[0].clone(), args: None, sel: vec![field("__typename"), sp], pos: Pos::default() }
                }
                _ => sp,
            });
        }
        let imps: Vec<String> = to.iter().collect::<BTreeSet<_>>().into_iter().map(|j| name(*j)).collect();
        let d = frag(&format!("Ladder{i}"), "Query", &imps, sel);
        p.entries.insert(join(&p.root, &format!("spread{i}.graphql")), Entry::Doc(d));
    }
}

/// Files that import each other in a ring (or themselves), each spreading only what is safe.
fn ring(r: &mut Rng, p: &mut Project, spread: bool) {
    let n = r.range(1, 4);
    let absolute = r.pct(30);
    for i in 0..n {
        let j = (i + 1) % n;
        let text = if absolute { format!("ring{j}.graphql") } else { format!("./ring{j}.graphql") };
        let mut sel = vec![field("__typename")];
        if spread {
            sel.push(Sel::Spread { name: format!("Ring{j}"), pos: Pos::default() });
        }
        let d = frag(&format!("Ring{i}"), "Query", &[text], sel);
        p.entries.insert(join(&p.root, &format!("ring{i}.graphql")), Entry::Doc(d));
    }
    let mut q = tiny("RingUser");
    q.header.push(HeaderLine::Import(Import { text: "./ring0.graphql".into(), suffix: "".into(), closed: true, line: 0 }));
    q.sel_mut().push(Sel::Spread { name: "Ring0".into(), pos: Pos::default() });
    q.compact = false;
    q.render();
    p.entries.insert(join(&p.root, "ring_user.graphql"), Entry::Doc(q));
}

/// Many entries in one place: more than any queue of fixed size would hold.
fn wide(prop: &str, r: &mut Rng, seed: u64, o: &GenOpts) -> Case {
    let mut p = generated(r, &GenOpts { max_queries: 2, max_dirs: 1, ..o.clone() });
    let n = [300, 700, 1100, 2200, 4200][r.below(5)];
    let dirs: Vec<String> = p.dirs().into_iter().filter(|d| d == &p.root || p.under_root(d)).collect();
    let d = r.pick(&dirs).clone();
    let kind = r.below(3);
    for i in 0..n {
        if kind == 0 || (kind == 1 && i % 2 == 0) {
            let mut doc = tiny(&format!("W{i}"));
            doc.render();
            p.entries.insert(join(&d, &format!("w{i}.graphql")), Entry::Doc(doc));
        } else {
            p.entries.insert(join(&d, &format!("d{i}")), Entry::Dir);
        }
    }
    let mut e = Env::wild(r);
    e.max_steps = 10 * crate::sim::default_max_steps();
    let n = r.range(1, 4);
    let args = with_threads(&p.args, n);
    case(prop, seed, "wide", p, vec![Step::Run { args, env: e }])
}

/// More imports, direct and through each other, than any fixed bound would hold.
fn crowd(prop: &str, r: &mut Rng, seed: u64, o: &GenOpts) -> Case {
    let mut p = project::generate(r, &GenOpts { max_queries: 2, max_dirs: 1, error_pct: 0, raw_pct: 0, ..o.clone() });
    let d = join(&p.root, "crowd");
    p.entries.insert(d.clone(), Entry::Dir);
    let n: usize = [10, 33, 65, 101, 130, 257, 300][r.below(7)];
    // How many of its predecessors each fragment is behind, and how many the document names itself.
    let (links, direct) = [(0, 100), (1, 0), (1, 30), (2, 0), (2, 10)][r.below(5)];
    let spread = |i: usize| Sel::Spread { name: format!("Crowd{i}"), pos: Pos::default() };
    for i in 0..n {
        let before: Vec<usize> = match links {
            0 => vec![],
            1 => i.checked_sub(1).into_iter().collect(),
            _ => [2 * i + 1, 2 * i + 2].into_iter().filter(|x| *x < n).collect(),
        };
        let mut sel = vec![Sel::Field { alias: Some(format!("c{i}")), name: "__typename".into(), args: None, sel: vec![], pos: Pos::default() }];
        sel.extend(before.iter().map(|x| spread(*x)));
        let im: Vec<String> = before.iter().map(|x| format!("./c{x}.graphql")).collect();
        p.entries.insert(join(&d, &format!("c{i}.graphql")), Entry::Doc(frag(&format!("Crowd{i}"), "Query", &im, sel)));
    }
    let mut q = tiny("Everyone");
    let head = if links == 2 { 0 } else { n - 1 };
    for i in 0..n {
        if i == head || r.pct(direct) {
            q.header.push(HeaderLine::Import(Import { text: format!("./c{i}.graphql"), suffix: "".into(), closed: true, line: 0 }));
            q.sel_mut().push(spread(i));
        }
    }
    if r.pct(20) {
        // The last one reached is missing.
        let last = if links == 1 { 0 } else { n - 1 };
        p.entries.remove(&join(&d, &format!("c{last}.graphql")));
    }
    q.render();
    p.entries.insert(join(&d, "everyone.graphql"), Entry::Doc(q));
    let n = r.range(1, 4);
    let args = with_threads(&p.args, n);
    case(prop, seed, "crowd", p, vec![Step::Run { args, env: Env::wild(r) }])
}

/// Hundreds of mistakes and warnings, spread over a few documents.
fn many(prop: &str, r: &mut Rng, seed: u64, o: &GenOpts) -> Case {
    let mut p = project::generate(r, &GenOpts { max_queries: 2, max_dirs: 2, error_pct: 0, raw_pct: 0, ..o.clone() });
    let dirs: Vec<String> = p.dirs().into_iter().filter(|d| d == &p.root || p.under_root(d)).collect();
    let narrow: Vec<String> = p.schema.types.iter().filter(|t| p.schema.is_composite(&t.name) && !p.schema.possible(&t.name).unwrap().iter().any(|x| x == "Query")).map(|t| t.name.clone()).collect();
    let count = |r: &mut Rng| [0, 1, 2, 99, 100, 101, 127, 128, 255, 256, 257, 300, 512, 600][r.below(14)];
    let (mut errors, mut warnings) = (count(r), if narrow.is_empty() { 0 } else { count(r) });
    let per = [1, 5, 64, 1000][r.below(4)];
    let mut i = 0;
    while errors + warnings > 0 && i < 700 {
        let mut d = tiny(&format!("Many{i}"));
        for _ in 0..r.range(1, per) {
            if errors > 0 && (warnings == 0 || r.pct(50)) {
                errors -= 1;
                d.sel_mut().push(field(&format!("nmae{}", r.below(3))));
            } else if warnings > 0 {
                warnings -= 1;
                d.sel_mut().push(Sel::Inline { on: Some(r.pick(&narrow).clone()), sel: vec![field("__typename")], pos: Pos::default() });
            }
        }
        d.compact = r.pct(50);
        d.render();
        p.entries.insert(join(r.pick(&dirs), &format!("many{i}.graphql")), Entry::Doc(d));
        i += 1;
    }
    let mut e = Env::wild(r);
    e.max_steps = 10 * crate::sim::default_max_steps();
    let n = r.range(1, 5);
    let args = with_threads(&p.args, n);
    case(prop, seed, "many", p, vec![Step::Run { args, env: e }])
}

/// Almost nothing to do but to find the work: few tiny documents in chains of directories, a handful of workers.
/// Cheap to run, so that many schedules of the hand-over of work are tried.
fn trickle(prop: &str, r: &mut Rng, seed: u64) -> Case {
    let schema = crate::schema::Schema {
        types: vec![crate::schema::TypeDef {
            name: "Query".into(),
            desc: None,
            kind: Kind::Object(vec![crate::schema::FieldDef {
                name: "id".into(),
                ty: GT::N("ID".into()),
                desc: None,
                deprecated: false,
            }]),
        }],
    };
    let mut p = project::generate(r, &GenOpts { max_dirs: 0, max_queries: 1, max_frags: 0, vary_config: false, decoys: false, links: false, ..Default::default() });
    p.schema = schema;
    p.entries.clear();
    let n = match r.below(10) {
        0 => r.range(40, 400),
        1 | 2 => r.range(8, 30),
        _ => r.range(2, 8),
    };
    let branches = if n > 30 { 1 } else { r.range(1, 2) };
    for b in 0..branches {
        let mut d = p.root.clone();
        for i in 0..n {
            d = join(&d, &format!("{}{}", ["c", "d"][b], if i == 0 && b > 0 { "x" } else { "" }));
            p.entries.insert(d.clone(), Entry::Dir);
            if r.pct(15) || i + 1 == n {
                for k in 0..r.range(1, 2) {
                    let mut doc = tiny(&format!("T{b}x{i}x{k}"));
                    doc.render();
                    p.entries.insert(join(&d, &format!("t{k}.graphql")), Entry::Doc(doc));
                }
            }
        }
    }
    let e = Env::wild(r);
    let n = r.range(2, 5);
    let args = with_threads(&p.args, n);
    case(prop, seed, "trickle", p, vec![Step::Run { args, env: e }])
}

/// A document with text as editors, merges and other systems leave it.
fn odd_text(r: &mut Rng, p: &mut Project) {
    let docs: Vec<String> = p.entries.iter().filter(|(_, e)| matches!(e, Entry::Doc(_))).map(|(k, _)| k.clone()).collect();
    if docs.is_empty() {
        return;
    }
    let k = r.pick(&docs).clone();
    let Some(Entry::Doc(d)) = p.entries.get_mut(&k) else { return };
    if r.pct(60) {
        d.sel_mut().push(field("nmae"));
    }
    let mut s: Vec<char> = d.render().chars().collect();
    for _ in 0..r.range(1, 5) {
        let i = r.below(s.len() + 1);
        match r.below(10) {
            0 => s = s.into_iter().flat_map(|c| if c == '\n' { vec!['\r'] } else { vec![c] }).collect(),
            1 => s = s.into_iter().flat_map(|c| if c == '\n' { vec!['\n', '\r'] } else { vec![c] }).collect(),
            2 => {
                for c in s.iter_mut() {
                    if *c == '\n' && r.pct(40) {
                        *c = '\r';
                    }
                }
            }
            3 => s.insert(0, '\u{feff}'),
            4 => {
                let x = ['\u{0}', '\t', '\u{b}', '\u{c}', '\u{85}', '\u{2028}', '\u{1f600}', '\u{301}', '\u{feff}', '\u{1b}', '\r', '\u{ffff}'];
                for _ in 0..r.range(1, 6) {
                    let j = r.below(s.len() + 1);
                    s.insert(j, *r.pick(&x));
                }
            }
            5 => s.truncate(i),
            6 => {
                let j = i + r.below(s.len() - i + 1);
                let part: Vec<char> = s[i..j].to_vec();
                s.splice(i..i, part);
            }
            7 => {
                let t = ["# \r\r\r\n", "#import \"", "\"\"\"", "\"\\u{1F600}\"", "...", "@", "$", "query", "{", "}", "<<<<<<< HEAD\n", "(a: \"\\", "\r\r# x\r"];
                s.splice(i..i, r.pick(&t).chars());
            }
            8 => {
                let n = r.range(1, 40);
                let t: String = "{ a ".repeat(n);
                s.splice(i..i, t.chars());
            }
            _ => {
                // Suggestions for a name take the product of the lengths of the names compared.
                let n = r.range(100, 1500);
                s.splice(i..i, std::iter::repeat('x').take(n));
            }
        }
        if s.is_empty() {
            break;
        }
    }
    p.entries.insert(k, Entry::Raw(RawKind::Weird, s.into_iter().collect()));
}

/// The project with every option given on the command line and no configuration file.
pub fn plain(p: &Project) -> Project {
    let mut q = p.clone();
    q.config = None;
    q.args = edit::plain_args(p);
    q
}

fn io_fault_env(r: &mut Rng, p: &Project, env: &mut Env, n: usize, persistent: bool) {
    let ts = targets(p);
    for _ in 0..n {
        let x = r.pick(&ts).clone();
        let e = errno_for(r, x.cls);
        let occ = if persistent {
            0
        } else {
            match x.cls {
                "readdir" => r.range(1, 5) as u32,
                "read" => r.range(1, 4) as u32,
                "openr" => r.range(1, 3) as u32,
                _ => 1,
            }
        };
        if x.cls == "stat" {
            env.dt_unknown = 65_535;
        }
        if x.cls == "write" && r.pct(40) && !persistent {
            env.rule("write", &x.path, 1, "short", r.below(2000) as i64);
            env.rule("write", &x.path, 2, "errno", e);
        } else {
            env.rule(x.cls, &x.path, occ, "errno", e);
        }
    }
}

pub fn generate(prop: &str, seed: u64, lab: &mut Lab) -> Case {
    let mut rr = Rng::new(mix(seed) ^ hash_bytes(prop.as_bytes()));
    let r = &mut rr;
    let o = base_opts(prop, r);
    match prop {
        "C01" => {
            if r.pct(1) {
                return wide(prop, r, seed, &o);
            }
            if r.pct(2) {
                return many(prop, r, seed, &o);
            }
            if r.pct(20) {
                return trickle(prop, r, seed);
            }
            let p = generated(r, &o);
            let n = match r.below(4) {
                0 => r.range(1, 2),
                1 => r.range(7, 20),
                _ => r.range(2, 6),
            };
            let mut e = Env::wild(r);
            if r.pct(30) {
                e.noise(r);
            }
            let args = if r.pct(8) { p.args.clone() } else { with_threads(&p.args, n) };
            case(prop, seed, "tree", p, vec![Step::Run { args, env: e }])
        }
        "C02" => {
            if r.pct(3) {
                return wide(prop, r, seed, &o);
            }
            if r.pct(6) {
                return trickle(prop, r, seed);
            }
            let fl = r.below(13);
            let mut o = o;
            let (name, threads) = match fl {
                0 => ("import-ring", None),
                1 => ("spread-ring", None),
                2 => ("recursive-inputs", None),
                3 => ("malformed-imports", None),
                4 => ("import-ladder", None),
                5 => ("threads", Some([0usize, 1, 32, 96][r.below(4)])),
                6 | 7 => ("faults", None),
                8 => ("cycles", None),
                9 | 10 => ("odd-text", None),
                11 => ("spread-ladder", None),
                _ => ("plain", None),
            };
            o.recursive_inputs = fl == 2 || r.pct(15);
            o.malformed_imports = fl == 3;
            o.import_cycles = fl == 8;
            o.spread_cycles = fl == 8 && r.pct(50);
            o.error_pct = [0, 20][r.below(2)];
            o.raw_pct = [0, 15][r.below(2)];
            let mut p = generated(r, &o);
            match fl {
                0 => ring(r, &mut p, false),
                1 => ring(r, &mut p, true),
                4 => ladder(r, &mut p),
                11 => spread_ladder(r, &mut p),
                9 | 10 => {
                    for _ in 0..r.range(1, 4) {
                        odd_text(r, &mut p);
                    }
                }
                _ => {}
            }
            let mut e = Env::wild(r);
            if r.pct(30) {
                e.noise(r);
            }
            if fl == 6 || fl == 7 {
                let (n, per) = (r.range(1, 5), r.pct(30));
                io_fault_env(r, &p, &mut e, n, per);
                if r.pct(20) {
                    let path = p.schema_path.clone();
                    let c = ["openr", "read"][r.below(2)];
                    let en = errno_for(r, c);
                    e.rule(c, &path, r.below(3) as u32, "errno", en);
                }
            }
            let args = match threads {
                Some(n) => with_threads(&p.args, n),
                None => {
                    let n = r.range(1, 8);
                    with_threads(&p.args, n)
                }
            };
            case(prop, seed, name, p, vec![Step::Run { args, env: e }])
        }
        "C03" => {
            let mut p = if r.pct(10) { trickle(prop, r, seed).proj } else { generated(r, &o) };
            let mut fl = "regular";
            if r.pct(40) {
                weirdify(r, &mut p);
                fl = "irregular";
            }
            let mut steps = vec![Step::Run { args: with_threads(&p.args, 1), env: Env::calm() }];
            for _ in 0..2 {
                let e = Env::wild(r);
                let n = r.range(1, 9);
                steps.push(Step::Fresh);
                steps.push(Step::Run { args: with_threads(&p.args, n), env: e });
            }
            case(prop, seed, fl, p, steps)
        }
        "C04" => {
            let p = generated(r, &o);
            let mut e = Env::wild(r);
            if r.pct(20) {
                e.noise(r);
            }
            let fl = match r.below(10) {
                0 => {
                    let c = ["openr", "read"][r.below(2)];
                    let en = errno_for(r, c);
                    let occ = if c == "read" { r.range(1, 3) as u32 } else { 1 };
                    let sp = p.schema_path.clone();
                    e.rule(c, &sp, occ, "errno", en);
                    "schema"
                }
                1 => {
                    let c = ["openr", "read"][r.below(2)];
                    let en = [13i64, 5, 24, 12, 40][r.below(5)];
                    let cp = p.config.as_ref().map_or(".qlcrc.json".to_string(), |c| c.0.clone());
                    e.rule(c, &cp, 1, "errno", en);
                    "config"
                }
                2 => {
                    let en = [32i64, 28, 5][r.below(3)];
                    e.rule("write", "<stdout>", r.range(1, 4) as u32, "errno", en);
                    ["stdout", "stdout-warnings"][r.below(2)]
                }
                3 | 4 => {
                    let n = r.range(2, 4);
                    io_fault_env(r, &p, &mut e, n, false);
                    "several"
                }
                5 => {
                    io_fault_env(r, &p, &mut e, 1, true);
                    "persistent"
                }
                _ => {
                    io_fault_env(r, &p, &mut e, 1, false);
                    "one"
                }
            };
            let mut p = p;
            if fl == "stdout" {
                // Something must be printed.
                let k = join(&p.root, "unreadable_words.graphql");
                p.entries.insert(k, Entry::Raw(RawKind::ParseError, "qwery {".into()));
            }
            if fl == "stdout-warnings" {
                // Only warnings are, which alone would leave the status at 0.
                let used: Vec<String> =
                    p.schema.types.iter().filter(|t| p.schema.is_composite(&t.name) && t.name != "Query").map(|t| t.name.clone()).collect();
                for i in 0..r.range(1, 3) {
                    let mut d = tiny(&format!("Narrow{i}"));
                    let on = used.iter().find(|t| !p.schema.possible(t).unwrap().iter().any(|x| x == "Query"));
                    if let Some(on) = on {
                        d.sel_mut().push(Sel::Inline { on: Some(on.clone()), sel: vec![field("__typename")], pos: Pos::default() });
                    }
                    d.render();
                    p.entries.insert(join(&p.root, &format!("narrow{i}.graphql")), Entry::Doc(d));
                }
            }
            let n = r.range(1, 6);
            let args = with_threads(&p.args, n);
            case(prop, seed, fl, p, vec![Step::Run { args, env: e }])
        }
        "C05" => {
            if r.pct(2) {
                return many(prop, r, seed, &o);
            }
            let p = generated(r, &o);
            let mut e = Env::wild(r);
            let fl = match r.below(3) {
                0 => "broken-documents",
                1 => {
                    let n = r.range(1, 4);
                    io_fault_env(r, &p, &mut e, n, false);
                    "transient"
                }
                _ => {
                    let n = r.range(1, 4);
                    io_fault_env(r, &p, &mut e, n, true);
                    "persistent"
                }
            };
            let n = r.range(1, 6);
            let args = with_threads(&p.args, n);
            case(prop, seed, fl, p, vec![Step::Run { args, env: e }])
        }
        "C06" => {
            let p = generated(r, &o);
            let n = r.range(1, 6);
            let mut e = Env::wild(r);
            while e.short_read + e.short_write + e.eintr + e.dt_unknown == 0 {
                e.noise(r);
            }
            let mut calm = Env::calm();
            calm.hash_seed = e.hash_seed;
            let steps = vec![
                Step::Run { args: with_threads(&p.args, n), env: calm },
                Step::Fresh,
                Step::Run { args: with_threads(&p.args, n), env: e },
            ];
            case(prop, seed, "quirks", p, steps)
        }
        "C07" => {
            let p = generated(r, &o);
            let mut steps = Vec::new();
            let mut cur = p.clone();
            if r.pct(50) {
                steps.push(run_step(&cur, Env::calm()));
                if r.pct(70) {
                    cur = edit::edit(r, &cur);
                    steps.push(Step::Edit { proj: Box::new(cur.clone()), stamp: r.below(3) as u8 });
                }
            }
            for _ in 0..r.range(1, 2) {
                let mut e = Env::wild(r);
                e.max_steps = 400_000;
                // A trial run of the same schedule tells how long it is.
                let mut trial = case(prop, seed, "trial", cur.clone(), vec![run_step(&cur, e.clone())]);
                let len = trial.execute(lab)[0].run.steps.max(2);
                if r.pct(60) {
                    e.crash_step = 1 + r.next() % len;
                } else {
                    let srcs = cur.sources();
                    let mut outs: Vec<String> = srcs.iter().map(|s| Project::output_of(s)).collect();
                    outs.push(cur.globals_path());
                    let f = r.pick(&outs).clone();
                    match r.below(3) {
                        0 => e.rule("write", &f, 1, "crash", 0),
                        1 => e.rule("write", &f, 1, "crashtorn", r.below(4000) as i64),
                        _ => e.rule("openw", &f, 1, "crash", 0),
                    }
                }
                steps.push(run_step(&cur, e));
                if r.pct(70) {
                    steps.push(Step::Tear { seed: r.next() });
                }
                if r.pct(10) {
                    steps.push(Step::Spoil { seed: r.next() });
                }
                if r.pct(45) {
                    cur = edit::edit(r, &cur);
                    steps.push(Step::Edit { proj: Box::new(cur.clone()), stamp: r.below(3) as u8 });
                }
            }
            let e = Env::wild(r);
            steps.push(run_step(&cur, e));
            steps.push(Step::Fresh);
            steps.push(run_step(&cur, Env::calm()));
            case(prop, seed, "crash", p, steps)
        }
        "C27" => {
            let p = generated(r, &o);
            let mut steps = Vec::new();
            let mut cur = p.clone();
            if r.pct(55) {
                steps.push(run_step(&cur, Env::calm()));
                if r.pct(50) {
                    steps.push(Step::Spoil { seed: r.next() });
                }
                if r.pct(50) {
                    cur = edit::edit(r, &cur);
                    steps.push(Step::Edit { proj: Box::new(cur.clone()), stamp: r.below(3) as u8 });
                }
            }
            let n = [2, 2, 2, 3, 4][r.below(5)];
            let fl = ["together", "together", "together", "killed", "edited"][r.below(5)];
            // Often they go through the same motions.
            let same = r.pct(40);
            let mut e = Env::calm();
            e.hash_seed = r.next();
            e.ncpu = r.range(1, 4) as u32;
            let envs: Vec<Env> = (0..n)
                .map(|_| {
                    let mut e = if same || r.pct(30) { e.clone() } else { Env::wild(r) };
                    e.max_steps = 600_000;
                    if r.pct(15) {
                        e.noise(r);
                        // Without types in directories, any file that comes and goes fails a scan.
                        e.dt_unknown = 0;
                    }
                    e
                })
                .collect();
            let mut trial = case(prop, seed, "trial", p.clone(), steps.clone());
            trial.steps.push(run_step(&cur, envs[0].clone()));
            let run = trial.execute(lab).pop().unwrap().run;
            let len = run.gates.max(2);
            // Where outputs are dealt with.
            let mut spots: Vec<u64> = run.ops.iter().filter(|o| ["openw", "write", "rename", "unlink", "trunc", "fsync", "flock"].contains(&o.cls.as_str()) && !o.path.starts_with('<')).map(|o| o.gate).collect();
            spots.dedup();
            let spot = |r: &mut Rng| {
                if spots.is_empty() || r.pct(20) {
                    1 + r.next() % len
                } else {
                    (*r.pick(&spots) + [0, 0, 1, 1, 2, 3][r.below(6)]).saturating_sub(1).max(1)
                }
            };
            let mut grants: Vec<(u8, u32)> = Vec::new();
            let turn = |grants: &mut Vec<(u8, u32)>, by: u32, upto: u64| {
                let mut k = 0;
                while k < upto {
                    (0..n).for_each(|w| grants.push((w as u8, by)));
                    k += by as u64;
                }
            };
            match r.below(6) {
                0 => {
                    let most = [1, 3, 12][r.below(3)];
                    let mut left = (len * n as u64).min(4000) as i64;
                    while left > 0 {
                        let k = 1 + r.below(most) as u32;
                        grants.push((r.below(n) as u8, k));
                        left -= k as i64;
                    }
                }
                1 => turn(&mut grants, [1, 1, 2, 3][r.below(4)], len.min(2000)),
                2 | 3 => {
                    // Each stops at a place of its own; then they go on by turns, or one by one.
                    for w in 0..n {
                        grants.push((w as u8, spot(r) as u32));
                    }
                    match r.below(3) {
                        0 => turn(&mut grants, 1, len.min(2000)),
                        1 => {
                            let mut order: Vec<usize> = (0..n).collect();
                            r.shuffle(&mut order);
                            order.iter().for_each(|w| grants.push((*w as u8, len as u32 * 2)));
                        }
                        _ => {
                            for _ in 0..40 {
                                grants.push((r.below(n) as u8, 1 + r.below(4) as u32));
                            }
                        }
                    }
                }
                4 => {
                    // One is overtaken by the others, from start to end.
                    grants.push((0, spot(r) as u32));
                    (1..n).for_each(|w| grants.push((w as u8, len as u32 * 2)));
                }
                _ => {
                    for _ in 0..r.range(2, 8) {
                        grants.push((r.below(n) as u8, 1 + (r.next() % len) as u32));
                    }
                }
            }
            steps.push(Step::Overlap { n: n as u8, grants });
            let victim = r.below(n);
            for (i, mut e) in envs.into_iter().enumerate() {
                if fl == "killed" && (i == victim || r.pct(25)) {
                    let mut outs: Vec<String> = cur.sources().iter().map(|s| Project::output_of(s)).collect();
                    outs.push(cur.globals_path());
                    let f = r.pick(&outs).clone();
                    match r.below(5) {
                        0 | 1 => e.crash_step = 1 + r.next() % run.steps.max(2),
                        2 => e.rule("write", &f, 1, "crash", 0),
                        3 => e.rule("write", "*", r.range(1, 6) as u32, "crashtorn", r.below(4000) as i64),
                        _ => e.rule("openw", "*", r.range(1, 6) as u32, "crash", 0),
                    }
                }
                if fl == "edited" && i > 0 && (i == 1 || r.pct(40)) {
                    cur = edit::edit(r, &cur);
                    steps.push(Step::Edit { proj: Box::new(cur.clone()), stamp: r.below(3) as u8 });
                }
                let args = if r.pct(60) { with_threads(&cur.args, r.range(1, 4)) } else { cur.args.clone() };
                steps.push(Step::Run { args, env: e });
            }
            steps.push(run_step(&cur, if r.pct(50) { Env::calm() } else { Env::wild(r) }));
            steps.push(Step::Fresh);
            steps.push(run_step(&cur, Env::calm()));
            case(prop, seed, fl, p, steps)
        }
        "C08" => {
            let p = generated(r, &o);
            let mut e = Env::wild(r);
            if r.pct(30) {
                e.noise(r);
            }
            let fl = match r.below(4) {
                0 => {
                    e.crash_step = 1 + r.below(3000) as u64;
                    "crash"
                }
                1 => {
                    let n = r.range(1, 4);
                    let per = r.pct(50);
                    io_fault_env(r, &p, &mut e, n, per);
                    "faults"
                }
                2 => {
                    let c = ["openr", "read"][r.below(2)];
                    let sp = p.schema_path.clone();
                    if r.pct(30) {
                        e.rule(c, &sp, 1, "errno", 5);
                    }
                    "errors"
                }
                _ => "plain",
            };
            let mut p = p;
            // Files a careless program might touch: old outputs of other tools, siblings, links.
            for k in 0..r.below(4) {
                let ds: Vec<String> = p.dirs().into_iter().collect();
                let d = r.pick(&ds).clone();
                let n = ["notes.txt", "x.graphql.d.ts.bak", "other.d.ts", "graphql-globals.d.ts", "index.ts", "q0.graphql.ts"][r.below(6)];
                p.entries.entry(join(&d, &format!("{}{n}", if k > 1 { "z" } else { "" }))).or_insert(Entry::Raw(RawKind::Decoy, "keep me\n".into()));
            }
            if r.pct(40) {
                let srcs = p.sources();
                let s = r.pick(&srcs).clone();
                let l = format!("{}/linked{}", parent(&s), if r.pct(50) { ".graphql" } else { "" });
                let l = l.trim_start_matches('/').to_string();
                let file = s.rsplit('/').next().unwrap().to_string();
                p.entries.entry(l).or_insert(Entry::Link(file));
            }
            if !p.root.is_empty() && r.pct(60) {
                // A document outside the root, also reachable through a link.
                let mut d = tiny("Outside");
                d.render();
                p.entries.insert("outside/out.graphql".into(), Entry::Doc(d));
                let up = "../".repeat(p.root.split('/').count());
                let l = join(&p.root, "outlink");
                p.entries.entry(l).or_insert(Entry::Link(format!("{up}outside")));
            }
            let n = r.range(1, 6);
            let args = with_threads(&p.args, n);
            case(prop, seed, fl, p, vec![Step::Run { args, env: e }])
        }
        "C09" | "C12" | "C13" | "C14" | "C11" | "C23" | "C24" => {
            if (prop == "C13" && r.pct(3)) || (prop == "C14" && r.pct(1)) {
                return many(prop, r, seed, &o);
            }
            if prop == "C11" && r.pct(3) {
                return crowd(prop, r, seed, &o);
            }
            let mut p = generated(r, &o);
            let mut e = Env::wild(r);
            let mut fl = "plain";
            if prop == "C09" && r.pct(20) {
                for s in p.sources() {
                    if r.pct(30) {
                        e.rule("openw", &Project::output_of(&s), 0, "errno", 13);
                        fl = "unwritable";
                    }
                }
            }
            if prop == "C13" && r.pct(35) {
                let n = r.range(1, 4);
                io_fault_env(r, &p, &mut e, n, false);
                fl = "faults";
            }
            if prop == "C11" {
                if r.pct(35) {
                    let im: Vec<String> = imports_of(&p).into_iter().collect();
                    if !im.is_empty() {
                        let f = r.pick(&im).clone();
                        let en = errno_for(r, "openr");
                        e.rule(["openr", "read"][r.below(2)], &f, 0, "errno", en);
                        fl = "unreadable-import";
                    }
                } else if r.pct(30) {
                    edit::shadow_imports(r, &mut p);
                    fl = "look-alikes";
                }
            }
            let n = r.range(1, 6);
            let args = with_threads(&p.args, n);
            case(prop, seed, fl, p, vec![Step::Run { args, env: e }])
        }
        "C28" => {
            let mut p = generated(r, &o);
            edit::near_misses(r, &mut p);
            let k = if r.pct(50) { 2 } else { 1 };
            let mut fl = if k == 1 { "places" } else { "colours" };
            if let (Some((_, text)), true) = (&mut p.config, r.pct(20)) {
                *text = edit::misshape_config(r, text);
                fl = "unusable-configuration";
            }
            let mut steps = Vec::new();
            for _ in 0..k {
                let mut e = Env::wild(r);
                e.tty = r.pct(50);
                for v in ["NO_COLOR", "CLICOLOR_FORCE", "CLICOLOR"] {
                    if r.pct(25) {
                        e.vars.push((v.into(), ["0", "1"][r.below(2)].into()));
                    }
                }
                if k == 1 && r.pct(20) {
                    io_fault_env(r, &p, &mut e, 1, true);
                }
                let mut args = with_threads(&p.args, r.range(1, 6));
                args.retain(|a| a != "--no-color");
                if r.pct(50) {
                    args.push("--no-color".into());
                }
                steps.push(Step::Fresh);
                steps.push(Step::Run { args, env: e });
            }
            case(prop, seed, fl, p, steps)
        }
        "C10" => {
            let mut p = generated(r, &o);
            let mut e = Env::wild(r);
            let conf = p.config.is_some();
            let x = r.below(if conf { 11 } else { 7 });
            let fl = match if x == 6 && !conf { 10 } else { x } {
                10 => {
                    edit::misspell_command_line(r, &mut p);
                    "command-line"
                }
                0 => {
                    p.schema_missing = true;
                    "schema-missing"
                }
                1 => {
                    let s = p.schema_text();
                    let n = r.below(s.trim_end().len());
                    let mut cut = n;
                    while !s.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    p.schema_raw = Some(s[..cut].to_string());
                    "schema-truncated"
                }
                2 | 3 => {
                    p.schema_raw = Some(edit::misshape_schema(r, &p.schema));
                    "schema-shape"
                }
                4 => {
                    let c = ["openr", "read"][r.below(2)];
                    let en = errno_for(r, c);
                    let occ = if c == "read" && r.pct(60) { r.range(1, 3) as u32 } else { 0 };
                    let sp = p.schema_path.clone();
                    e.rule(c, &sp, occ, "errno", en);
                    if r.pct(50) {
                        e.noise(r);
                    }
                    "schema-unreadable"
                }
                5 => {
                    if r.pct(50) && p.config.is_none() {
                        p.args.push("--config-file".into());
                        p.args.push("conf/none.json".into());
                        "config-missing"
                    } else if p.config.is_none() {
                        p.config = Some((".qlcrc.json".into(), edit::misshape_config(r, "{}")));
                        "config-shape"
                    } else {
                        p.schema_missing = true;
                        "schema-missing"
                    }
                }
                6 => {
                    let (k, t) = p.config.clone().unwrap();
                    p.config = Some((k, t[..r.below(t.trim_end().len())].to_string()));
                    "config-truncated"
                }
                7 => {
                    let (k, t) = p.config.clone().unwrap();
                    p.config = Some((k, edit::misshape_config(r, &t)));
                    "config-shape"
                }
                8 => {
                    let c = ["openr", "read"][r.below(2)];
                    let cp = p.config.clone().unwrap().0;
                    let en = [13i64, 5, 24, 12, 40][r.below(5)];
                    e.rule(c, &cp, 1, "errno", en);
                    "config-unreadable"
                }
                _ => {
                    if p.config.as_ref().unwrap().0 == ".qlcrc.json" {
                        p.args.push("--config-file".into());
                        p.args.push("elsewhere.json".into());
                    } else {
                        p.config = None;
                    }
                    "config-missing"
                }
            };
            let args = p.args.clone();
            let mut steps = Vec::new();
            if r.pct(25) {
                // Outputs of an earlier good run must stay as they are.
                let mut good = p.clone();
                good.schema_raw = None;
                good.schema_missing = false;
                good.misspelt.clear();
                let q = plain(&good);
                steps.push(Step::Edit { proj: Box::new(q.clone()), stamp: 0 });
                steps.push(run_step(&q, Env::calm()));
                steps.push(Step::Edit { proj: Box::new(p.clone()), stamp: 0 });
            }
            steps.push(Step::Run { args, env: e });
            case(prop, seed, fl, p, steps)
        }
        "C15" => {
            let p = generated(r, &o);
            let n = r.range(1, 8);
            let args = with_threads(&p.args, n);
            let mut e = Env::wild(r);
            let fl = if r.pct(50) {
                e.spawn_fail = r.range(1, n + 1) as u32;
                e.spawn_fail_all = r.pct(50);
                "threads"
            } else {
                let mut trial = case(prop, seed, "trial", p.clone(), vec![Step::Run { args: args.clone(), env: e.clone() }]);
                let k = trial.execute(lab)[0].run.allocs.max(2);
                e.alloc_fail = 1 + r.next() % (k + k / 20);
                "memory"
            };
            case(prop, seed, fl, p, vec![Step::Run { args, env: e }])
        }
        "C19" => {
            let mut p = generated(r, &o);
            if p.opts.threads.is_none() {
                p.opts.threads = Some(3);
            }
            let e = Env::calm();
            let a = plain(&p);
            let mut steps = vec![Step::Edit { proj: Box::new(a.clone()), stamp: 0 }, Step::Fresh, run_step(&a, e.clone())];
            for _ in 0..2 {
                let q = edit::express(r, &p);
                let e = if r.pct(50) { Env::wild(r) } else { e.clone() };
                steps.push(Step::Edit { proj: Box::new(q.clone()), stamp: 0 });
                steps.push(Step::Fresh);
                steps.push(run_step(&q, e));
            }
            case(prop, seed, "spellings", p, steps)
        }
        "C20" => {
            let p = generated(r, &o);
            let mut cur = p.clone();
            let mut steps = Vec::new();
            for k in 0..r.range(2, 4) {
                if k > 0 {
                    for _ in 0..r.range(1, 3) {
                        cur = edit::edit(r, &cur);
                    }
                    steps.push(Step::Edit { proj: Box::new(cur.clone()), stamp: r.below(3) as u8 });
                    if r.pct(30) {
                        steps.push(Step::Spoil { seed: r.next() });
                    }
                }
                let e = Env::wild(r);
                steps.push(run_step(&cur, e));
            }
            if r.pct(25) {
                steps.push(Step::Spoil { seed: r.next() });
            }
            let e = Env::wild(r);
            steps.push(run_step(&cur, e));
            steps.push(Step::Fresh);
            steps.push(run_step(&cur, Env::calm()));
            case(prop, seed, "history", p, steps)
        }
        "C21" => {
            let p = generated(r, &o);
            let e = Env::wild(r);
            let p2 = {
                let mut q = p.clone();
                q.schema_raw = Some(crate::case::DOWNLOAD.into());
                q
            };
            let steps = vec![
                run_step(&p, e),
                Step::Edit { proj: Box::new(p2), stamp: 0 },
                Step::Fresh,
                run_step(&p, Env::calm()),
            ];
            case(prop, seed, "download", p, steps)
        }
        "C26" => {
            let p = generated(r, &o);
            let mut cur = p.clone();
            let mut steps = Vec::new();
            for _ in 0..r.below(3) {
                let mut e = Env::wild(r);
                let mut killed = false;
                match r.below(4) {
                    0 => {
                        killed = true;
                        e.crash_step = 1 + r.below(3000) as u64;
                    }
                    1 => io_fault_env(r, &cur, &mut e, 1, false),
                    2 => io_fault_env(r, &cur, &mut e, 1, true),
                    _ => {}
                }
                steps.push(run_step(&cur, e));
                if killed && r.pct(70) {
                    steps.push(Step::Tear { seed: r.next() });
                }
                for _ in 0..r.below(3) {
                    cur = edit::edit(r, &cur);
                    steps.push(Step::Edit { proj: Box::new(cur.clone()), stamp: r.below(3) as u8 });
                }
            }
            let e = Env::wild(r);
            steps.push(run_step(&cur, e));
            case(prop, seed, "client", p, steps)
        }
        "C22" => {
            let p = generated(r, &o);
            let a = plain(&p);
            let (b, fl) = if r.pct(25) { (edit::relocate(&a), "moved") } else { (edit::disturb(r, &a), "disturbed") };
            let (e1, e2) = (Env::wild(r), Env::wild(r));
            let steps = vec![
                Step::Edit { proj: Box::new(a.clone()), stamp: 0 },
                Step::Fresh,
                run_step(&a, e1),
                Step::Edit { proj: Box::new(b.clone()), stamp: 0 },
                Step::Fresh,
                run_step(&b, e2),
            ];
            case(prop, seed, fl, p, steps)
        }
        _ => panic!("no such property {prop}"),
    }
}

// ------------------------------------------------------------ judges

fn expect(p: &Project, io: &Io) -> Expected {
    Model { p, io, names: false, hints: false }.run()
}
fn printed(r: &Run) -> Output {
    out::parse(&r.stdout_text())
}
/// The failures of a run that the model can take into account.
fn io_of(env: &Env) -> Io {
    let mut io = Io::default();
    for r in env.rules.iter().filter(|r| r.occ == 0 && r.act == "errno") {
        match r.cls.as_str() {
            "openr" | "read" => {
                io.unreadable.insert(r.path.clone());
            }
            "opendir" => {
                io.unlistable.insert(r.path.clone());
            }
            "openw" => {
                io.unwritable.insert(r.path.clone());
            }
            _ => {}
        }
    }
    io
}
/// Message texts in an order-free form.
fn texts(o: &Output) -> Vec<String> {
    let mut v: Vec<String> = o.msgs.iter().map(|m| m.text.clone()).collect();
    v.sort();
    v
}
fn generated_files(p: &Project, f: &Files) -> BTreeMap<String, Vec<u8>> {
    let mut names: BTreeSet<String> = p.sources().iter().map(|s| Project::output_of(s)).collect();
    names.insert(p.globals_path());
    f.iter().filter(|(k, _)| names.contains(*k)).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn first_diff(a: &[u8], b: &[u8]) -> String {
    let (x, y) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
    for (i, (l, m)) in x.lines().zip(y.lines()).enumerate() {
        if l != m {
            return format!("line {}: {:?} against {:?}", i + 1, l, m);
        }
    }
    format!("lengths {} and {}", a.len(), b.len())
}
fn same_files(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>, what: &str) -> Result<(), String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Err(format!("{what}: {k} is written in one and not in the other")),
            Some(w) if w != v => return Err(format!("{what}: {k} differs, {}", first_diff(v, w))),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            return Err(format!("{what}: {k} is written in one and not in the other"));
        }
    }
    Ok(())
}
fn same_texts(a: &Output, b: &Output, what: &str) -> Result<(), String> {
    let (x, y) = (texts(a), texts(b));
    if x != y {
        let d: Vec<&String> = x.iter().filter(|m| !y.contains(m)).chain(y.iter().filter(|m| !x.contains(m))).take(2).collect();
        return Err(format!("{what}: messages differ ({} against {}): {:?}", x.len(), y.len(), d));
    }
    Ok(())
}
fn mentions(m: &Printed, path: &str) -> bool {
    let path = &crate::sim::lossy(path);
    m.path.as_deref() == Some(path)
        || m.names.iter().any(|n| n == path)
        || (path.is_empty() && (m.names.iter().any(|n| n.is_empty() || n == ".") || m.text.contains("`.`")))
        || (!path.is_empty() && m.text.contains(path.as_str()))
}
/// Sources whose whole subtree could not be scanned because of a fault.
fn lost(p: &Project, o: &Obs) -> BTreeSet<String> {
    let mut bad: Vec<String> = Vec::new();
    for (i, r) in o.env.rules.iter().enumerate() {
        if o.run.fired.get(i).copied().unwrap_or(0) > 0 {
            match r.cls.as_str() {
                "opendir" | "readdir" => bad.push(r.path.clone()),
                "stat" => bad.push(parent(&r.path).to_string()),
                _ => {}
            }
        }
    }
    p.sources()
        .into_iter()
        .filter(|s| bad.iter().any(|d| d.is_empty() || s.starts_with(&format!("{d}/"))))
        .collect()
}

pub fn judge(prop: &str, obs: &[Obs]) -> Result<(), Viol> {
    let o = obs.last().unwrap();
    let no_io = Io::default();
    // What a document with a wrong fragment needs is not known, nor then whether the globals file is attempted.
    let unknown = |x: &Obs| x.proj.globals_dir_missing() && expect(&x.proj, &io_of(&x.env)).files.values().any(|f| f.tainted);
    if !["C02", "C03", "C06", "C08"].contains(&prop) && obs.iter().any(unknown) {
        return Ok(());
    }
    match prop {
        "C01" => {
            t("ended", oracle::ended(&o.run))?;
            let exp = expect(&o.proj, &no_io);
            for (s, fe) in &exp.files {
                let op = Project::output_of(s);
                let opens = o.run.ops.iter().filter(|x| (x.cls == "openw" || x.cls == "rename") && x.path == op && x.ret >= 0).count();
                if fe.tainted {
                    continue;
                }
                if fe.out.is_some() {
                    let Some(b) = o.after.get(&op) else { return viol("missing", format!("{s} is valid but was not compiled: {op} is missing")) };
                    let d = match crate::dts::parse_dts(&String::from_utf8_lossy(b)) {
                        Ok(d) => d,
                        Err(e) => return viol("incomplete", format!("{op} is not complete: {e}")),
                    };
                    let want = fe.out.as_ref().unwrap();
                    if d.data_name != want.data_name {
                        return viol("mixed", format!("{op} declares {} instead of {}", d.data_name, want.data_name));
                    }
                    if opens != 1 {
                        return viol("repeated", format!("{op} was written {opens} times"));
                    }
                } else if opens != 0 {
                    return viol("extra", format!("{s} does not compile, yet {op} was written"));
                }
            }
            let may: BTreeSet<String> = exp.files.keys().map(|s| Project::output_of(s)).collect();
            for f in o.after.keys() {
                if f.ends_with(".d.ts") && !o.before.contains_key(f) && !may.contains(f) && *f != o.proj.globals_path() {
                    return viol("extra", format!("{f} was written, which is the output of no document"));
                }
            }
            // Documents that do not compile were looked at as well: each is reported.
            let got = printed(&o.run);
            for (s, fe) in &exp.files {
                if fe.out.is_none() && !got.msgs.iter().any(|m| m.level == Lv::Error) {
                    return viol("unreported", format!("{s} does not compile, but no error was printed"));
                }
            }
            Ok(())
        }
        "C02" => {
            t("ended", oracle::ended(&o.run))?;
            // Work stays in proportion: no file is read more often than there are documents to need it.
            let mut reads: BTreeMap<&str, usize> = BTreeMap::new();
            for x in o.run.ops.iter().filter(|x| x.cls == "openr" && x.ret >= 0) {
                *reads.entry(&x.path).or_default() += 1;
            }
            let n = o.proj.sources().len();
            for (f, k) in reads {
                let imps: usize = o.proj.entries.values().map(|e| if let Entry::Doc(d) = e { d.imports().count() } else { 0 }).sum();
                if k > (n + 1) * (imps + 2) {
                    return viol("work", format!("{f} was read {k} times for {n} documents and {imps} imports"));
                }
            }
            Ok(())
        }
        "C03" => {
            let a = &obs[0];
            t("ended", oracle::ended(&a.run))?;
            for b in &obs[1..] {
                t("ended", oracle::ended(&b.run))?;
                if a.run.code() != b.run.code() {
                    return viol("status", format!("exit status {:?} in one execution, {:?} in another", a.run.code(), b.run.code()));
                }
                t("files", same_files(&generated_files(&a.proj, &a.after), &generated_files(&b.proj, &b.after), "two executions"))?;
                t("messages", same_texts(&printed(&a.run), &printed(&b.run), "two executions"))?;
            }
            Ok(())
        }
        "C04" => {
            t("stuck", oracle::not_stuck(&o.run))?;
            let got = printed(&o.run);
            let errors: Vec<&Printed> = got.msgs.iter().filter(|m| m.level == Lv::Error).collect();
            for (i, r) in o.env.rules.iter().enumerate() {
                if o.run.fired.get(i).copied().unwrap_or(0) == 0 || r.act != "errno" {
                    continue;
                }
                let what = format!("{} of {} failed with errno {}", r.cls, if r.path.is_empty() { "the root" } else { &r.path }, r.arg);
                if o.run.code() == Some(0) {
                    return viol("status", format!("{what}, but the exit status is 0"));
                }
                if r.path == "<stdout>" {
                    continue;
                }
                if !matches!(o.run.end, Some(End::Exit(_))) {
                    return viol("ended", format!("{what}, and the process ended with {:?}", o.run.end));
                }
                let anything = r.path == o.proj.schema_path || Some(&r.path) == o.proj.config.as_ref().map(|c| &c.0) || r.path == ".qlcrc.json";
                let named = if anything {
                    !errors.is_empty()
                } else if r.cls == "stat" {
                    errors.iter().any(|m| mentions(m, &r.path) || mentions(m, parent(&r.path)))
                } else {
                    errors.iter().any(|m| mentions(m, &r.path))
                };
                if !named {
                    return viol("named", format!("{what}, but no error names it; printed: {:?}", errors.iter().map(|m| &m.headline).collect::<Vec<_>>()));
                }
            }
            Ok(())
        }
        "C05" => {
            t("ended", oracle::ended(&o.run))?;
            let exp = expect(&o.proj, &io_of(&o.env));
            let gone = lost(&o.proj, o);
            let fired: BTreeSet<(String, String)> = o
                .env
                .rules
                .iter()
                .enumerate()
                .filter(|(i, r)| o.run.fired.get(*i).copied().unwrap_or(0) > 0 && r.act == "errno")
                .map(|(_, r)| (r.cls.clone(), r.path.clone()))
                .collect();
            let hit = |cls: &[&str], path: &str| fired.iter().any(|(c, p)| cls.contains(&c.as_str()) && p == path);
            let got = printed(&o.run);
            let mut needed: BTreeSet<String> = BTreeSet::new();
            for (s, fe) in &exp.files {
                let op = Project::output_of(s);
                if fe.tainted {
                    continue;
                }
                let mut why = false;
                if gone.contains(s) || hit(&["openw", "write"], &op) {
                    why = true;
                }
                if fe.reads.iter().any(|f| hit(&["openr", "read"], f)) {
                    why = true;
                }
                if !why {
                    needed.extend(fe.globals.iter().cloned());
                    t("outputs", oracle::one_output(&o.proj, s, fe, &o.after, &o.before))?;
                    for m in &fe.msgs {
                        if !got.msgs.iter().any(|g| oracle::fits(m, g)) {
                            return viol("messages", format!("the message about {s} is missing: {}", oracle::describe(m)));
                        }
                    }
                }
                if fe.out.is_none() && !hit(&["openw", "write"], &op) {
                    if o.run.ops.iter().any(|x| x.cls == "openw" && x.path == op && x.ret >= 0) {
                        return viol("written", format!("{s} does not compile, yet {op} was written"));
                    }
                }
                // Its own reading failed: nothing may be written for it.
                if hit(&["openr", "read"], s) && o.env.rules.iter().any(|r| r.occ == 0 && &r.path == s) && o.after.contains_key(&op) {
                    return viol("written", format!("{s} could not be read, yet {op} was written"));
                }
            }
            // The declarations the good documents rely on are there, whatever happened to the others.
            if !o.proj.globals_dir_missing() && !hit(&["openw", "write"], &o.proj.globals_path()) && !o.before.contains_key(&o.proj.globals_path()) {
                let io = Io::default();
                let want = Model { p: &o.proj, io: &io, names: false, hints: false }.globals(&needed);
                t("globals", oracle::globals_include(&o.proj, &want, &o.after))?;
                if fired.is_empty() {
                    t("globals", oracle::globals(&o.proj, &exp, &o.after, &o.before))?;
                }
            }
            Ok(())
        }
        "C06" => {
            let (a, b) = (&obs[0], &obs[1]);
            t("ended", oracle::ended(&a.run))?;
            t("ended", oracle::ended(&b.run))?;
            if a.run.code() != b.run.code() {
                return viol(
                    "status",
                    format!("exit status {:?} without and {:?} with harmless I/O quirks: {:?}", a.run.code(), b.run.code(), texts(&printed(&b.run)).first()),
                );
            }
            t("files", same_files(&generated_files(&a.proj, &a.after), &generated_files(&b.proj, &b.after), "with and without quirks"))?;
            t("messages", same_texts(&printed(&a.run), &printed(&b.run), "with and without quirks"))
        }
        "C07" | "C20" => {
            let n = obs.len();
            let (dirty, clean) = (&obs[n - 2], &obs[n - 1]);
            let what = if prop == "C07" { "after a crash, against a clean checkout" } else { "after earlier runs, against a clean checkout" };
            // What a killed run left beside its outputs is its successors' to tidy up.
            let mut left: BTreeSet<String> = BTreeSet::new();
            for x in obs {
                for (f, b) in &x.before {
                    let mine = x.proj.sources().iter().any(|s| &Project::output_of(s) == f) || *f == x.proj.globals_path() || left.contains(f);
                    if !mine && x.after.get(f) != Some(b) {
                        return viol("inputs", format!("{f} was changed by a run"));
                    }
                }
                if x.run.end == Some(crate::sim::End::Crash) {
                    left.extend(x.after.keys().filter(|f| !x.before.contains_key(*f) && oracle::beside(&x.proj, f)).cloned());
                }
            }
            t("ended", oracle::ended(&dirty.run))?;
            t("ended", oracle::ended(&clean.run))?;
            let want = generated_files(&clean.proj, &clean.after);
            let got = generated_files(&dirty.proj, &dirty.after);
            for (f, w) in &want {
                match got.get(f) {
                    None => return viol("files", format!("{what}: {f} is missing")),
                    Some(g) if g != w => return viol("files", format!("{what}: {f} differs, {}", first_diff(w, g))),
                    _ => {}
                }
            }
            t("messages", same_texts(&printed(&clean.run), &printed(&dirty.run), what))?;
            if clean.run.code() != dirty.run.code() {
                return viol("status", format!("{what}: exit status {:?} instead of {:?}", dirty.run.code(), clean.run.code()));
            }
            if prop == "C20" {
                for x in &obs[..n - 1] {
                    t("ended", oracle::ended(&x.run))?;
                    let exp = expect(&x.proj, &no_io);
                    t("outputs", oracle::outputs(&x.proj, &exp, &x.after, &x.before))?;
                    if exp.globals.is_some() {
                        t("globals", oracle::globals(&x.proj, &exp, &x.after, &x.before))?;
                    }
                    t("expected", oracle::messages(&exp.msgs, &printed(&x.run).msgs))?;
                }
                // The last history run repeats the one before it.
                let (a, b) = (&obs[n - 3], &obs[n - 2]);
                if a.proj == b.proj && a.after == b.before {
                    t("repeat", same_files(&a.after, &b.after, "a repeated run"))?;
                }
            }
            Ok(())
        }
        "C27" => {
            let n = obs.len();
            let (again, clean) = (&obs[n - 2], &obs[n - 1]);
            let group: Vec<&Obs> = obs.iter().filter(|x| x.overlap > 0).collect();
            if group.len() < 2 || again.overlap > 0 {
                return Ok(());
            }
            let killed = group.iter().any(|x| x.run.end == Some(End::Crash));
            let edited = group.iter().any(|x| x.overlap > 1);
            let want = generated_files(&clean.proj, &clean.after);
            for (i, x) in group.iter().enumerate() {
                if x.run.end == Some(End::Crash) {
                    continue;
                }
                t("ended", oracle::ended(&x.run))?;
                if edited {
                    continue;
                }
                let what = format!("run {} of {} at the same time, against a run on its own", i + 1, group.len());
                t("messages", same_texts(&printed(&clean.run), &printed(&x.run), &what))?;
                if clean.run.code() != x.run.code() {
                    return viol("status", format!("{what}: exit status {:?} instead of {:?}", x.run.code(), clean.run.code()));
                }
            }
            if !edited {
                // Nobody but these runs has changed anything since the first of them started.
                let (start, end) = (group.iter().map(|x| &x.before).min_by_key(|b| b.len()).unwrap(), &again.before);
                let may: BTreeSet<String> = clean.proj.sources().iter().map(|s| Project::output_of(s)).chain([clean.proj.globals_path()]).collect();
                for (f, b) in start {
                    if !may.contains(f) && !oracle::beside(&clean.proj, f) && end.get(f) != Some(b) {
                        return viol("inputs", format!("{f} was changed by runs at the same time"));
                    }
                }
                for (f, b) in &clean.before {
                    if end.get(f) != Some(b) {
                        return viol("inputs", format!("{f} was changed by runs at the same time"));
                    }
                }
                if !killed {
                    for f in end.keys() {
                        if !start.contains_key(f) && !may.contains(f) {
                            return viol("left", format!("{f} was left behind by runs at the same time"));
                        }
                    }
                    for (f, w) in &want {
                        match end.get(f) {
                            None => return viol("files", format!("after runs at the same time: {f} is missing")),
                            Some(g) if g != w => return viol("files", format!("after runs at the same time: {f} differs, {}", first_diff(w, g))),
                            _ => {}
                        }
                    }
                }
            }
            t("again", oracle::ended(&again.run))?;
            t("again", oracle::ended(&clean.run))?;
            let what = "a run after runs at the same time, against a clean checkout";
            let got = generated_files(&again.proj, &again.after);
            for (f, w) in &want {
                match got.get(f) {
                    None => return viol("again", format!("{what}: {f} is missing")),
                    Some(g) if g != w => return viol("again", format!("{what}: {f} differs, {}", first_diff(w, g))),
                    _ => {}
                }
            }
            t("again", same_texts(&printed(&clean.run), &printed(&again.run), what))?;
            if clean.run.code() != again.run.code() {
                return viol("again", format!("{what}: exit status {:?} instead of {:?}", again.run.code(), clean.run.code()));
            }
            Ok(())
        }
        "C08" => t("confined", oracle::confined(&o.proj, &o.run, &o.before, &o.after)),
        "C09" => {
            t("ended", oracle::ended(&o.run))?;
            let exp = expect(&o.proj, &io_of(&o.env));
            t("globals", oracle::globals(&o.proj, &exp, &o.after, &o.before))?;
            if !exp.files.values().any(|f| f.tainted) && !o.proj.globals_dir_missing() {
                t("resolve", oracle::imports_resolve(&o.proj, &o.after))?;
            }
            Ok(())
        }
        "C10" => {
            if matches!(o.run.end, Some(End::Hang) | Some(End::Deadlock)) {
                t("ended", oracle::ended(&o.run))?;
            }
            if !o.proj.misspelt.is_empty() && o.proj.misspelt != o.args {
                return Ok(());
            }
            let fired_ok = o.env.rules.is_empty() || o.run.fired.iter().any(|f| *f > 0);
            if !fired_ok {
                return Ok(());
            }
            let w: Vec<&str> = o
                .run
                .ops
                .iter()
                .filter(|x| ["openw", "unlink", "rename", "trunc", "mkdir", "link"].contains(&x.cls.as_str()) && x.ret >= 0)
                .map(|x| x.path.as_str())
                .collect();
            if !w.is_empty() {
                return viol("written", format!("the run wrote {w:?} although its configuration or schema is unusable"));
            }
            if o.before != o.after {
                return viol("written", "files changed although the configuration or schema is unusable");
            }
            if !o.proj.misspelt.is_empty() {
                if o.run.code() != Some(2) {
                    return viol("status", format!("exit status {:?} although the command line is not understood", o.run.code()));
                }
                if o.run.stderr.iter().all(|b| b.is_ascii_whitespace()) {
                    return viol("silent", "nothing is said about a command line that is not understood");
                }
                return Ok(());
            }
            t("ended", oracle::ended(&o.run))?;
            if o.run.code() != Some(1) {
                return viol("status", format!("exit status {:?} although the configuration or schema is unusable", o.run.code()));
            }
            if !printed(&o.run).msgs.iter().any(|m| m.level == Lv::Error) {
                return viol("silent", "no error was printed although the configuration or schema is unusable");
            }
            Ok(())
        }
        "C11" => {
            t("ended", oracle::ended(&o.run))?;
            let exp = expect(&o.proj, &io_of(&o.env));
            t("messages", oracle::messages(&exp.msgs, &printed(&o.run).msgs))?;
            t("outputs", oracle::outputs(&o.proj, &exp, &o.after, &o.before))
        }
        "C26" => {
            for x in obs.iter().filter(|x| x.run.code() == Some(0)) {
                let exp = expect(&x.proj, &io_of(&x.env));
                if exp.files.values().any(|f| f.tainted || f.out.is_none()) {
                    continue;
                }
                t("typescript", oracle::typescript(&x.proj, &exp, &x.after))?;
            }
            if !o.run.fired.iter().any(|f| *f > 0) {
                t("ended", oracle::ended(&o.run))?;
                let exp = expect(&o.proj, &no_io);
                if !exp.any_error && o.run.code() != Some(0) {
                    return viol("status", format!("exit status {:?} for a project without errors", o.run.code()));
                }
            }
            Ok(())
        }
        "C24" => {
            t("ended", oracle::ended(&o.run))?;
            let exp = Model { p: &o.proj, io: &no_io, names: true, hints: false }.run();
            t("names", oracle::names(&exp, &o.after))?;
            t("outputs", oracle::outputs(&o.proj, &exp, &o.after, &o.before))
        }
        "C12" | "C23" => {
            t("ended", oracle::ended(&o.run))?;
            let exp = expect(&o.proj, &no_io);
            t("outputs", oracle::outputs(&o.proj, &exp, &o.after, &o.before))?;
            t("globals", oracle::globals(&o.proj, &exp, &o.after, &o.before))
        }
        "C13" => {
            t("ended", oracle::ended(&o.run))?;
            let got = printed(&o.run);
            t("status", oracle::status(&o.run, &got))?;
            let faulty = o.run.fired.iter().any(|f| *f > 0);
            let exp = expect(&o.proj, &no_io);
            if !faulty && exp.any_error != (o.run.code() == Some(1)) {
                return viol("verdict", format!("exit status {:?} for a project that {} errors", o.run.code(), if exp.any_error { "has" } else { "has no" }));
            }
            if !faulty && !exp.files.values().any(|f| f.tainted) {
                // Multiplicity: as many messages as there are mistakes and warnings.
                let strict = exp.msgs.iter().all(|m| !m.repeatable);
                let (we, ww) = (
                    exp.msgs.iter().filter(|m| m.level == Level::Error).count() as u64,
                    exp.msgs.iter().filter(|m| m.level == Level::Warning).count() as u64,
                );
                if strict && (got.err_total.unwrap_or(0) != we || got.warn_total.unwrap_or(0) != ww) {
                    return viol("totals", format!("totals {:?} for {we} errors and {ww} warnings", got.totals));
                }
            }
            Ok(())
        }
        "C14" => {
            t("ended", oracle::ended(&o.run))?;
            let exp = expect(&o.proj, &no_io);
            let got = printed(&o.run);
            t("messages", oracle::messages(&exp.msgs, &got.msgs))?;
            // A fragment outside the scanned tree is nobody else's to report.
            for (f, by) in &exp.unseen {
                if !got.msgs.iter().any(|m| m.level == Lv::Error && (m.path.as_deref().map_or(false, |x| oracle::same(f, x)) || m.names.contains(f))) {
                    return viol("unseen", format!("{by} was compiled with {f}, which has mistakes that nobody was told about"));
                }
            }
            // The source line shown is the line named.
            t("excerpt", oracle::excerpts(&o.proj.clone().files(), &got))?;
            Ok(())
        }
        "C28" => {
            let mut texts: Vec<Vec<String>> = Vec::new();
            for x in obs {
                t("ended", oracle::ended(&x.run))?;
                let raw = x.run.stdout_text();
                let got = out::parse(&raw);
                let faulty = x.run.fired.iter().any(|f| *f > 0);
                let no_config = x.proj.config.as_ref().map_or(false, |(c, _)| got.msgs.iter().any(|m| m.names.iter().any(|n| oracle::same(c, n))));
                if !faulty && !no_config {
                    let no_io = Io::default();
                    let exp = Model { p: &x.proj, io: &no_io, names: false, hints: true }.run();
                    t("suggestions", oracle::messages(&exp.msgs, &got.msgs))?;
                }
                let mut p = x.proj.clone();
                t("excerpt", oracle::excerpts(&p.files(), &got))?;
                let forced = x.env.vars.iter().any(|(k, v)| k == "CLICOLOR_FORCE" && v != "0");
                let plain = x.args.iter().any(|a| a == "--no-color") || !(x.env.tty || forced);
                t("colours", oracle::colours(&raw, plain))?;
                let mut v: Vec<String> = got.msgs.iter().map(|m| m.text.clone()).chain(got.totals.iter().cloned()).collect();
                v.sort();
                texts.push(v);
            }
            for i in 1..obs.len() {
                if obs[i].proj == obs[0].proj && obs.iter().all(|x| x.run.fired.iter().all(|f| *f == 0)) && texts[i] != texts[0] {
                    let d: Vec<&String> = texts[i].iter().filter(|t| !texts[0].contains(t)).chain(texts[0].iter().filter(|t| !texts[i].contains(t))).collect();
                    return viol("colours-text", format!("colours change more than colours: {d:?}"));
                }
            }
            Ok(())
        }
        "C15" => {
            t("stuck", oracle::not_stuck(&o.run))?;
            if o.run.code() == Some(0) {
                let exp = expect(&o.proj, &no_io);
                t("outputs", oracle::outputs(&o.proj, &exp, &o.after, &o.before))?;
                t("globals", oracle::globals(&o.proj, &exp, &o.after, &o.before))?;
                t("messages", oracle::messages(&exp.msgs, &printed(&o.run).msgs))?;
            }
            Ok(())
        }
        "C19" => {
            for x in obs {
                t("ended", oracle::ended(&x.run))?;
                let exp = expect(&x.proj, &no_io);
                t("messages", oracle::messages(&exp.msgs, &printed(&x.run).msgs))?;
                t("outputs", oracle::outputs(&x.proj, &exp, &x.after, &x.before))?;
                t("globals", oracle::globals(&x.proj, &exp, &x.after, &x.before))?;
            }
            for x in &obs[1..] {
                t("same", same_files(&generated_files(&obs[0].proj, &obs[0].after), &generated_files(&x.proj, &x.after), "the same settings given differently"))?;
                if x.run.threads != obs[0].run.threads {
                    return viol("threads", format!("{} threads in one run and {} in another with the same settings given differently", obs[0].run.threads, x.run.threads));
                }
            }
            Ok(())
        }
        "C21" => {
            let (a, b) = (&obs[0], &obs[1]);
            let same_tree = Project { schema_raw: a.proj.schema_raw.clone(), ..b.proj.clone() } == a.proj;
            if !same_tree {
                return Ok(());
            }
            if let Some(why) = b.proj.schema_raw.as_ref().and_then(|s| s.strip_prefix(crate::case::DOWNLOAD_FAILED)) {
                return viol("download", why);
            }
            t("ended", oracle::ended(&b.run))?;
            t("files", same_files(&generated_files(&a.proj, &a.after), &generated_files(&b.proj, &b.after), "full introspection result and downloaded schema"))?;
            t("messages", same_texts(&printed(&a.run), &printed(&b.run), "full introspection result and downloaded schema"))?;
            if a.run.code() != b.run.code() {
                return viol("status", "exit status differs between full introspection result and downloaded schema");
            }
            let exp = expect(&a.proj, &no_io);
            t("messages", oracle::messages(&exp.msgs, &printed(&b.run).msgs))?;
            t("outputs", oracle::outputs(&a.proj, &exp, &b.after, &b.before))
        }
        "C22" => {
            let (a, b) = (&obs[0], &obs[1]);
            t("ended", oracle::ended(&a.run))?;
            t("ended", oracle::ended(&b.run))?;
            let (ga, gb) = (printed(&a.run), printed(&b.run));
            let ea = expect(&a.proj, &no_io);
            let moved = b.proj.root != a.proj.root;
            let to_b = |f: &str| if moved { format!("{}/{f}", edit::MOVED) } else { f.to_string() };
            for (s, fe) in &ea.files {
                // Unchanged together with everything it reads?
                let same = fe.reads.iter().all(|f| a.proj.entries.get(f) == b.proj.entries.get(&to_b(f)));
                if !same {
                    continue;
                }
                let (oa, ob) = (Project::output_of(s), Project::output_of(&to_b(s)));
                match (a.after.get(&oa), b.after.get(&ob)) {
                    (x, y) if x == y => {}
                    (Some(x), Some(y)) => return viol("output", format!("{oa} depends on unrelated files: {}", first_diff(x, y))),
                    (x, _) => return viol("output", format!("{oa} {} written when unrelated files change", if x.is_some() { "is no longer" } else { "is only" })),
                }
                // The same message may spell a path differently when the root is given differently.
                let moved_prefix = format!("{}/", edit::MOVED);
                let about = |o: &Output, f: &str| {
                    let strip = |x: &str| x.strip_prefix(&moved_prefix).unwrap_or(x).to_string();
                    let mut v: Vec<String> = o
                        .msgs
                        .iter()
                        .filter(|m| m.path.as_deref().map_or(false, |x| oracle::same(f, x)))
                        .map(|m| {
                            let words: Vec<&str> = m.headline.split('`').step_by(2).collect();
                            let names: Vec<String> = m.names.iter().map(|n| strip(n)).collect();
                            let rest: Vec<&str> = m.text.lines().skip(1).filter(|l| !l.trim_start().starts_with("--> ")).collect();
                            format!("{:?} {:?} {:?} {:?}:{:?} {:?}", m.level, words, names, m.line, m.col, rest)
                        })
                        .collect();
                    v.sort();
                    v
                };
                let (ma, mb) = (about(&ga, s), about(&gb, &to_b(s)));
                if ma != mb {
                    return viol("messages", format!("messages about {s} depend on unrelated files: {ma:?} against {mb:?}"));
                }
            }
            Ok(())
        }
        _ => panic!("no such property {prop}"),
    }
}

/// A key identifying what was explored if the case exercised its property, for counting.
pub fn nontrivial(prop: &str, c: &Case, obs: &[Obs]) -> Option<u64> {
    let o = obs.last().unwrap();
    let fired = obs.iter().any(|x| x.run.fired.iter().any(|f| *f > 0));
    let n = o.proj.sources().len();
    let ok = match prop {
        "C01" => o.run.switches > 0 && n >= 2,
        "C02" => o.run.steps > 10,
        "C03" => obs.iter().any(|x| x.run.switches > 0),
        "C04" => fired,
        "C05" => fired || (c.flavour == "broken-documents" && expect(&o.proj, &Io::default()).any_error),
        "C06" => ["short_read", "short_write", "eintr", "dt_unknown"].iter().any(|k| o.run.counters.get(*k).copied().unwrap_or(0) > 0),
        "C07" => obs.iter().any(|x| x.run.end == Some(End::Crash)),
        "C08" => o.run.steps > 10,
        "C27" => obs.iter().filter(|x| x.overlap > 0).count() > 1,
        "C09" => o.after.contains_key(&o.proj.globals_path()),
        "C10" => o.env.rules.is_empty() || fired,
        "C11" => !imports_of(&o.proj).is_empty(),
        "C12" | "C23" | "C24" | "C26" => n >= 1 && o.run.code() == Some(0),
        "C13" | "C14" | "C28" => !printed(&o.run).msgs.is_empty(),
        "C15" => o.run.counters.iter().any(|(k, v)| (k.contains("spawn_fail") || k.contains("alloc_fail")) && *v > 0),
        "C19" => obs.len() > 1,
        "C20" => obs.len() > 2,
        "C21" => o.run.code().is_some(),
        "C22" => obs[0].after != obs[1].after,
        _ => true,
    };
    if !ok {
        return None;
    }
    let mut h = hash_bytes(serde_json::to_string(&c.proj).unwrap().as_bytes());
    for s in &c.steps {
        if let Step::Overlap { grants, .. } = s {
            h = mix(h ^ hash_bytes(format!("{grants:?}").as_bytes()));
        }
    }
    for x in obs {
        h = mix(h ^ x.run.cshash.rotate_left(7) ^ x.run.fired.iter().fold(0, |a, b| a * 31 + b));
    }
    Some(h)
}

#[allow(dead_code)]
fn unused(_: &GT, _: &Kind) {}

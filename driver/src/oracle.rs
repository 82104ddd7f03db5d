//! Judges: compare what a run did with what the reference model expects.
//! Each returns a short description of the first disagreement.
use crate::canon;
use crate::dts::{self, Global};
use crate::model::{Expected, FileExp, Level, Msg};
use crate::out::{Lv, Output, Printed};
use crate::project::Project;
use crate::sim::{End, Run};
use std::collections::{BTreeMap, BTreeSet};

pub type Files = BTreeMap<String, Vec<u8>>;
pub type V = Result<(), String>;

macro_rules! bad {
    ($($t:tt)*) => { return Err(format!($($t)*)) };
}

fn cut(s: &str) -> String {
    if s.chars().count() > 700 {
        format!("{}...", s.chars().take(700).collect::<String>())
    } else {
        s.to_string()
    }
}

/// The process ended by itself, with one of its two documented statuses.
pub fn ended(r: &Run) -> V {
    match r.end {
        Some(End::Exit(0)) | Some(End::Exit(1)) => Ok(()),
        Some(End::Hang) => bad!("the run never finished: still going after {} scheduling steps", r.steps),
        Some(End::Deadlock) => bad!("the run never finished: every thread is blocked after {} steps", r.steps),
        Some(End::Signal(s)) => bad!("the process was killed by signal {s}: {}", cut(r.stderr_text().trim())),
        Some(End::Abort) => bad!("the process aborted: {}", cut(r.stderr_text().trim())),
        Some(End::Exit(c)) => bad!("the process exited with status {c}: {}", cut(r.stderr_text().trim())),
        Some(End::Crash) | None => bad!("unexpected end"),
    }
}

/// Did not hang; any definite end will do.
pub fn not_stuck(r: &Run) -> V {
    match r.end {
        Some(End::Hang) => bad!("the run never finished: still going after {} scheduling steps", r.steps),
        Some(End::Deadlock) => bad!("the run never finished: every thread is blocked after {} steps", r.steps),
        _ => Ok(()),
    }
}

/// Exit status and totals agree with the messages printed.
pub fn status(r: &Run, o: &Output) -> V {
    let e = o.msgs.iter().filter(|m| m.level == Lv::Error).count() as u64;
    let w = o.msgs.iter().filter(|m| m.level == Lv::Warning).count() as u64;
    let code = r.code().unwrap_or(-1);
    if (code != 0) != (e > 0) {
        bad!("exit status {code} although {e} errors were printed");
    }
    if e > 0 && o.err_total != Some(e) {
        bad!("{e} errors were printed but the total says {:?}", o.totals);
    }
    if e == 0 && o.err_total.is_some() {
        bad!("no error was printed but the total says {:?}", o.totals);
    }
    if w > 0 && o.warn_total != Some(w) {
        bad!("{w} warnings were printed but the total says {:?}", o.totals);
    }
    if w == 0 && o.warn_total.is_some() {
        bad!("no warning was printed but the total says {:?}", o.totals);
    }
    for t in &o.totals {
        let n: u64 = t.split(' ').find_map(|x| x.parse().ok()).unwrap_or(0);
        let plural = t.contains("errors") || t.contains("warnings");
        if plural != (n > 1) {
            bad!("the total {t:?} does not agree with its count");
        }
    }
    if !o.stray.is_empty() {
        bad!("text before the first message: {:?}", o.stray);
    }
    Ok(())
}

/// Whether a printed path is this one.
pub fn same(path: &str, shown: &str) -> bool {
    path == shown || crate::sim::lossy(path) == shown
}

pub fn fits(m: &Msg, p: &Printed) -> bool {
    let lv = match m.level {
        Level::Error => Lv::Error,
        Level::Warning => Lv::Warning,
    };
    p.level == lv
        && m.path.as_ref().map_or(true, |x| p.path.as_ref().map_or(false, |y| same(x, y)))
        && m.line.map_or(true, |x| p.line == Some(x))
        && m.col.map_or(true, |x| p.col == Some(x))
        && m.similar.as_ref().map_or(true, |s| *s == p.suggested())
        && m.names.as_ref().map_or(true, |ns| ns.iter().all(|n| p.names.iter().any(|x| same(n, x))))
}
fn spec(m: &Msg) -> usize {
    m.path.is_some() as usize + m.line.is_some() as usize + m.col.is_some() as usize + m.names.as_ref().map_or(0, |n| 1 + n.len())
}

/// Every expected message is printed exactly once (repeatable ones at least once), nothing else is.
/// Bipartite matching by augmenting paths; returns the first left vertex that cannot be covered.
fn uncovered(n: usize, m: usize, edge: impl Fn(usize, usize) -> bool) -> Option<usize> {
    fn go(l: usize, m: usize, edge: &dyn Fn(usize, usize) -> bool, seen: &mut [bool], mate: &mut [Option<usize>]) -> bool {
        for r in 0..m {
            if !seen[r] && edge(l, r) {
                seen[r] = true;
                if mate[r].map_or(true, |o| go(o, m, edge, seen, mate)) {
                    mate[r] = Some(l);
                    return true;
                }
            }
        }
        false
    }
    let mut mate = vec![None; m];
    (0..n).find(|&l| !go(l, m, &edge, &mut vec![false; m], &mut mate))
}

/// Every expected message is printed once (repeatable ones: at least once) and nothing else is.
/// A matching covering all expected messages and one covering all printed ones that need an
/// expected message imply one that does both (Mendelsohn and Dulmage).
pub fn messages(exp: &[Msg], got: &[Printed]) -> V {
    let mut strict: Vec<&Msg> = exp.iter().filter(|m| !m.repeatable).collect();
    strict.sort_by_key(|m| std::cmp::Reverse(spec(m)));
    if let Some(i) = uncovered(strict.len(), got.len(), |i, j| fits(strict[i], &got[j])) {
        bad!("expected message not printed: {}", describe(strict[i]));
    }
    for m in exp.iter().filter(|m| m.repeatable) {
        if !got.iter().any(|p| fits(m, p)) {
            bad!("expected message not printed: {}", describe(m));
        }
    }
    let need: Vec<&Printed> = got.iter().filter(|p| !exp.iter().any(|m| m.repeatable && fits(m, p))).collect();
    if let Some(i) = uncovered(need.len(), strict.len(), |i, j| fits(strict[j], need[i])) {
        bad!("unexpected (or repeated) message: {}", cut(&need[i].text));
    }
    Ok(())
}

pub fn describe(m: &Msg) -> String {
    format!(
        "{:?} at {}:{}:{} naming {:?}",
        m.level,
        m.path.as_deref().unwrap_or("?"),
        m.line.map_or("?".into(), |x| x.to_string()),
        m.col.map_or("?".into(), |x| x.to_string()),
        m.names.clone().unwrap_or_default()
    )
}

/// The one source file compiled into the file it should.
pub fn one_output(p: &Project, src: &str, fe: &FileExp, after: &Files, before: &Files) -> V {
    let op = Project::output_of(src);
    let got = after.get(&op);
    if fe.tainted {
        return Ok(());
    }
    let Some(want) = &fe.out else {
        return match (got, before.get(&op)) {
            (None, _) => Ok(()),
            (Some(g), Some(b)) if g == b => Ok(()), // a stale earlier output
            _ => bad!("{src} does not compile, yet {op} was written"),
        };
    };
    let Some(got) = got else { bad!("{op} is missing although {src} is valid") };
    let text = String::from_utf8_lossy(got);
    let d = match dts::parse_dts(&text) {
        Ok(d) => d,
        Err(e) => bad!("{op} cannot be read: {e}"),
    };
    let alt = if want.node == "SubscriptionDocumentNode" { "QueryDocumentNode" } else { want.node.as_str() };
    if d.node != want.node && d.node != alt {
        bad!("{op}: document type {} instead of {}", d.node, want.node);
    }
    let mut imports = want.imports.clone();
    if d.node != want.node {
        for s in imports.values_mut() {
            if s.remove(&want.node) {
                s.insert(d.node.clone());
            }
        }
    }
    if d.imports != imports {
        bad!("{op}: imports {:?} instead of {:?}", d.imports, imports);
    }
    if d.data_name != want.data_name || d.vars_name != want.vars_name {
        bad!("{op}: type names {} {:?} instead of {} {:?}", d.data_name, d.vars_name, want.data_name, want.vars_name);
    }
    if let Some(x) = canon::diff(&d.data_name, &want.data, &d.data) {
        bad!("{op}: {x}");
    }
    match (&want.vars, &d.vars) {
        (None, None) => {}
        (Some(a), Some(b)) => {
            if let Some(x) = canon::diff("variables", a, b) {
                bad!("{op}: {x}");
            }
        }
        _ => bad!("{op}: variables type present in only one of expected and actual"),
    }
    let mut scope: BTreeSet<String> = imports.values().flatten().cloned().collect();
    for t in &p.schema.types {
        if matches!(t.kind, crate::schema::Kind::Scalar) {
            scope.insert(format!("{}{}", p.opts.scalar_prefix.clone().unwrap_or_default(), t.name));
        }
    }
    for n in &d.free {
        if !scope.contains(n) {
            bad!("{op}: refers to {n}, which it neither declares nor imports");
        }
    }
    Ok(())
}

pub fn outputs(p: &Project, exp: &Expected, after: &Files, before: &Files) -> V {
    for (src, fe) in &exp.files {
        one_output(p, src, fe, after, before)?;
    }
    Ok(())
}

/// Exported names of every selection's type.
pub fn names(exp: &Expected, after: &Files) -> V {
    for (src, fe) in exp.files.iter().filter(|(_, f)| !f.tainted) {
        let (Some(_), Some(tree)) = (&fe.out, &fe.tree) else { continue };
        let op = Project::output_of(src);
        let Some(got) = after.get(&op) else { bad!("{op} is missing although {src} is valid") };
        let text = String::from_utf8_lossy(got);
        if let Err(e) = dts::check_names(&text, tree) {
            bad!("{op}: {e}");
        }
    }
    Ok(())
}

pub fn globals(p: &Project, exp: &Expected, after: &Files, before: &Files) -> V {
    let gp = p.globals_path();
    let got = after.get(&gp);
    if exp.files.values().any(|f| f.tainted) {
        return Ok(());
    }
    let Some(want) = &exp.globals else {
        return match (got, before.get(&gp)) {
            (None, _) => Ok(()),
            (Some(g), Some(b)) if g == b => Ok(()),
            _ => bad!("{gp} was written although nothing needs it"),
        };
    };
    let Some(got) = got else { bad!("{gp} is missing; it should declare {:?}", want.keys().collect::<Vec<_>>()) };
    let g = match dts::parse_globals(&String::from_utf8_lossy(got)) {
        Ok(g) => g,
        Err(e) => bad!("{gp} cannot be read: {e}"),
    };
    let (a, b): (BTreeSet<_>, BTreeSet<_>) = (want.keys().collect(), g.keys().collect());
    if a != b {
        bad!(
            "{gp}: missing {:?}, superfluous {:?}",
            a.difference(&b).collect::<Vec<_>>(),
            b.difference(&a).collect::<Vec<_>>()
        );
    }
    for (n, w) in want {
        match (w, &g[n]) {
            (Global::Enum(a, c), Global::Enum(b, d)) if a == b && c == d => {}
            (Global::Input(a), Global::Input(b)) => {
                if let Some(d) = canon::diff(n, a, b) {
                    bad!("{gp}: {d}");
                }
            }
            (a, b) => bad!("{gp}: {n} is {b:?} instead of {a:?}"),
        }
    }
    Ok(())
}

/// The globals file declares at least these.
pub fn globals_include(p: &Project, want: &BTreeMap<String, Global>, after: &Files) -> V {
    if want.is_empty() {
        return Ok(());
    }
    let gp = p.globals_path();
    let Some(got) = after.get(&gp) else { bad!("{gp} is missing; it should declare {:?}", want.keys().collect::<Vec<_>>()) };
    let g = match dts::parse_globals(&String::from_utf8_lossy(got)) {
        Ok(g) => g,
        Err(e) => bad!("{gp} cannot be read: {e}"),
    };
    for (n, w) in want {
        match (w, g.get(n)) {
            (Global::Enum(a, c), Some(Global::Enum(b, d))) if a == b && c == d => {}
            (Global::Input(a), Some(Global::Input(b))) => {
                if let Some(d) = canon::diff(n, a, b) {
                    bad!("{gp}: {d}");
                }
            }
            (_, None) => bad!("{gp} does not declare {n}, which a document that compiled relies on"),
            (a, Some(b)) => bad!("{gp}: {n} is {b:?} instead of {a:?}"),
        }
    }
    Ok(())
}

/// Every import of a globals name by an output is satisfied by the globals file.
pub fn imports_resolve(p: &Project, after: &Files) -> V {
    let declared: BTreeSet<String> = match after.get(&p.globals_path()) {
        Some(t) => match dts::parse_globals(&String::from_utf8_lossy(t)) {
            Ok(g) => {
                for (n, d) in &g {
                    if let Global::Input(c) = d {
                        let mut names = BTreeSet::new();
                        names_in(c, &mut names);
                        for x in names {
                            let scalar = p.schema.types.iter().any(|t| {
                                matches!(t.kind, crate::schema::Kind::Scalar)
                                    && (x == t.name || x == format!("{}{}", p.opts.scalar_prefix.clone().unwrap_or_default(), t.name))
                            });
                            if !scalar && !["string", "number", "boolean", "any"].contains(&x.as_str()) && !g.contains_key(&x) {
                                bad!("globals: {n} refers to {x}, which is not declared");
                            }
                        }
                    }
                }
                g.into_keys().collect()
            }
            Err(e) => bad!("globals file cannot be read: {e}"),
        },
        None => BTreeSet::new(),
    };
    let mine: BTreeSet<String> = p.sources().iter().map(|s| Project::output_of(s)).collect();
    for (f, t) in after {
        if !mine.contains(f) {
            continue;
        }
        let d = match dts::parse_dts(&String::from_utf8_lossy(t)) {
            Ok(d) => d,
            Err(e) => bad!("{f} cannot be read: {e}"),
        };
        if let Some(ns) = d.imports.get(&p.opts.globals_module) {
            for n in ns {
                if !declared.contains(n) {
                    bad!("{f} imports {n}, which the globals file does not declare");
                }
            }
        }
    }
    Ok(())
}
/// TypeScript accepts the declarations of all documents together, and a client gets their types through them.
pub fn typescript(p: &Project, exp: &Expected, after: &Files) -> V {
    let mut files = serde_json::Map::new();
    let mut docs = Vec::new();
    for (src, fe) in &exp.files {
        let Some(d) = &fe.out else { continue };
        let op = Project::output_of(src);
        let Some(text) = after.get(&op) else { bad!("{op} is missing although the run succeeded") };
        files.insert(crate::sim::lossy(&op), String::from_utf8_lossy(text).into());
        docs.push(serde_json::json!({
            "path": crate::sim::lossy(src), "kind": d.node.trim_end_matches("DocumentNode").to_lowercase(), "data": d.data_name,
            "vars": d.vars_name.as_ref().filter(|v| *v != "never"),
        }));
    }
    if docs.is_empty() {
        return Ok(());
    }
    let gp = p.globals_path();
    if let (Some(t), true) = (after.get(&gp), exp.globals.is_some()) {
        files.insert(crate::sim::lossy(&gp), String::from_utf8_lossy(t).into());
    }
    // Custom scalars are the client's to declare.
    let mut ambient = String::new();
    if p.opts.use_custom_scalars {
        let pre = p.opts.scalar_prefix.clone().unwrap_or_default();
        let own = ["Int", "Float", "String", "Boolean", "ID"];
        for t in p.schema.types.iter().filter(|t| matches!(t.kind, crate::schema::Kind::Scalar) && !own.contains(&t.name.as_str())) {
            let n = format!("{pre}{}", t.name);
            // These are there already.
            if n != "Date" && n != "JSON" {
                ambient.push_str(&format!("declare type {n} = {{ readonly scalar: {:?} }};\n", t.name));
            }
        }
    }
    let q = serde_json::json!({
        "files": files, "docs": docs, "ambient": ambient, "typings": p.opts.docnode_module, "globals": p.opts.globals_module, "globalsPath": crate::sim::lossy(&gp),
    });
    thread_local! {
        static TS: std::cell::RefCell<Option<crate::sim::Helper>> = const { std::cell::RefCell::new(None) };
    }
    let r = TS.with(|x| x.borrow_mut().get_or_insert_with(|| crate::sim::Helper::new(&crate::root().join("jssim/tsserver.js"))).ask(&q));
    let errors: Vec<&str> = r["errors"].as_array().expect("TypeScript's answer").iter().filter_map(|e| e.as_str()).collect();
    if let Some(e) = errors.first() {
        bad!("{e}");
    }
    Ok(())
}

fn names_in(c: &canon::C, out: &mut BTreeSet<String>) {
    match c {
        canon::C::Name(n) => {
            out.insert(n.clone());
        }
        canon::C::Arr(a) => names_in(a, out),
        canon::C::Union(s) => s.iter().for_each(|x| names_in(x, out)),
        canon::C::Obj(m) => m.values().for_each(|p| names_in(&p.ty, out)),
        _ => {}
    }
}

/// Inputs untouched; nothing created or changed but outputs of the sources and the globals file.
pub fn confined(p: &Project, r: &Run, before: &Files, after: &Files) -> V {
    if let Some((c, x)) = r.escapes.first() {
        bad!("the run tried to change {x} outside the project ({c})");
    }
    let mut may: BTreeSet<String> = p.sources().iter().map(|s| Project::output_of(s)).collect();
    let gp = p.globals_path();
    may.insert(gp);
    for (f, t) in before {
        match after.get(f) {
            None => bad!("{f} was deleted"),
            Some(x) if x != t && !may.contains(f) => bad!("{f} was modified"),
            _ => {}
        }
    }
    for f in after.keys() {
        // A killed run has no chance to remove its scratch files.
        if !before.contains_key(f) && !may.contains(f) && !(r.end == Some(End::Crash) && near(f, &may)) {
            bad!("{f} was created");
        }
    }
    for o in &r.ops {
        if ["openw", "unlink", "rename", "trunc", "mkdir", "chmod", "link", "utime"].contains(&o.cls.as_str()) && o.ret >= 0 && !may.contains(&o.path) {
            // Scratch files next to an output would be seen here even if removed again.
            if before.contains_key(&o.path) || !near(&o.path, &may) {
                bad!("the run performed {} on {}", o.cls, o.path);
            }
        }
    }
    Ok(())
}
/// Could be a temporary file of an output of this project.
pub fn beside(p: &Project, f: &str) -> bool {
    let mut may: BTreeSet<String> = p.sources().iter().map(|s| Project::output_of(s)).collect();
    may.insert(p.globals_path());
    near(f, &may)
}
/// A temporary file in the directory of an output is an acceptable way of writing it.
fn near(path: &str, may: &BTreeSet<String>) -> bool {
    let d = crate::project::parent(path);
    !path.ends_with(".graphql") && may.iter().any(|m| crate::project::parent(m) == d)
}

/// Every message about a place quotes that line of the file, with a mark below the column.
pub fn excerpts(files: &BTreeMap<String, Vec<u8>>, got: &Output) -> V {
    for m in &got.msgs {
        let (Some(f), Some(l), Some(c)) = (&m.path, m.line, m.col) else { continue };
        let Some(b) = files.get(f) else { continue };
        let text = String::from_utf8_lossy(b);
        let text = text.trim_start_matches('\u{feff}').replace("\r\n", "\n").replace('\r', "\n");
        let want = text.lines().nth(l as usize - 1).unwrap_or("");
        match &m.shown {
            None => bad!("the message about {f}:{l}:{c} does not quote the line: {}", cut(&m.text)),
            Some(s) if s.trim_end() != want.trim_end() => bad!("{f}:{l} shows {s:?} instead of {want:?}"),
            _ => {}
        }
        if m.mark != Some(c as usize - 1) {
            bad!("the mark is not below column {c} of {f}:{l}: {}", cut(&m.text));
        }
    }
    Ok(())
}

/// No escape sequence where there must be no colours; otherwise no colour that is left on.
pub fn colours(raw: &str, plain: bool) -> V {
    if plain && raw.contains('\u{1b}') {
        bad!("colours although there should be none: {:?}", cut(raw));
    }
    let last = raw.split("\u{1b}[").skip(1).filter_map(|x| x.split_once('m')).map(|x| x.0).last();
    if last.map_or(false, |c| c != "0" && !c.is_empty()) {
        bad!("a colour is left on at the end: {:?}", cut(raw));
    }
    Ok(())
}

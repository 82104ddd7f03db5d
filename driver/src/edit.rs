//! Changes to a project: what users do between runs, and what breaks its inputs.
use crate::doc::*;
use crate::project::{self, join, normalise, parent, relative, Entry, Project, RawKind};
use crate::props::{field, tiny};
use crate::rng::Rng;
use crate::schema::{FieldDef, Kind, Schema, GT};
use serde_json::{json, Value};
use std::collections::BTreeMap;

/// Every option on the command line, nothing left to a configuration file.
pub fn plain_args(p: &Project) -> Vec<String> {
    let o = &p.opts;
    let mut a: Vec<String> = Vec::new();
    if !p.root.is_empty() {
        a.push(p.root.clone());
    }
    let mut kv = |k: &str, v: &str| {
        a.push(k.into());
        a.push(v.into());
    };
    kv("--schema-path", &p.schema_path);
    kv("--num-threads", &o.threads.unwrap_or(3).to_string());
    kv("--global-types-module-name", &o.globals_module);
    kv("--typed-graphql-documentnode-module-name", &o.docnode_module);
    if let Some(x) = &o.import_prefix {
        kv("--root-dir-import-prefix", x);
    }
    if o.use_custom_scalars {
        if let Some(x) = &o.scalar_prefix {
            kv("--custom-scalar-prefix", x);
        }
        a.push("--use-custom-scalars".into());
    }
    if !o.readonly {
        a.push("--disable-readonly-types".into());
    }
    if o.deprecation_warnings {
        a.push("--show-deprecation-warnings".into());
    }
    a
}

fn doc_paths(p: &Project) -> Vec<String> {
    p.entries.iter().filter(|(_, e)| matches!(e, Entry::Doc(_))).map(|(k, _)| k.clone()).collect()
}

fn rerender(p: &mut Project) {
    for e in p.entries.values_mut() {
        if let Entry::Doc(d) = e {
            d.render();
        }
    }
}

fn free_dir(r: &mut Rng, p: &Project) -> String {
    let ds: Vec<String> = p.dirs().into_iter().filter(|d| d == &p.root || p.under_root(d)).collect();
    r.pick(&ds).clone()
}

/// Counts spreads and inline fragments, to name new selections uniquely.
fn unique(r: &mut Rng) -> String {
    format!("edit{}", r.below(100_000))
}

pub fn edit(r: &mut Rng, p0: &Project) -> Project {
    let mut p = p0.clone();
    let docs = doc_paths(&p);
    match r.below(16) {
        0 | 1 => {
            let d = free_dir(r, &p);
            let n = unique(r);
            let mut doc = tiny(&format!("New{n}"));
            if let (Some(fs), true) = (p.schema.fields("Query"), r.pct(70)) {
                let leafs: Vec<String> = fs.iter().filter(|f| !p.schema.is_composite(f.ty.name())).map(|f| f.name.clone()).collect();
                if !leafs.is_empty() {
                    doc.sel_mut().push(field(r.pick(&leafs)));
                }
            }
            doc.render();
            p.entries.entry(join(&d, &format!("{n}.graphql"))).or_insert(Entry::Doc(doc));
        }
        2 => {
            // Remove a document (importers of it, if any, then have a bad import).
            let srcs = p.sources();
            if srcs.len() > 1 {
                let s = r.pick(&srcs).clone();
                p.entries.remove(&s);
            }
        }
        3 | 4 => {
            if let Some(k) = pick(r, &docs) {
                if let Some(Entry::Doc(d)) = p.entries.get_mut(&k) {
                    let a = unique(r);
                    let f = Sel::Field { alias: Some(a), name: "__typename".into(), args: None, sel: vec![], pos: Pos::default() };
                    let i = r.below(d.sel().len() + 1);
                    d.sel_mut().insert(i, f);
                }
            }
        }
        5 => {
            if let Some(k) = pick(r, &docs) {
                if let Some(Entry::Doc(d)) = p.entries.get_mut(&k) {
                    if d.sel().len() > 1 {
                        let i = r.below(d.sel().len());
                        d.sel_mut().remove(i);
                    }
                }
            }
        }
        6 => {
            // A mistake appears, or a broken file is repaired.
            let raws: Vec<String> =
                p.entries.iter().filter(|(k, e)| Project::is_graphql(k) && matches!(e, Entry::Raw(..))).map(|(k, _)| k.clone()).collect();
            if !raws.is_empty() && r.pct(60) {
                let k = r.pick(&raws).clone();
                let mut d = tiny(&format!("Repaired{}", unique(r)));
                d.render();
                p.entries.insert(k, Entry::Doc(d));
            } else if let Some(k) = pick(r, &docs) {
                if let Some(Entry::Doc(d)) = p.entries.get_mut(&k) {
                    let i = r.below(d.sel().len() + 1);
                    d.sel_mut().insert(i, field("nmae"));
                }
            }
        }
        7 => {
            if let Some(k) = pick(r, &p.sources()) {
                let (kind, text) = project::raw_bad(r);
                p.entries.insert(k, Entry::Raw(kind, text));
            }
        }
        8 => {
            // Same size, other content: swap one letter of an operation's name.
            for k in docs {
                if let Some(Entry::Doc(d)) = p.entries.get_mut(&k) {
                    if let Def::Op { name: Some(n), .. } = &mut d.def {
                        if n.starts_with("Op") || n.starts_with("Qp") {
                            let other = if n.starts_with("Op") { "Qp" } else { "Op" };
                            n.replace_range(0..2, other);
                            break;
                        }
                    }
                }
            }
        }
        9 => toggle_nullability(r, &mut p.schema),
        10 => {
            let mut es: Vec<&mut Vec<String>> = p
                .schema
                .types
                .iter_mut()
                .filter_map(|t| if let Kind::Enum(v) = &mut t.kind { Some(v) } else { None })
                .collect();
            if !es.is_empty() {
                let i = r.below(es.len());
                if es[i].len() > 1 && r.pct(40) {
                    es[i].pop();
                } else {
                    es[i].push(format!("NEW{}", r.below(1000)));
                }
            }
        }
        11 | 12 => {
            let o = &mut p.opts;
            match r.below(5) {
                0 => o.readonly = !o.readonly,
                1 => o.deprecation_warnings = !o.deprecation_warnings,
                2 => {
                    o.use_custom_scalars = !o.use_custom_scalars;
                    o.scalar_prefix = None;
                }
                3 => o.docnode_module = if o.docnode_module == "other/node" { "documents/node".into() } else { "other/node".into() },
                _ => o.threads = Some(r.range(1, 6)),
            }
            p.config = None;
            p.args = plain_args(&p);
        }
        13 => {
            // Rename an operation document.
            let ops: Vec<String> = docs
                .iter()
                .filter(|k| p.under_root(k) && matches!(&p.entries[*k], Entry::Doc(Doc { def: Def::Op { .. }, .. })))
                .cloned()
                .collect();
            if let Some(k) = pick(r, &ops) {
                let to = join(parent(&k), &format!("renamed{}.graphql", r.below(1000)));
                if !p.entries.contains_key(&to) {
                    let e = p.entries.remove(&k).unwrap();
                    p.entries.insert(to, e);
                }
            }
        }
        14 => {
            // Two operation documents trade places.
            let ops: Vec<String> = docs
                .iter()
                .filter(|k| matches!(&p.entries[*k], Entry::Doc(Doc { def: Def::Op { .. }, header, .. }) if header.is_empty()))
                .cloned()
                .collect();
            if ops.len() >= 2 {
                let a = r.pick(&ops).clone();
                let b = r.pick(&ops).clone();
                if a != b {
                    let (x, y) = (p.entries[&a].clone(), p.entries[&b].clone());
                    p.entries.insert(a, y);
                    p.entries.insert(b, x);
                }
            }
        }
        _ => {
            // A whole directory goes.
            let ds: Vec<String> = p.dirs().into_iter().filter(|d| p.under_root(d) && *d != p.root).collect();
            if let Some(d) = pick(r, &ds) {
                let pre = format!("{d}/");
                if p.sources().iter().any(|s| !s.starts_with(&pre)) && !p.schema_path.starts_with(&pre) && !p.globals_path().starts_with(&pre) {
                    p.entries.retain(|k, _| k != &d && !k.starts_with(&pre));
                }
            }
        }
    }
    rerender(&mut p);
    p
}

fn pick(r: &mut Rng, v: &[String]) -> Option<String> {
    if v.is_empty() {
        None
    } else {
        Some(r.pick(v).clone())
    }
}

/// Makes a field required or optional everywhere it occurs.
fn toggle_nullability(r: &mut Rng, s: &mut Schema) {
    let names: Vec<String> = s.fields("Query").unwrap_or(&[]).iter().map(|f| f.name.clone()).collect();
    let Some(n) = pick(r, &names) else { return };
    for t in &mut s.types {
        if let Kind::Object(fs) | Kind::Interface(fs, _) = &mut t.kind {
            for f in fs.iter_mut().filter(|f| f.name == n) {
                f.ty = match &f.ty {
                    GT::NN(i) => (**i).clone(),
                    o => GT::NN(Box::new(o.clone())),
                };
            }
        }
    }
}

/// Puts different files at the places an import would name if it were resolved another way.
pub fn shadow_imports(r: &mut Rng, p: &mut Project) {
    let mut add: BTreeMap<String, Entry> = BTreeMap::new();
    for (k, e) in &p.entries {
        let Entry::Doc(d) = e else { continue };
        for i in d.imports().filter(|i| i.closed) {
            let right = p.resolve(k, &i.text);
            let bare = match &p.opts.import_prefix {
                Some(x) => i.text.strip_prefix(x.as_str()).unwrap_or(&i.text).to_string(),
                None => i.text.clone(),
            };
            for t in [&i.text, &bare] {
                for base in [parent(k), p.root.as_str(), "", parent(parent(k))] {
                    let c = normalise(&join(base, t));
                    if c != right && !c.starts_with("..") && c.ends_with(".graphql") && !p.entries.contains_key(&c) && r.pct(70) {
                        // A fragment of the same name with other content, or something that is no fragment.
                        let alike = match p.entries.get(&right) {
                            Some(Entry::Doc(Doc { def: Def::Frag { name, on, .. }, .. })) if r.pct(70) => {
                                let mut f = tiny("X");
                                f.def = Def::Frag {
                                    name: name.clone(),
                                    on: on.clone(),
                                    sel: vec![Sel::Field {
                                        alias: Some("wrongFile".into()),
                                        name: "__typename".into(),
                                        args: None,
                                        sel: vec![],
                                        pos: Pos::default(),
                                    }],
                                    pos: Pos::default(),
                                };
                                f
                            }
                            _ => tiny(&format!("Shadow{}", r.below(1000))),
                        };
                        add.insert(c, Entry::Doc(alike));
                    }
                }
            }
        }
    }
    for (k, e) in add {
        // Never where a directory is, nor below a file.
        let mut q = parent(&k).to_string();
        let mut ok = !p.entries.contains_key(&k) && !p.dirs().contains(&k);
        while !q.is_empty() {
            if matches!(p.entries.get(&q), Some(Entry::Doc(_)) | Some(Entry::Raw(..)) | Some(Entry::Link(_))) {
                ok = false;
            }
            q = parent(&q).to_string();
        }
        if ok {
            p.entries.insert(k, e);
        }
    }
    rerender(p);
}

/// A schema file that is JSON but no schema.
pub fn misshape_schema(r: &mut Rng, s: &Schema) -> String {
    let mut v: Value = serde_json::from_str(&s.to_json()).unwrap();
    let kinds = |v: &Value, k: &str| -> Vec<usize> {
        v["data"]["__schema"]["types"].as_array().unwrap().iter().enumerate().filter(|(_, t)| t["kind"] == k).map(|(i, _)| i).collect()
    };
    let x = r.below(16);
    match x {
        14 => return beyond(r, &serde_json::to_string_pretty(&v).unwrap()),
        15 => {
            let k = kinds(&v, "OBJECT");
            let i = *r.pick(&k);
            v["data"]["__schema"]["types"][i]["fields"][0]["type"] = [json!({"kind": "LIST", "name": null, "ofType": null}), json!({"kind": "OBJECT", "name": null, "ofType": null}), json!({"kind": "TUPLE", "name": "X", "ofType": null}), json!("String")][r.below(4)].clone();
        }
        0 => return json!({"errors": [{"message": "introspection is disabled"}]}).to_string(),
        1 => return json!({"data": null, "errors": [{"message": "no"}]}).to_string(),
        2 => return ["[]", "null", "42", "\"schema\"", "{}"][r.below(5)].to_string(),
        3 => {
            v["data"]["__schema"]["types"] = json!({});
        }
        4 => {
            v["data"]["__schema"].as_object_mut().unwrap().remove("types");
        }
        5 => {
            let o = v["data"].as_object_mut().unwrap();
            let s = o.remove("__schema").unwrap();
            o.insert("schema".into(), s);
        }
        6 => {
            let k = kinds(&v, "OBJECT");
            let i = *r.pick(&k);
            v["data"]["__schema"]["types"][i]["kind"] = json!("OBJEKT");
        }
        7 => {
            let k = kinds(&v, "OBJECT");
            let i = *r.pick(&k);
            v["data"]["__schema"]["types"][i]["fields"] = Value::Null;
        }
        8 => {
            let k = kinds(&v, "ENUM");
            let i = *r.pick(&k);
            v["data"]["__schema"]["types"][i]["enumValues"] = Value::Null;
        }
        9 => {
            let mut k = kinds(&v, "UNION");
            k.extend(kinds(&v, "INTERFACE"));
            if k.is_empty() {
                v["data"]["__schema"]["types"] = json!("none");
            } else {
                let i = *r.pick(&k);
                v["data"]["__schema"]["types"][i]["possibleTypes"] = Value::Null;
            }
        }
        10 => {
            let k = kinds(&v, "INPUT_OBJECT");
            let i = *r.pick(&k);
            v["data"]["__schema"]["types"][i]["inputFields"] = Value::Null;
        }
        11 => {
            let k = kinds(&v, "OBJECT");
            let i = *r.pick(&k);
            v["data"]["__schema"]["types"][i]["name"] = [Value::Null, json!(3)][r.below(2)].clone();
        }
        12 => {
            let k = kinds(&v, "OBJECT");
            let i = *r.pick(&k);
            v["data"]["__schema"]["types"][i]["fields"][0]["type"] = json!({"kind": "NON_NULL", "name": null, "ofType": null});
        }
        _ => {
            let k = kinds(&v, "OBJECT");
            let i = *r.pick(&k);
            v["data"]["__schema"]["types"][i]["fields"][0].as_object_mut().unwrap().remove(["name", "type"][r.below(2)]);
        }
    }
    serde_json::to_string_pretty(&v).unwrap()
}

/// A complete text with more behind it, as an interrupted overwrite or a careless merge leaves it.
fn beyond(r: &mut Rng, text: &str) -> String {
    let t = text.trim_end();
    match r.below(5) {
        0 => format!("{t}{t}"),
        1 => format!("{t}\n}}\n"),
        2 => format!("{t}{}", &t[t.char_indices().nth(t.chars().count() - 1 - r.below(t.chars().count().min(40))).unwrap().0..].trim_start_matches(' ')) + "]",
        3 => format!("{t},"),
        _ => format!("{t}\n>>>>>>> theirs\n"),
    }
}

/// A configuration file that is JSON but no configuration.
pub fn misshape_config(r: &mut Rng, text: &str) -> String {
    let mut v: Value = serde_json::from_str(text).unwrap_or(json!({}));
    if !v.is_object() {
        v = json!({});
    }
    let bad: &[(&str, Value)] = &[
        ("numThreads", json!("4")),
        ("numThreads", json!(-1)),
        ("numThreads", json!(1.5)),
        ("numThreads", json!([2])),
        ("useCustomScalars", json!("yes")),
        ("useCustomScalars", json!(1)),
        ("customScalarPrefix", json!(5)),
        ("disableReadonlyTypes", json!("no")),
        ("showDeprecationWarnings", json!([])),
        ("rootDirImportPrefix", json!({"a": 1})),
        ("globalTypesModuleName", json!(true)),
        ("typedGraphqlDocumentnodeModuleName", json!(7)),
        ("schemaFile", json!(false)),
    ];
    if r.pct(15) {
        return beyond(r, &v.to_string());
    }
    if r.pct(15) {
        return ["null", "3", "\"x\"", "true"][r.below(4)].to_string();
    }
    let (k, x) = r.pick(bad).clone();
    v[k] = x;
    v.to_string()
}

/// The same effective options, given another way.
pub fn express(r: &mut Rng, p: &Project) -> Project {
    let mut q = p.clone();
    q.config = None;
    project::command_line(r, &mut q, true);
    q
}

pub const MOVED: &str = "moved/else where";

/// The whole project in another directory.
pub fn relocate(p: &Project) -> Project {
    let mut q = p.clone();
    let at = |f: &str| join(MOVED, f);
    q.root = if p.root.is_empty() { MOVED.to_string() } else { at(&p.root) };
    q.schema_path = at(&p.schema_path);
    q.decoys.clear();
    q.entries = p.entries.iter().map(|(k, e)| (at(k), e.clone())).collect();
    q.config = None;
    q.args = plain_args(&q);
    q
}

/// Adds, removes and breaks documents that others do not import.
pub fn disturb(r: &mut Rng, p: &Project) -> Project {
    let mut q = p.clone();
    for _ in 0..r.range(1, 4) {
        let srcs = q.sources();
        match r.below(6) {
            5 => crate::props::twin(r, &mut q),
            0 => {
                let d = free_dir(r, &q);
                let mut doc = tiny(&format!("Extra{}", r.below(1000)));
                // It may use the same names as others do.
                if let (Some(Entry::Doc(o)), true) = (pick(r, &srcs).and_then(|k| q.entries.get(&k)), r.pct(60)) {
                    doc = o.clone();
                    for h in doc.header.iter_mut() {
                        if let HeaderLine::Import(i) = h {
                            i.text = "./missing_import.graphql".into();
                        }
                    }
                }
                doc.render();
                q.entries.entry(join(&d, &format!("extra{}.graphql", r.below(1000)))).or_insert(Entry::Doc(doc));
            }
            1 if srcs.len() > 1 => {
                let k = r.pick(&srcs).clone();
                q.entries.remove(&k);
            }
            2 => {
                if let Some(k) = pick(r, &srcs) {
                    let (a, b) = project::raw_bad(r);
                    q.entries.insert(k, Entry::Raw(a, b));
                }
            }
            3 => {
                let d = free_dir(r, &q);
                q.entries.entry(join(&d, "bad words.graphql")).or_insert(Entry::Raw(RawKind::ParseError, "qwery {\n".into()));
            }
            _ => {
                if let Some(k) = pick(r, &srcs) {
                    if let Some(Entry::Doc(d)) = q.entries.get_mut(&k) {
                        d.sel_mut().push(field("nmae"));
                        d.render();
                    }
                }
            }
        }
    }
    let _ = relative;
    q
}

/// A word so many small edits away from this one.
fn misspell(r: &mut Rng, word: &str, n: usize) -> String {
    let mut w: Vec<u8> = word.bytes().collect();
    for _ in 0..n {
        let i = r.below(w.len());
        match r.below(4) {
            0 if w.len() > 2 && i > 0 => {
                w.remove(i);
            }
            1 if i + 1 < w.len() && w[i + 1].is_ascii_alphabetic() => w.swap(i, i + 1),
            2 => w[i] = b"xqZ_"[r.below(4)],
            _ => w.insert(i + 1, b"xqZ1_"[r.below(5)]),
        }
    }
    String::from_utf8(w).unwrap()
}

/// Names that are nearly right, in selections and spreads, and names that are nearly the same.
pub fn near_misses(r: &mut Rng, p: &mut Project) {
    fn lists<'a>(s: &'a mut Vec<Sel>, pick: &mut usize) -> Option<&'a mut Vec<Sel>> {
        if *pick == 0 {
            return Some(s);
        }
        *pick -= 1;
        for x in s.iter_mut() {
            if let Sel::Field { sel, .. } | Sel::Inline { sel, .. } = x {
                if !sel.is_empty() {
                    if let Some(l) = lists(sel, pick) {
                        return Some(l);
                    }
                }
            }
        }
        None
    }
    for t in p.schema.types.iter_mut() {
        if let Kind::Object(fs) = &mut t.kind {
            for _ in 0..r.below(3) {
                let f = r.pick(fs).clone();
                let name = misspell(r, &f.name, 1);
                if !name.starts_with("__") && fs.iter().all(|x| x.name != name) {
                    fs.push(FieldDef { name, ..f });
                }
            }
        }
    }
    let frags: Vec<String> = p
        .entries
        .values()
        .filter_map(|e| match e {
            Entry::Doc(Doc { def: Def::Frag { name, .. }, .. }) => Some(name.clone()),
            _ => None,
        })
        .collect();
    let docs = doc_paths(p);
    for d in docs {
        if !r.pct(55) {
            continue;
        }
        let Some(Entry::Doc(d)) = p.entries.get_mut(&d) else { continue };
        for _ in 0..r.range(1, 3) {
            let mut k = r.below(5);
            let Some(list) = lists(d.sel_mut(), &mut k) else { continue };
            let n = r.range(1, 3);
            let pos = Pos::default();
            if r.pct(30) && !frags.is_empty() {
                let name = {
                    let f = r.pick(&frags).clone();
                    misspell(r, &f, n)
                };
                list.push(Sel::Spread { name, pos });
            } else {
                let names: Vec<String> = list.iter().filter_map(|s| if let Sel::Field { name, .. } = s { Some(name.clone()) } else { None }).collect();
                if !names.is_empty() {
                    let name = {
                        let f = r.pick(&names).clone();
                        misspell(r, &f, n)
                    };
                    let at = r.below(list.len() + 1);
                    list.insert(at, Sel::Field { alias: None, name, args: None, sel: vec![], pos });
                }
            }
        }
        d.render();
    }
}

/// A command line that means nothing: unknown, repeated or half-given options, values that are none, a second root.
pub fn misspell_command_line(r: &mut Rng, p: &mut Project) {
    let has = |p: &Project, f: &str| p.args.iter().any(|a| a == f || a.starts_with(&format!("{f}=")));
    let at = |r: &mut Rng, p: &mut Project, v: &[&str]| {
        // Never between an option and its value.
        if r.pct(50) {
            p.args.extend(v.iter().map(|s| s.to_string()));
        } else {
            p.args.splice(0..0, v.iter().map(|s| s.to_string()));
        }
    };
    match r.below(8) {
        0 => {
            let v = ["--watch", "--schema", "--no-colour", "-x", "--out=dir", "--config", "--threads=2"][r.below(7)];
            at(r, p, &[v]);
        }
        1 => p.args.push(["--schema-path", "-c", "--config-file", "--global-types-module-name"][r.below(4)].into()),
        2 => {
            if let Some(i) = p.args.iter().position(|a| a == "--num-threads") {
                p.args.drain(i..i + 2);
            }
            p.args.retain(|a| !a.starts_with("--num-threads"));
            let v = ["--num-threads=many", "--num-threads=-1", "--num-threads=", "--num-threads=1.5", "--num-threads=99999999999999999999"][r.below(5)];
            at(r, p, &[v]);
        }
        3 => at(r, p, &["one", "two"]),
        4 => {
            p.args.retain(|a| a != "--use-custom-scalars");
            if !has(p, "--custom-scalar-prefix") {
                at(r, p, &["--custom-scalar-prefix=Mine"]);
            }
        }
        5 => {
            let v = ["--no-color", "--use-custom-scalars", "--disable-readonly-types", "--show-deprecation-warnings"][r.below(4)];
            at(r, p, &[v]);
            at(r, p, &[v]);
        }
        6 => at(r, p, &["--num-threads", "2", "--num-threads", "2"]),
        _ => {
            let v = ["--no-color=yes", "--use-custom-scalars=true", "--disable-readonly-types=no"][r.below(3)];
            at(r, p, &[v]);
        }
    }
    p.misspelt = p.args.clone();
}

//! Executable reference model: what one run over a project must produce.
//! It works on the generated syntax trees (it never parses GraphQL), follows
//! the GraphQL specification's field collection per concrete type, and knows
//! which reads, listings and writes are made to fail.
use crate::canon::{union, C, P};
use crate::doc::*;
use crate::dts::{doc_text, Dts, Global};
use crate::project::*;
use crate::schema::{FieldDef, Kind, GT};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Level {
    Warning,
    Error,
}

/// An expected message. `None` fields are not compared.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Msg {
    pub level: Level,
    pub path: Option<String>,
    pub line: Option<u32>,
    pub col: Option<u32>,
    /// Names quoted in backticks in the headline.
    pub names: Option<Vec<String>>,
    /// Reported once or more (the same import may be visited from several files).
    pub repeatable: bool,
    /// The names a message about an unknown one suggests; only filled in on request.
    pub similar: Option<Vec<String>>,
}

#[derive(Clone, Debug, Default)]
pub struct FileExp {
    pub msgs: Vec<Msg>,
    /// None: the file does not compile and must get no output.
    pub out: Option<Dts>,
    /// An imported fragment is itself broken: only that an error is reported is checked.
    pub tainted: bool,
    pub globals: BTreeSet<String>,
    pub tree: Option<Tree>,
    /// Files read on behalf of this one (itself and its transitive imports).
    pub reads: BTreeSet<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Expected {
    pub files: BTreeMap<String, FileExp>,
    pub msgs: Vec<Msg>,
    pub globals: Option<BTreeMap<String, Global>>,
    pub any_error: bool,
    /// Fragments outside the scanned tree that have mistakes, and a document that uses them.
    pub unseen: Vec<(String, String)>,
}

/// Persistent failures the model has to take into account (box-relative paths).
#[derive(Clone, Debug, Default)]
pub struct Io {
    pub unreadable: BTreeSet<String>,
    pub unlistable: BTreeSet<String>,
    pub unwritable: BTreeSet<String>,
}

pub struct Model<'a> {
    pub p: &'a Project,
    pub io: &'a Io,
    /// Whether to say what each exported type of a file is.
    pub names: bool,
    /// Whether to say which names are suggested for unknown ones.
    pub hints: bool,
}

/// What a selection yields for each concrete type it can meet, with the selections below.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Tree {
    pub alts: BTreeMap<String, (C, BTreeMap<String, Tree>)>,
}

fn ts(t: &GT, inner: C) -> C {
    fn bare(t: &GT, inner: &C) -> C {
        match t {
            GT::N(_) => inner.clone(),
            GT::L(i) => C::Arr(Box::new(nullable(i, inner))),
            GT::NN(i) => bare(i, inner),
        }
    }
    fn nullable(t: &GT, inner: &C) -> C {
        match t {
            GT::NN(i) => bare(i, inner),
            _ => union(vec![bare(t, inner), C::Null]),
        }
    }
    nullable(t, &inner)
}

fn doc_of(f: &FieldDef) -> Vec<String> {
    f.desc.iter().flat_map(|d| doc_text(d)).collect()
}

struct FileCtx<'a> {
    path: &'a str,
    frags: BTreeMap<String, (&'a str, &'a Vec<Sel>)>, // name -> (type condition, selection)
    msgs: Vec<Msg>,
    errors: usize,
    warns: Vec<Msg>,
    tainted: bool,
}

impl<'a> Model<'a> {
    fn scalar_or_enum(&self, name: &str, globals: &mut BTreeSet<String>) -> C {
        match name {
            "Boolean" => C::Name("boolean".into()),
            "String" | "ID" => C::Name("string".into()),
            "Int" | "Float" => C::Name("number".into()),
            n => match self.p.schema.get(n).map(|t| &t.kind) {
                Some(Kind::Scalar) => {
                    let o = &self.p.opts;
                    if !o.use_custom_scalars {
                        C::Name("any".into())
                    } else {
                        C::Name(format!("{}{n}", o.scalar_prefix.clone().unwrap_or_default()))
                    }
                }
                _ => {
                    globals.insert(n.to_string());
                    C::Name(n.to_string())
                }
            },
        }
    }

    pub fn run(&self) -> Expected {
        let mut e = Expected::default();
        let mut dirs: Vec<String> = self.p.dirs().into_iter().filter(|d| d == &self.p.root || self.p.under_root(d)).collect();
        dirs.sort();
        let mut lost: Vec<String> = Vec::new();
        for d in dirs {
            if lost.iter().any(|l| d.starts_with(&format!("{l}/")) || (l.is_empty() && !d.is_empty())) {
                continue;
            }
            if self.io.unlistable.contains(&d) {
                e.msgs.push(Msg { level: Level::Error, path: None, line: None, col: None, names: Some(vec![d.clone()]), repeatable: false, similar: None });
                lost.push(d);
            }
        }
        let mut globals = BTreeSet::new();
        let sources = self.p.sources();
        for s in sources.clone() {
            if lost.iter().any(|l| l.is_empty() || s.starts_with(&format!("{l}/"))) {
                continue;
            }
            let mut f = self.file(&s);
            let out = Project::output_of(&s);
            if f.out.is_some() && self.io.unwritable.contains(&out) {
                f.out = None;
                f.msgs.push(Msg { level: Level::Error, path: None, line: None, col: None, names: Some(vec![out]), repeatable: false, similar: None });
                f.globals.clear();
            }
            if f.out.is_some() {
                globals.extend(f.globals.iter().cloned());
            }
            e.files.insert(s, f);
        }
        for (s, f) in e.files.iter().filter(|(_, f)| f.out.is_some()) {
            for r in f.reads.iter().filter(|r| !sources.contains(r) && self.p.entries.contains_key(*r)) {
                if self.file(r).msgs.iter().any(|m| m.level == Level::Error) && !e.unseen.iter().any(|u| &u.0 == r) {
                    e.unseen.push((r.clone(), s.clone()));
                }
            }
        }
        for f in e.files.values() {
            e.msgs.extend(f.msgs.iter().cloned());
        }
        if !globals.is_empty() {
            let g = self.globals(&globals);
            let gp = self.p.globals_path();
            if self.io.unwritable.contains(&gp) || self.p.globals_dir_missing() {
                e.msgs.push(Msg { level: Level::Error, path: None, line: None, col: None, names: Some(vec![gp]), repeatable: false, similar: None });
            } else {
                e.globals = Some(g);
            }
        }
        e.any_error = e.msgs.iter().any(|m| m.level == Level::Error);
        e
    }

    pub fn globals(&self, used: &BTreeSet<String>) -> BTreeMap<String, Global> {
        let mut out = BTreeMap::new();
        let mut todo: Vec<String> = used.iter().cloned().collect();
        while let Some(n) = todo.pop() {
            if out.contains_key(&n) {
                continue;
            }
            match self.p.schema.get(&n) {
                Some(t) => match &t.kind {
                    Kind::Enum(vs) => {
                        let d = t.desc.iter().flat_map(|d| doc_text(d)).collect();
                        out.insert(n, Global::Enum(vs.iter().map(|v| (v.clone(), v.clone())).collect(), d));
                    }
                    Kind::Input(fs) => {
                        let mut m = BTreeMap::new();
                        let mut refs = BTreeSet::new();
                        for f in fs {
                            let is_input = matches!(self.p.schema.get(f.ty.name()).map(|t| &t.kind), Some(Kind::Input(_)));
                            let inner = if is_input {
                                refs.insert(f.ty.name().to_string());
                                C::Name(f.ty.name().to_string())
                            } else {
                                self.scalar_or_enum(f.ty.name(), &mut refs)
                            };
                            m.insert(
                                f.name.clone(),
                                P { ty: ts(&f.ty, inner), readonly: false, optional: !f.ty.is_nonnull(), doc: doc_of(f), deprecated: f.deprecated },
                            );
                        }
                        todo.extend(refs);
                        out.insert(n, Global::Input(C::Obj(m)));
                    }
                    _ => {}
                },
                None => {}
            }
        }
        out
    }

    fn msg(&self, path: &str, pos: Pos, level: Level, names: &[&str]) -> Msg {
        Msg {
            level,
            path: Some(path.to_string()),
            line: Some(pos.line),
            col: Some(pos.col),
            names: Some(names.iter().map(|s| s.to_string()).collect()),
            repeatable: false,
            similar: None,
        }
    }

    fn imports<'b>(
        &'b self,
        path: &'b str,
        doc: &'b Doc,
        seen: &mut BTreeSet<String>,
        ctx: &mut FileCtx<'b>,
        reads: &mut BTreeSet<String>,
    ) {
        for i in doc.imports() {
            let target = self.p.resolve(path, &i.text);
            let at = |names: Option<Vec<String>>| Msg {
                level: Level::Error,
                path: Some(path.to_string()),
                line: Some(i.line),
                col: None,
                names,
                repeatable: true,
                similar: None,
            };
            reads.insert(target.clone());
            let entry = self.p.entries.get_key_value(&target);
            let readable = matches!(entry, Some((_, Entry::Doc(_))) | Some((_, Entry::Raw(..))))
                && !self.io.unreadable.contains(&target)
                && !matches!(entry, Some((_, Entry::Raw(RawKind::BadUtf8, _))));
            if !readable {
                ctx.msgs.push(at(Some(vec![target.clone()])));
                continue;
            }
            if let Some((k, Entry::Doc(d))) = entry {
                let first = seen.insert(target.clone());
                match &d.def {
                    Def::Frag { name, on, sel, .. } => {
                        ctx.frags.insert(name.clone(), (on.as_str(), sel));
                    }
                    _ => ctx.msgs.push(at(None)),
                }
                if first {
                    self.imports(k, d, seen, ctx, reads);
                }
            }
        }
    }

    /// Checks a selection; returns false if this unit has errors of its own.
    fn check<'b>(&self, ctx: &mut FileCtx<'b>, sels: &'b [Sel], ty: &str, live: &BTreeSet<String>, local: bool, warn_spread: bool) -> bool {
        let mut ok = true;
        let path = ctx.path.to_string();
        for s in sels {
            match s {
                Sel::Field { name, sel, pos, .. } => {
                    let (fty, dep, comp) = if name == "__typename" {
                        ("__typename".to_string(), false, false)
                    } else {
                        match self.p.schema.fields(ty).and_then(|f| f.iter().find(|x| &x.name == name)) {
                            Some(f) => (f.ty.name().to_string(), f.deprecated, self.p.schema.is_composite(f.ty.name())),
                            None => {
                                ok = false;
                                if local {
                                    let known = self.p.schema.fields(ty).unwrap_or_default().iter().map(|f| f.name.as_str()).chain(["__typename"]);
                                    let similar = self.hints.then(|| near(name, known));
                                    ctx.msgs.push(Msg { similar, ..self.msg(&path, *pos, Level::Error, &[name]) });
                                    ctx.errors += 1;
                                }
                                continue;
                            }
                        }
                    };
                    if sel.is_empty() == comp {
                        ok = false;
                        if local {
                            ctx.msgs.push(self.msg(&path, *pos, Level::Error, &[&fty]));
                            ctx.errors += 1;
                        }
                        continue;
                    }
                    if comp {
                        let all: BTreeSet<String> = self.p.schema.possible(&fty).unwrap().into_iter().collect();
                        if !self.check(ctx, sel, &fty, &all, local, warn_spread) {
                            ok = false;
                            continue;
                        }
                    }
                    if dep && local && self.p.opts.deprecation_warnings {
                        ctx.warns.push(self.msg(&path, *pos, Level::Warning, &[name, ty]));
                    }
                }
                Sel::Inline { on, sel, pos } => {
                    let Some(on) = on else {
                        ok = false;
                        if local {
                            ctx.msgs.push(self.msg(&path, *pos, Level::Error, &[]));
                            ctx.errors += 1;
                        }
                        continue;
                    };
                    if self.p.schema.get(on).is_none() {
                        if local {
                            ok = false;
                            ctx.msgs.push(self.msg(&path, *pos, Level::Error, &[on]));
                            ctx.errors += 1;
                        } else {
                            ctx.tainted = true;
                        }
                        continue;
                    }
                    let Some(poss) = self.p.schema.possible(on) else {
                        if local {
                            ok = false;
                            ctx.msgs.push(self.msg(&path, *pos, Level::Error, &[on]));
                            ctx.errors += 1;
                        } else {
                            ctx.tainted = true;
                        }
                        continue;
                    };
                    let sub: BTreeSet<String> = poss.into_iter().filter(|t| live.contains(t)).collect();
                    if local && sub.is_empty() {
                        ctx.warns.push(self.msg(&path, *pos, Level::Warning, &[on]));
                    }
                    let good = self.check(ctx, sel, on, &sub, local, warn_spread);
                    if !good {
                        if local {
                            ok = false;
                        } else {
                            ctx.tainted = true;
                        }
                    }
                }
                Sel::Spread { name, pos } => {
                    if local && self.cyclic(ctx, name, &mut vec![]) {
                        ok = false;
                        ctx.msgs.push(self.msg(&path, *pos, Level::Error, &[name]));
                        ctx.errors += 1;
                        continue;
                    }
                    let Some((on, fsel)) = ctx.frags.get(name).cloned() else {
                        ok = false;
                        if local {
                            let similar = self.hints.then(|| near(name, ctx.frags.keys().map(|k| k.as_str())));
                            ctx.msgs.push(Msg { similar, ..self.msg(&path, *pos, Level::Error, &[name]) });
                            ctx.errors += 1;
                        }
                        continue;
                    };
                    let Some(poss) = self.p.schema.possible(on) else {
                        ctx.tainted = true;
                        continue;
                    };
                    let sub: BTreeSet<String> = poss.into_iter().filter(|t| live.contains(t)).collect();
                    if local && warn_spread && sub.is_empty() {
                        ctx.warns.push(self.msg(&path, *pos, Level::Warning, &[on]));
                    }
                    if !self.check(ctx, fsel, on, &sub, false, false) {
                        ctx.tainted = true;
                    }
                }
            }
        }
        ok
    }

    /// Whether spreading a fragment leads to a cycle of spreads.
    fn cyclic<'b>(&self, ctx: &FileCtx<'b>, name: &'b str, active: &mut Vec<&'b str>) -> bool {
        fn spreads<'c>(s: &'c [Sel], out: &mut BTreeSet<&'c str>) {
            for x in s {
                match x {
                    Sel::Field { sel, .. } | Sel::Inline { sel, .. } => spreads(sel, out),
                    Sel::Spread { name, .. } => {
                        out.insert(name);
                    }
                }
            }
        }
        if active.contains(&name) {
            return true;
        }
        let Some((_, sel)) = ctx.frags.get(name) else { return false };
        let mut next = BTreeSet::new();
        spreads(sel, &mut next);
        active.push(name);
        let found = next.into_iter().any(|n| self.cyclic(ctx, n, active));
        active.pop();
        found
    }

    /// The specification's CollectFields for one concrete type.
    fn collect<'b>(
        &'b self,
        ctx: &FileCtx<'b>,
        sels: &'b [Sel],
        decl: &'b str,
        concrete: &str,
        out: &mut BTreeMap<String, (Option<&'b FieldDef>, Vec<(&'b [Sel], &'b str)>)>,
    ) {
        for s in sels {
            match s {
                Sel::Field { alias, name, sel, .. } => {
                    let key = alias.clone().unwrap_or_else(|| name.clone());
                    let fd = self.p.schema.fields(decl).and_then(|f| f.iter().find(|x| &x.name == name));
                    let e = out.entry(key).or_insert((fd, vec![]));
                    if let (false, Some(f)) = (sel.is_empty(), fd) {
                        e.1.push((sel, f.ty.name()));
                    }
                }
                Sel::Inline { on, sel, .. } => {
                    if let Some(on) = on {
                        if self.p.schema.possible(on).map_or(false, |p| p.iter().any(|x| x == concrete)) {
                            self.collect(ctx, sel, on, concrete, out);
                        }
                    }
                }
                Sel::Spread { name, .. } => {
                    if let Some((on, fsel)) = ctx.frags.get(name) {
                        if self.p.schema.possible(on).map_or(false, |p| p.iter().any(|x| x == concrete)) {
                            self.collect(ctx, fsel, on, concrete, out);
                        }
                    }
                }
            }
        }
    }

    fn shape<'b>(&'b self, ctx: &FileCtx<'b>, sets: &[(&'b [Sel], &'b str)], poss: &[String], globals: &mut BTreeSet<String>, tree: &mut Tree) -> C {
        let mut alts = Vec::new();
        for t in poss {
            let mut fields: BTreeMap<String, (Option<&FieldDef>, Vec<(&[Sel], &str)>)> = BTreeMap::new();
            for (s, d) in sets {
                self.collect(ctx, s, d, t, &mut fields);
            }
            let mut m = BTreeMap::new();
            let mut below = BTreeMap::new();
            for (key, (fd, subs)) in fields {
                let p = match fd {
                    None => P { ty: C::Lit(t.clone()), readonly: self.p.opts.readonly, optional: false, doc: vec![], deprecated: false },
                    Some(f) => {
                        let inner = if subs.is_empty() {
                            self.scalar_or_enum(f.ty.name(), globals)
                        } else {
                            // An object may narrow what its interface says: a value is of all the types it is declared with.
                            let mut poss = self.p.schema.possible(f.ty.name()).unwrap_or_default();
                            for (_, d) in &subs {
                                let also = self.p.schema.possible(d).unwrap_or_default();
                                poss.retain(|t| also.contains(t));
                            }
                            let mut sub = Tree::default();
                            let c = self.shape(ctx, &subs, &poss, globals, &mut sub);
                            if self.names {
                                below.insert(key.clone(), sub);
                            }
                            c
                        };
                        P { ty: ts(&f.ty, inner), readonly: self.p.opts.readonly, optional: false, doc: doc_of(f), deprecated: f.deprecated }
                    }
                };
                m.insert(key, p);
            }
            if self.names {
                tree.alts.insert(t.clone(), (C::Obj(m.clone()), below));
            }
            alts.push(C::Obj(m));
        }
        union(alts)
    }

    pub fn file(&self, path: &str) -> FileExp {
        let mut fe = FileExp::default();
        fe.reads.insert(path.to_string());
        let simple = |names: Option<Vec<String>>, p: Option<String>| Msg { level: Level::Error, path: p, line: None, col: None, names, repeatable: false, similar: None };
        if self.io.unreadable.contains(path) {
            fe.msgs.push(simple(Some(vec![path.to_string()]), None));
            return fe;
        }
        let doc = match &self.p.entries[path] {
            Entry::Doc(d) => d,
            Entry::Raw(k, _) => {
                match k {
                    RawKind::BadUtf8 => fe.msgs.push(simple(Some(vec![path.to_string()]), None)),
                    RawKind::Multi(pos) => fe.msgs.push(self.msg(path, *pos, Level::Error, &[])),
                    _ => fe.msgs.push(simple(None, Some(path.to_string()))),
                }
                return fe;
            }
            _ => return fe,
        };
        let mut ctx = FileCtx { path, frags: BTreeMap::new(), msgs: vec![], errors: 0, warns: vec![], tainted: false };
        let mut seen = BTreeSet::new();
        let mut reads = fe.reads.clone();
        self.imports(path, doc, &mut seen, &mut ctx, &mut reads);
        fe.reads = reads;
        let (root_ty, sel, pos): (&str, &Vec<Sel>, Pos) = match &doc.def {
            Def::Anon { pos, .. } => {
                ctx.msgs.push(self.msg(path, *pos, Level::Error, &[]));
                fe.msgs = ctx.msgs;
                return fe;
            }
            Def::Op { kind, sel, .. } => (if *kind == OpKind::Mutation { "Mutation" } else { "Query" }, sel, Pos::default()),
            Def::Frag { on, sel, pos, .. } => (on, sel, *pos),
        };
        if self.p.schema.get(root_ty).is_none() {
            let mut m = self.msg(path, pos, Level::Error, &[root_ty]);
            if pos == Pos::default() {
                (m.line, m.col) = (None, None);
            }
            ctx.msgs.push(m);
            fe.msgs = ctx.msgs;
            return fe;
        }
        let Some(poss) = self.p.schema.possible(root_ty) else {
            ctx.msgs.push(self.msg(path, pos, Level::Error, &[root_ty]));
            fe.msgs = ctx.msgs;
            return fe;
        };
        let live: BTreeSet<String> = poss.iter().cloned().collect();
        self.check(&mut ctx, sel, root_ty, &live, true, true);
        if ctx.errors == 0 {
            if let Def::Op { vars, .. } = &doc.def {
                for v in vars {
                    if v.ty.list_depth() > 1 {
                        ctx.msgs.push(self.msg(path, v.pos, Level::Error, &[&v.name]));
                        ctx.errors += 1;
                        break;
                    }
                    let input = match v.ty.name() {
                        "ID" | "String" | "Float" | "Int" | "Boolean" => true,
                        n => matches!(self.p.schema.get(n).map(|t| &t.kind), Some(Kind::Scalar | Kind::Enum(_) | Kind::Input(_))),
                    };
                    if !input {
                        ctx.msgs.push(self.msg(path, v.pos, Level::Error, &[v.ty.name()]));
                        ctx.errors += 1;
                        break;
                    }
                }
            }
        }
        ctx.msgs.append(&mut ctx.warns.clone());
        fe.tainted = ctx.tainted;
        if ctx.errors > 0 {
            fe.msgs = ctx.msgs;
            return fe;
        }
        let mut globals = BTreeSet::new();
        let mut tree = Tree::default();
        let data = self.shape(&ctx, &[(sel.as_slice(), root_ty)], &poss, &mut globals, &mut tree);
        if self.names {
            fe.tree = Some(tree);
        }
        let (data_name, node, vars) = match &doc.def {
            Def::Op { kind, name, vars, .. } => {
                let k = match kind {
                    OpKind::Query => "Query",
                    OpKind::Mutation => "Mutation",
                    OpKind::Subscription => "Subscription",
                };
                (name.clone().unwrap_or_else(|| k.to_string()), format!("{k}DocumentNode"), Some(vars))
            }
            Def::Frag { name, .. } => (name.clone(), "FragmentDocumentNode".to_string(), None),
            _ => unreachable!(),
        };
        let (vars_name, vars) = match vars {
            None => (None, None),
            Some(v) if v.is_empty() => (Some("never".to_string()), None),
            Some(v) => {
                let mut m = BTreeMap::new();
                for x in v {
                    let inner = match self.p.schema.get(x.ty.name()).map(|t| &t.kind) {
                        Some(Kind::Input(_)) => {
                            globals.insert(x.ty.name().to_string());
                            C::Name(x.ty.name().to_string())
                        }
                        _ => self.scalar_or_enum(x.ty.name(), &mut globals),
                    };
                    m.insert(
                        x.name.clone(),
                        P { ty: ts(&x.ty, inner), readonly: false, optional: !x.ty.is_nonnull(), doc: vec![], deprecated: false },
                    );
                }
                (Some(format!("{data_name}Variables")), Some(C::Obj(m)))
            }
        };
        let mut imports = BTreeMap::new();
        imports.insert(self.p.opts.docnode_module.clone(), [node.clone()].into());
        if !globals.is_empty() {
            imports.insert(self.p.opts.globals_module.clone(), globals.clone());
        }
        fe.globals = globals;
        fe.msgs = ctx.msgs;
        fe.out = Some(Dts { imports, node, data_name, data, vars_name, vars, free: BTreeSet::new() });
        fe
    }
}

/// The names at most two edits away: insertions, deletions, replacements and swaps of neighbours.
fn near<'x>(name: &str, known: impl Iterator<Item = &'x str>) -> Vec<String> {
    let mut v: Vec<String> = known.filter(|k| edits(name, k) <= 2).map(|k| k.to_string()).collect();
    v.sort();
    v
}

/// The least number of edits that make one word of the other, found by trying them all up to two.
fn edits(a: &str, b: &str) -> usize {
    fn within(a: &[u8], b: &[u8], k: usize) -> bool {
        let same = a.iter().zip(b).take_while(|(x, y)| x == y).count();
        let (a, b) = (&a[same..], &b[same..]);
        if a.is_empty() && b.is_empty() {
            return true;
        }
        if k == 0 {
            return false;
        }
        (!a.is_empty() && within(&a[1..], b, k - 1))
            || (!b.is_empty() && within(a, &b[1..], k - 1))
            || (!a.is_empty() && !b.is_empty() && within(&a[1..], &b[1..], k - 1))
            || swapped(a, b, k)
    }
    // Two neighbours swapped, with the remaining edit possibly between them.
    fn swapped(a: &[u8], b: &[u8], k: usize) -> bool {
        if a.len() >= 2 && b.len() >= 2 && a[0] == b[1] && a[1] == b[0] && within(&a[2..], &b[2..], k - 1) {
            return true;
        }
        k == 2
            && ((a.len() >= 3 && b.len() >= 2 && a[0] == b[1] && a[2] == b[0] && a[3..] == b[2..])
                || (a.len() >= 2 && b.len() >= 3 && a[0] == b[2] && a[1] == b[0] && a[2..] == b[3..]))
    }
    (0..3).find(|k| within(a.as_bytes(), b.as_bytes(), *k)).unwrap_or(3)
}

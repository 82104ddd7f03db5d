//! A whole simulated user project: tree, schema, configuration and command line.
use crate::doc::*;
use crate::rng::Rng;
use crate::schema::{self, Kind, Schema, GT};
use crate::sim::{is_raw, os, raw_char};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum RawKind {
    ParseError,
    Empty,
    /// More than one definition; the second starts at this position.
    Multi(Pos),
    BadUtf8,
    /// Not a `.graphql` file at all.
    Decoy,
    /// Anything: no expectation about it but that the program copes.
    Weird,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Entry {
    Doc(Doc),
    Raw(RawKind, String),
    Dir,
    Link(String),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Opts {
    pub use_custom_scalars: bool,
    pub scalar_prefix: Option<String>,
    pub readonly: bool,
    pub deprecation_warnings: bool,
    pub threads: Option<usize>,
    pub import_prefix: Option<String>,
    pub globals_module: String,
    pub docnode_module: String,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Project {
    pub schema: Schema,
    /// Overrides the rendered schema file.
    pub schema_raw: Option<String>,
    pub schema_missing: bool,
    /// A command line that is not to be understood.
    #[serde(default)]
    pub misspelt: Vec<String>,
    pub schema_path: String,
    /// Directory compiled, relative to the box ("" is the box itself, which is the working directory).
    pub root: String,
    pub args: Vec<String>,
    pub config: Option<(String, String)>,
    pub opts: Opts,
    pub entries: BTreeMap<String, Entry>,
    /// Configuration and schema files where no run should look for them.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub decoys: Vec<(String, String)>,
}

pub fn join(dir: &str, name: &str) -> String {
    if dir.is_empty() {
        name.to_string()
    } else {
        format!("{dir}/{name}")
    }
}
pub fn parent(p: &str) -> &str {
    p.rfind('/').map(|i| &p[..i]).unwrap_or("")
}
pub fn normalise(p: &str) -> String {
    let mut out: Vec<&str> = Vec::new();
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                if out.pop().is_none() {
                    out.push("..");
                }
            }
            x => out.push(x),
        }
    }
    out.join("/")
}
pub fn relative(from_dir: &str, to: &str) -> String {
    let a: Vec<&str> = from_dir.split('/').filter(|s| !s.is_empty()).collect();
    let b: Vec<&str> = to.split('/').collect();
    let mut k = 0;
    while k < a.len() && k + 1 < b.len() && a[k] == b[k] {
        k += 1;
    }
    let ups = a.len() - k;
    if ups == 0 {
        format!("./{}", b[k..].join("/"))
    } else {
        format!("{}{}", "../".repeat(ups), b[k..].join("/"))
    }
}

impl Project {
    /// Resolves import text written in `file` to a box-relative path.
    pub fn resolve(&self, file: &str, text: &str) -> String {
        if let Some(p) = &self.opts.import_prefix {
            if let Some(rest) = text.strip_prefix(p.as_str()) {
                return normalise(&join(&self.root, rest));
            }
        }
        if text.starts_with('.') {
            normalise(&join(parent(file), text))
        } else {
            normalise(&join(&self.root, text))
        }
    }
    pub fn is_graphql(path: &str) -> bool {
        let name = path.rsplit('/').next().unwrap();
        name.rfind('.').map_or(false, |i| i > 0 && &name[i..] == ".graphql")
    }
    pub fn under_root(&self, p: &str) -> bool {
        self.root.is_empty() || p.starts_with(&format!("{}/", self.root))
    }
    /// Every `.graphql` regular file under the root: the files a run must compile.
    pub fn sources(&self) -> Vec<String> {
        self.entries
            .iter()
            .filter(|(p, e)| {
                self.under_root(p) && Self::is_graphql(p) && matches!(e, Entry::Doc(_) | Entry::Raw(..))
            })
            .map(|(p, _)| p.clone())
            .collect()
    }
    pub fn dirs(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        s.insert(String::new());
        s.insert(self.root.clone());
        for (p, e) in &self.entries {
            if matches!(e, Entry::Dir) {
                s.insert(p.clone());
            }
            let mut q = parent(p);
            while !q.is_empty() {
                s.insert(q.to_string());
                q = parent(q);
            }
        }
        let mut q = parent(&self.root);
        while !q.is_empty() {
            s.insert(q.to_string());
            q = parent(q);
        }
        s
    }
    pub fn output_of(src: &str) -> String {
        format!("{src}.d.ts")
    }
    pub fn globals_path(&self) -> String {
        let m = &self.opts.globals_module;
        let m = self.opts.import_prefix.as_deref().and_then(|p| m.strip_prefix(p)).unwrap_or(m);
        let p = normalise(&join(&self.root, m));
        let name = p.rsplit('/').next().unwrap();
        if name.rfind('.').map_or(false, |i| i > 0) {
            p
        } else {
            format!("{p}.ts")
        }
    }
    /// Whether a directory on the way to the globals file does not exist, so that it cannot be written.
    pub fn globals_dir_missing(&self) -> bool {
        let m = &self.opts.globals_module;
        let m = self.opts.import_prefix.as_deref().and_then(|p| m.strip_prefix(p)).unwrap_or(m);
        let dirs = self.dirs();
        let mut at = self.root.clone();
        let comps: Vec<&str> = m.split('/').collect();
        for c in &comps[..comps.len() - 1] {
            at = normalise(&join(&at, c));
            if !dirs.contains(&at) {
                return true;
            }
        }
        false
    }
    pub fn schema_text(&self) -> String {
        self.schema_raw.clone().unwrap_or_else(|| self.schema.to_json())
    }
    pub fn text_of(&mut self, p: &str) -> Option<Vec<u8>> {
        match self.entries.get_mut(p)? {
            Entry::Doc(d) => Some(d.render().into_bytes()),
            Entry::Raw(RawKind::BadUtf8, t) => {
                let mut b = t.clone().into_bytes();
                b.extend([0x23, 0xff, 0xfe, 0x0a]);
                Some(b)
            }
            Entry::Raw(_, t) => Some(t.clone().into_bytes()),
            _ => None,
        }
    }
    /// All regular files of the project (paths relative to the box) with their bytes.
    pub fn files(&mut self) -> BTreeMap<String, Vec<u8>> {
        let mut m = BTreeMap::new();
        for (k, t) in &self.decoys {
            let used = match &self.config {
                Some((c, _)) => c == k,
                None => k == ".qlcrc.json",
            };
            if !used && *k != self.schema_path && !self.entries.contains_key(k) {
                m.insert(k.clone(), t.clone().into_bytes());
            }
        }
        let keys: Vec<String> = self.entries.keys().cloned().collect();
        for k in keys {
            if let Some(t) = self.text_of(&k) {
                m.insert(k, t);
            }
        }
        if !self.schema_missing {
            m.insert(self.schema_path.clone(), self.schema_text().into_bytes());
        }
        if let Some((p, t)) = &self.config {
            m.insert(p.clone(), t.clone().into_bytes());
        }
        m
    }
    pub fn materialise(&mut self, bx: &Path) -> std::io::Result<()> {
        std::fs::create_dir_all(bx)?;
        for d in self.dirs() {
            std::fs::create_dir_all(bx.join(os(&d)))?;
        }
        for (p, t) in self.files() {
            let f = bx.join(os(&p));
            if let Some(d) = f.parent() {
                std::fs::create_dir_all(d)?;
            }
            std::fs::write(f, t)?;
        }
        for (p, e) in &self.entries {
            if let Entry::Link(t) = e {
                let _ = std::os::unix::fs::symlink(os(t), bx.join(os(p)));
            }
        }
        Ok(())
    }
}

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub max_dirs: usize,
    pub max_queries: usize,
    pub max_frags: usize,
    /// Percentage of documents that get a deliberate mistake.
    pub error_pct: u64,
    pub raw_pct: u64,
    pub decoys: bool,
    pub links: bool,
    pub import_cycles: bool,
    pub spread_cycles: bool,
    pub recursive_inputs: bool,
    pub narrow_pct: u64,
    pub vary_config: bool,
    pub wide_pct: u64,
    pub import_faults: bool,
    pub outside_frags: bool,
    pub big_schema: bool,
    pub sel_budget: usize,
    pub malformed_imports: bool,
    /// Names of files and directories that are not UTF-8.
    pub odd_names: bool,
    pub input_deprecations: bool,
    pub docs: bool,
}

impl Default for GenOpts {
    fn default() -> Self {
        GenOpts {
            max_dirs: 6,
            max_queries: 7,
            max_frags: 4,
            error_pct: 0,
            raw_pct: 0,
            decoys: true,
            links: true,
            import_cycles: false,
            spread_cycles: false,
            recursive_inputs: false,
            narrow_pct: 6,
            vary_config: true,
            wide_pct: 0,
            import_faults: false,
            outside_frags: true,
            big_schema: false,
            sel_budget: 14,
            malformed_imports: false,
            odd_names: false,
            input_deprecations: true,
            docs: false,
        }
    }
}

fn rand_dir(r: &mut Rng, dirs: &[String]) -> String {
    r.pick(dirs).clone()
}

fn fresh(r: &mut Rng, dirs: &[String], entries: &BTreeMap<String, Entry>, stem: &str, odd: bool) -> String {
    let mut stems = vec![stem.to_string(), format!("{stem}.part"), format!("my {stem}"), format!(".{stem}"), format!("{stem}-é"), format!("{stem}\"x"), format!("{stem}#1"), format!("{stem}\\n"), format!("{stem}.graphql"), format!("[{stem}]*"), format!("{stem}%20")];
    if odd {
        stems.push(format!("{stem}{}", raw_char([0xff, 0xe9, 0x80][r.below(3)])));
    }
    loop {
        let d = rand_dir(r, dirs);
        let s = if r.pct(75) { stems[0].clone() } else { r.pick(&stems).clone() };
        let p = join(&d, &format!("{s}.graphql"));
        if !entries.contains_key(&p) {
            return p;
        }
        let p = join(&d, &format!("{s}{}.graphql", r.below(1000)));
        if !entries.contains_key(&p) {
            return p;
        }
    }
}

fn import_text(r: &mut Rng, p: &Project, file: &str, target: &str) -> Option<String> {
    let under = p.under_root(target);
    let mut forms = vec![relative(parent(file), target)];
    if under {
        let from_root = if p.root.is_empty() { target.to_string() } else { target[p.root.len() + 1..].to_string() };
        if !from_root.starts_with('.') {
            let clash = p.opts.import_prefix.as_deref().map_or(false, |x| from_root.starts_with(x));
            if !clash {
                forms.push(from_root.clone());
            }
        }
        if let Some(x) = &p.opts.import_prefix {
            forms.push(format!("{x}{from_root}"));
        }
    }
    let mut t = r.pick(&forms).clone();
    if t.starts_with("./") && r.pct(10) {
        t = format!("./{t}"); // another spelling of the same file
    }
    if t.starts_with("./.") && !t.starts_with("./../") && !t.starts_with("././") && r.pct(60) {
        t.replace_range(..2, ""); // ".hidden/f.graphql" starts with a dot, too
    }
    if p.resolve(file, &t) == target {
        Some(t)
    } else {
        Some(forms[0].clone())
    }
}

fn header_noise(r: &mut Rng, h: &mut Vec<HeaderLine>) {
    if r.pct(25) {
        h.push(HeaderLine::Text(["# a comment", "", "   ", "#import nothing", "# import \"./none.graphql\""][r.below(5)].to_string()));
    }
}

/// A type no fragment can be on.
fn strange_type(r: &mut Rng, schema: &Schema) -> String {
    let inputs = r.pct(30);
    let found = schema.types.iter().find(|t| if inputs { matches!(t.kind, Kind::Input(_)) } else { matches!(t.kind, Kind::Enum(_)) });
    match found {
        Some(t) if r.pct(50) => t.name.clone(),
        _ => ["Nowhere", "String"][r.pct(20) as usize].to_string(),
    }
}

/// Makes one deliberate mistake in a document. The reference model works out the consequences.
fn inject(r: &mut Rng, d: &mut Doc, schema: &Schema) {
    fn pick_list<'a>(r: &mut Rng, s: &'a mut Vec<Sel>) -> &'a mut Vec<Sel> {
        let idx: Vec<usize> = s
            .iter()
            .enumerate()
            .filter(|(_, x)| match x {
                Sel::Field { sel, .. } => !sel.is_empty(),
                Sel::Inline { .. } => true,
                _ => false,
            })
            .map(|(i, _)| i)
            .collect();
        if idx.is_empty() || r.pct(40) {
            return s;
        }
        let i = *r.pick(&idx);
        match &mut s[i] {
            Sel::Field { sel, .. } | Sel::Inline { sel, .. } => pick_list(r, sel),
            _ => unreachable!(),
        }
    }
    let p0 = Pos::default();
    let kind = r.below(12);
    if kind == 10 {
        let other = strange_type(r, schema);
        match &mut d.def {
            Def::Frag { on, .. } => {
                *on = other;
                return;
            }
            Def::Op { kind, vars, .. } if schema.get("Mutation").is_none() => {
                *kind = OpKind::Mutation;
                vars.clear();
                return;
            }
            _ => {}
        }
    }
    if kind == 8 || kind == 9 {
        if let Def::Op { vars, .. } = &mut d.def {
            let ty = if kind == 8 {
                GT::N("NoSuchType".into())
            } else {
                GT::L(Box::new(GT::L(Box::new(GT::N("String".into())))))
            };
            vars.push(VarDef { name: "bad".into(), ty, default: None, pos: p0 });
            return;
        }
    }
    if kind == 7 {
        if let Def::Op { sel, .. } = &d.def {
            d.def = Def::Anon { sel: sel.clone(), pos: p0 };
            return;
        }
    }
    let list = pick_list(r, d.sel_mut());
    match kind {
        0 | 1 => {
            let i = r.below(list.len() + 1);
            list.insert(i, Sel::Field { alias: None, name: "nmae".into(), args: None, sel: vec![], pos: p0 });
        }
        2 => {
            for s in list.iter_mut() {
                if let Sel::Field { sel, .. } = s {
                    if !sel.is_empty() {
                        sel.clear();
                        return;
                    }
                }
            }
            list.push(Sel::Spread { name: "NotThere".into(), pos: p0 });
        }
        3 => {
            for s in list.iter_mut() {
                if let Sel::Field { sel, name, .. } = s {
                    if sel.is_empty() && name != "__typename" {
                        sel.push(Sel::Field { alias: None, name: "id".into(), args: None, sel: vec![], pos: p0 });
                        return;
                    }
                }
            }
            list.push(Sel::Spread { name: "NotThere".into(), pos: p0 });
        }
        4 => list.push(Sel::Spread { name: "NotThere".into(), pos: p0 }),
        11 => {
            let inner = vec![Sel::Field { alias: None, name: "__typename".into(), args: None, sel: vec![], pos: p0 }];
            list.push(Sel::Field { alias: r.pct(50).then(|| "kind".into()), name: "__typename".into(), args: None, sel: inner, pos: p0 });
        }
        5 => {
            let inner = vec![Sel::Field { alias: None, name: "__typename".into(), args: None, sel: vec![], pos: p0 }];
            list.push(Sel::Inline { on: None, sel: inner, pos: p0 });
        }
        _ => {
            let inner = vec![Sel::Field { alias: None, name: "__typename".into(), args: None, sel: vec![], pos: p0 }];
            let on = strange_type(r, schema);
            list.push(Sel::Inline { on: Some(on), sel: inner, pos: p0 });
        }
    }
}

pub fn raw_bad(r: &mut Rng) -> (RawKind, String) {
    match r.below(6) {
        0 => (RawKind::ParseError, "query Broken { a ".into()),
        1 => (RawKind::ParseError, "qwery Broken { a }\n".into()),
        2 => (RawKind::Empty, ["", "# only a comment\n", "\n\n"][r.below(3)].into()),
        3 => (RawKind::BadUtf8, "query U { __typename }\n".into()),
        _ => (
            RawKind::Multi(Pos { line: 2, col: 1 }),
            "query One { __typename }\nfragment Two on Query { __typename }\n".into(),
        ),
    }
}

pub fn generate(r: &mut Rng, o: &GenOpts) -> Project {
    let schema = schema::generate(r, &schema::SchemaOpts { recursive_inputs: o.recursive_inputs, big: o.big_schema, input_deprecations: o.input_deprecations, docs: o.docs });
    let root = if r.pct(60) { String::new() } else { ["src", "app/src", "web"][r.below(3)].to_string() };
    let cfg = o.vary_config;
    let mut opts = Opts {
        use_custom_scalars: cfg && r.pct(30),
        scalar_prefix: None,
        readonly: !(cfg && r.pct(30)),
        deprecation_warnings: cfg && r.pct(40),
        threads: Some(r.range(1, 6)),
        import_prefix: if cfg && r.pct(40) { Some(["@/", "~", "root:", "a/", "b", "@"][r.below(6)].to_string()) } else { None },
        globals_module: "graphql-globals".into(),
        docnode_module: "@notarize/qlc-cli/typed-documentnode".into(),
    };
    if opts.use_custom_scalars && r.pct(50) {
        opts.scalar_prefix = Some(["Gql", "Gql", "_", "$", ""][r.below(5)].into());
    }
    let mut entries: BTreeMap<String, Entry> = BTreeMap::new();
    if cfg && r.pct(30) {
        let dir = r.pct(40);
        if dir {
            entries.insert(join(&root, "types"), Entry::Dir);
        }
        let m = match (dir, r.below(4)) {
            (true, 0) => "types/globals.ts",
            (true, 1) => "types/../types/api.schema",
            (true, 2) if r.pct(50) => "types/none/globals",
            (false, 0) if r.pct(30) => "none/globals",
            (false, 1) if r.pct(30) => "none/../globals",
            (true, _) => "types/globals",
            (false, 0) => "globals.d.ts",
            (false, 1) => "./.globals",
            (false, 2) => "api.types",
            (false, _) => "my-globals",
        };
        opts.globals_module = match (&opts.import_prefix, r.pct(50)) {
            (Some(p), true) if !p.contains('/') && !m.contains('/') && r.pct(35) => format!("{p}{p}{m}"),
            (Some(p), true) => format!("{p}{m}"),
            (Some(p), false) if !p.contains('/') && !m.contains('/') && r.pct(25) => format!("my{p}{m}"),
            _ => m.into(),
        };
    }
    if cfg && r.pct(20) {
        opts.docnode_module = ["documents/node", "@docs/typed.node", "../up/node"][r.below(3)].into();
    }
    if cfg && r.pct(10) {
        opts.threads = Some(r.range(7, 16));
    }

    // Directories.
    let names = [
        "a", "b", "node_modules", ".hidden", "with space", "x.graphql", "deep", "ünï", ".git", "target", "dist", "build", "vendor", "__generated__", "__tests__", "fragments", ".cache", "tmp", "dir.graphql.d.ts",
    ];
    let mut dirs = vec![root.clone()];
    for _ in 0..r.below(o.max_dirs + 1) {
        let d = rand_dir(r, &dirs);
        if d.split('/').count() > 5 {
            continue;
        }
        let mut n = join(&d, names[if r.pct(60) { r.below(2) } else { r.below(names.len()) }]);
        if let (Some(x), true) = (&opts.import_prefix, r.pct(15)) {
            n = join(&d, &format!("{}{}", ["", "x"][r.below(2)], x.trim_end_matches('/')));
        }
        if o.odd_names && r.pct(12) {
            n.push(raw_char([0xff, 0xc3, 0xa0][r.below(3)]));
        }
        if !dirs.contains(&n) {
            dirs.push(n);
        }
    }
    for d in &dirs {
        if !d.is_empty() {
            entries.insert(d.clone(), Entry::Dir);
        }
    }

    let mut p = Project {
        schema,
        schema_raw: None,
        schema_missing: false,
        misspelt: Vec::new(),
        schema_path: join(&root, "schema.json"),
        root,
        args: vec![],
        config: None,
        decoys: vec![],
        opts,
        entries,
    };

    // Fragments: fragment i may use fragments j < i (a DAG), unless spread cycles are wanted.
    let composites: Vec<String> = p
        .schema
        .types
        .iter()
        .filter(|t| p.schema.is_composite(&t.name) && t.name != "Mutation")
        .map(|t| t.name.clone())
        .collect();
    let nf = r.below(o.max_frags + 1);
    // Import lines are text, so what they name has a name that is text.
    let plain: Vec<String> = dirs.iter().filter(|d| !d.chars().any(is_raw)).cloned().collect();
    let mut frags: Vec<(FragRef, String)> = Vec::new();
    for i in 0..nf {
        let on = r.pick(&composites).clone();
        let outside = o.outside_frags && !p.root.is_empty() && r.pct(20);
        let path = if outside { format!("shared/f{i}.graphql") } else { fresh(r, &plain, &p.entries, &format!("f{i}"), false) };
        frags.push((FragRef { name: format!("Frag{i}"), on }, path.clone()));
        p.entries.insert(path, Entry::Dir); // reserved
    }
    let mut deps: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); nf]; // transitive imports of each fragment
    let live = |p: &Project, t: &str| p.schema.possible(t).unwrap();
    for i in 0..nf {
        let avail: Vec<FragRef> = (0..i).map(|j| frags[j].0.clone()).collect();
        let schema = p.schema.clone();
        let mut g = SelGen { schema: &schema, frags: &avail, used: vec![], narrow_pct: o.narrow_pct, spread_pct: 25 };
        let mut budget = r.range(2, o.sel_budget);
        let on = frags[i].0.on.clone();
        let mut sel = g.gen(r, &on, &live(&p, &on), 3, &mut budget);
        let used: BTreeSet<usize> = g.used.iter().map(|u| avail.iter().position(|f| &f.name == u).unwrap()).collect();
        let mut want: BTreeSet<usize> = used.clone();
        if r.pct(15) && i > 0 {
            want.insert(r.below(i));
        }
        if o.import_cycles && r.pct(60) {
            want.insert(r.below(nf));
        }
        if o.spread_cycles && r.pct(60) {
            let j = r.below(nf);
            want.insert(j);
            sel.push(Sel::Spread { name: frags[j].0.name.clone(), pos: Pos::default() });
        }
        let mut header = Vec::new();
        let mut got: BTreeSet<usize> = BTreeSet::new();
        for j in want.iter().rev() {
            if j < &i && got.contains(j) && r.pct(50) {
                continue; // reached through another import
            }
            header_noise(r, &mut header);
            if let Some(t) = import_text(r, &p, &frags[i].1, &frags[*j].1) {
                let suffix = if r.pct(30) { ";" } else { "" };
                header.push(HeaderLine::Import(Import { text: t, suffix: suffix.into(), closed: true, line: 0 }));
                got.insert(*j);
                if *j < i {
                    got.extend(deps[*j].iter().cloned());
                }
            }
        }
        deps[i] = got;
        if o.import_faults && p.under_root(&frags[i].1) && r.pct(20) {
            let gone = ["./not_here.graphql", "not_here.graphql", "."][r.below(3)];
            let at = r.below(header.len() + 1);
            header.insert(at, HeaderLine::Import(Import { text: gone.into(), suffix: "".into(), closed: true, line: 0 }));
        }
        let mut d = Doc {
            header,
            def: Def::Frag { name: frags[i].0.name.clone(), on, sel, pos: Pos::default() },
            trailer: vec![],
            crlf: r.pct(6),
            cr: r.pct(2),
            bom: r.pct(4),
            compact: r.pct(25),
            style: if r.pct(20) { r.next() | 1 } else { 0 },
        };
        let in_tree = p.under_root(&frags[i].1);
        if in_tree && r.pct(o.error_pct / 2) {
            inject(r, &mut d, &p.schema);
        }
        d.render();
        p.entries.insert(frags[i].1.clone(), Entry::Doc(d));
    }

    // Operations.
    let has_mut = p.schema.get("Mutation").is_some();
    let nq = r.range(1, o.max_queries);
    for i in 0..nq {
        let path = fresh(r, &dirs, &p.entries, &format!("q{i}"), o.odd_names);
        if r.pct(o.raw_pct) {
            let (k, t) = raw_bad(r);
            p.entries.insert(path, Entry::Raw(k, t));
            continue;
        }
        let x = r.below(10);
        let (kind, ty) = if x < 7 {
            (OpKind::Query, "Query")
        } else if x < 9 && (has_mut || r.pct(o.error_pct / 4)) {
            (OpKind::Mutation, "Mutation")
        } else {
            (OpKind::Subscription, "Query")
        };
        let avail: Vec<FragRef> = frags.iter().map(|f| f.0.clone()).collect();
        let schema = p.schema.clone();
        let mut g = SelGen { schema: &schema, frags: &avail, used: vec![], narrow_pct: o.narrow_pct, spread_pct: 22 };
        let mut budget = r.range(2, o.sel_budget);
        let sel = if schema.get(ty).is_some() {
            g.gen(r, ty, &[ty.to_string()], 4, &mut budget)
        } else {
            vec![Sel::Field { alias: None, name: "__typename".into(), args: None, sel: vec![], pos: Pos::default() }]
        };
        let mut want: BTreeSet<usize> = g.used.iter().map(|u| avail.iter().position(|f| &f.name == u).unwrap()).collect();
        if nf > 0 && r.pct(15) {
            want.insert(r.below(nf));
        }
        let mut header = Vec::new();
        let mut got: BTreeSet<usize> = BTreeSet::new();
        for j in want.iter().rev() {
            if got.contains(j) && r.pct(50) {
                continue;
            }
            header_noise(r, &mut header);
            if let Some(t) = import_text(r, &p, &path, &frags[*j].1) {
                let suffix = if r.pct(30) { ";" } else { "" };
                header.push(HeaderLine::Import(Import { text: t, suffix: suffix.into(), closed: true, line: 0 }));
                got.insert(*j);
                got.extend(deps[*j].iter().cloned());
            }
        }
        if o.import_faults && r.pct(45) {
            // A bad import: missing file, a directory, or an operation document.
            let x = r.below(3);
            let target = if x == 0 {
                join(&rand_dir(r, &plain), "not_here.graphql")
            } else if x == 1 {
                let ds: Vec<String> = plain.iter().filter(|d| !d.is_empty() && **d != p.root).cloned().collect();
                if ds.is_empty() { join(&p.root, "gone.graphql") } else { r.pick(&ds).clone() }
            } else {
                let ops: Vec<String> = p
                    .entries
                    .iter()
                    .filter(|(k, e)| matches!(e, Entry::Doc(Doc { def: Def::Op { .. }, .. })) && !k.chars().any(is_raw))
                    .map(|(k, _)| k.clone())
                    .collect();
                if ops.is_empty() { join(&p.root, "gone.graphql") } else { r.pick(&ops).clone() }
            };
            let t = relative(parent(&path), &target);
            let imp = HeaderLine::Import(Import { text: t, suffix: "".into(), closed: true, line: 0 });
            let i = r.below(header.len() + 1);
            header.insert(i, imp);
        }
        if o.malformed_imports && r.pct(50) {
            let t = ["./f0.graphql", "", ".", "..", "x"][r.below(5)];
            let i = r.below(header.len() + 1);
            header.insert(i, HeaderLine::Import(Import { text: t.into(), suffix: "".into(), closed: r.pct(40), line: 0 }));
        }
        header_noise(r, &mut header);
        if r.pct(3) {
            // What matters comes after more than one read's worth of text.
            let n = [150, 1200][r.below(2)];
            header.splice(0..0, (0..n).map(|k| HeaderLine::Text(format!("# licence {k} ........................................................"))));
        }
        let name = if r.pct(8) { None } else { Some(format!("Op{i}{}", ["Query", "Things", "X", "Variables"][r.below(4)])) };
        let vars = if name.is_some() { gen_vars(r, &p.schema, 3) } else { vec![] };
        let mut d = Doc {
            header,
            def: Def::Op { kind, name, vars, sel },
            trailer: if r.pct(10) { vec!["#import \"./late.graphql\"".into(), "# end".into()] } else { vec![] },
            crlf: r.pct(6),
            cr: r.pct(2),
            bom: r.pct(4),
            compact: r.pct(25),
            style: if r.pct(20) { r.next() | 1 } else { 0 },
        };
        if r.pct(4) {
            // More than one read's worth of text.
            for k in 0..if r.pct(15) { 2000 } else { r.range(50, 400) } {
                d.trailer.push(format!("# padding {k} ...........................................................").to_string());
            }
        }
        if r.pct(o.error_pct) {
            inject(r, &mut d, &p.schema);
            while r.pct(25) {
                inject(r, &mut d, &p.schema);
            }
        }
        d.render();
        p.entries.insert(path, Entry::Doc(d));
    }

    // A wide directory now and then: many small documents at once.
    if r.pct(o.wide_pct) {
        let d = rand_dir(r, &dirs);
        for i in 0..r.range(20, 150) {
            let mut doc = Doc {
                header: vec![],
                def: Def::Op {
                    kind: OpKind::Query,
                    name: Some(format!("W{i}")),
                    vars: vec![],
                    sel: vec![Sel::Field { alias: None, name: "__typename".into(), args: None, sel: vec![], pos: Pos::default() }],
                },
                trailer: vec![],
                crlf: false,
                cr: false,
                bom: false,
                compact: true,
                style: 0,
            };
            doc.render();
            p.entries.insert(join(&d, &format!("w{i}.graphql")), Entry::Doc(doc));
        }
    }

    // Documents know nothing of one another: the same name in two of them, or file names that differ in case only.
    let ops: Vec<String> = p.entries.iter().filter(|(_, e)| matches!(e, Entry::Doc(Doc { def: Def::Op { name: Some(_), .. }, .. }))).map(|(k, _)| k.clone()).collect();
    if !ops.is_empty() && r.pct(8) {
        let from = r.pick(&ops).clone();
        let to = r.pick(&ops).clone();
        let called = match &p.entries[&from] {
            Entry::Doc(Doc { def: Def::Op { name, .. }, .. }) if nf == 0 || r.pct(70) => name.clone(),
            _ => Some(format!("Frag{}", r.below(nf))),
        };
        if let Some(Entry::Doc(d)) = p.entries.get_mut(&to) {
            if let Def::Op { name, .. } = &mut d.def {
                *name = called;
            }
            d.render();
        }
    }
    if !ops.is_empty() && r.pct(8) {
        let of = r.pick(&ops).clone();
        let stem = of.rsplit('/').next().unwrap().trim_end_matches(".graphql").to_string();
        if stem.is_ascii() {
            let k = join(parent(&of), &format!("{}.graphql", stem.to_uppercase()));
            let twin = p.entries[&of].clone();
            p.entries.entry(k).or_insert(twin);
        }
    }
    if o.decoys {
        for _ in 0..r.below(4) {
            let d = rand_dir(r, &dirs);
            let n = ["readme.md", "q.graphql.bak", "schema.gql", "graphql", "x.graphqls", "QUERY.txt", "Q.GRAPHQL", "q.graphql~", ".graphql", "old.graphql.d.ts", "q.graphql.json"]
                [r.below(11)];
            let t = ["query Decoy { nope }\n", "query Decoy { __typename }\n"][r.below(2)];
            p.entries.entry(join(&d, n)).or_insert(Entry::Raw(RawKind::Decoy, t.into()));
        }
    }
    if o.decoys && !p.root.is_empty() && r.pct(15) {
        // Only the working directory's configuration counts.
        let t = ["{\"globalTypesModuleName\": \"elsewhere\", \"disableReadonlyTypes\": true, \"schemaFile\": \"none.json\"}", "not even JSON"][r.below(2)];
        let k = join(&p.root, ".qlcrc.json");
        p.entries.entry(k).or_insert(Entry::Raw(RawKind::Decoy, t.into()));
    }
    if o.links && r.pct(30) {
        let d = rand_dir(r, &dirs);
        let x = r.below(6);
        let docs: Vec<String> = p.entries.iter().filter(|(_, e)| matches!(e, Entry::Doc(_) | Entry::Raw(..))).map(|(k, _)| k.clone()).collect();
        let (n, t) = match x {
            0 => ("loop", ".".to_string()),
            1 => ("dangling.graphql", "nothing".to_string()),
            2 => ("up", "..".to_string()),
            _ if docs.is_empty() => ("more", ".".to_string()),
            // No regular file, although what it leads to is one.
            _ => ("linked.graphql", relative(&d, r.pick(&docs))),
        };
        p.entries.entry(join(&d, n)).or_insert(Entry::Link(t));
    }
    command_line(r, &mut p, cfg);
    p
}

/// Expresses the chosen options through the command line, the configuration file or both.
/// A schema that fits no document.
const DECOY_SCHEMA: &str = r#"{"data":{"__schema":{"queryType":{"name":"Query"},"mutationType":null,"subscriptionType":null,"types":[{"kind":"OBJECT","name":"Query","description":null,"fields":[],"inputFields":null,"interfaces":[],"enumValues":null,"possibleTypes":null}],"directives":[]}}}"#;

/// A configuration that would make a difference.
fn decoy_config(r: &mut Rng, o: &Opts) -> String {
    if r.pct(30) {
        return "{\"numThreads\": \"many\"".into();
    }
    serde_json::json!({
        "disableReadonlyTypes": o.readonly,
        "useCustomScalars": true,
        "customScalarPrefix": "Decoy",
        "showDeprecationWarnings": true,
        "schemaFile": "nowhere.json",
        "rootDirImportPrefix": "decoy/",
        "globalTypesModuleName": "decoy-globals",
        "typedGraphqlDocumentnodeModuleName": "decoy/node",
    })
    .to_string()
}

pub fn command_line(r: &mut Rng, p: &mut Project, vary: bool) {
    let mut conf = serde_json::Map::new();
    let mut args: Vec<String> = Vec::new();
    p.decoys.clear();
    let use_conf = vary && r.pct(45);
    let via = |r: &mut Rng| use_conf && r.pct(60);
    let o = p.opts.clone();
    match (p.root.is_empty(), r.below(3)) {
        (true, 0) => {}
        (true, 1) => args.push(".".into()),
        (true, _) => args.push("$BOX".into()),
        (false, 0) => args.push(format!("./{}/", p.root)),
        (false, 1) => args.push(format!("$BOX/{}", p.root)),
        (false, _) => args.push(p.root.clone()),
    }
    let conf_path = if !use_conf || r.pct(60) { ".qlcrc.json".to_string() } else { "conf/my.json".to_string() };
    if o.use_custom_scalars {
        if via(r) {
            conf.insert("useCustomScalars".into(), true.into());
            if let Some(s) = &o.scalar_prefix {
                conf.insert("customScalarPrefix".into(), s.clone().into());
            }
        } else {
            args.push("--use-custom-scalars".into());
            if use_conf && r.pct(30) {
                // One of the two here, the other there.
                if let Some(s) = &o.scalar_prefix {
                    conf.insert("customScalarPrefix".into(), s.clone().into());
                }
            } else if let Some(s) = &o.scalar_prefix {
                args.push("--custom-scalar-prefix".into());
                args.push(s.clone());
                if use_conf && r.pct(30) {
                    conf.insert("customScalarPrefix".into(), "Overridden".into());
                }
            }
        }
    } else if use_conf && r.pct(15) {
        // A prefix for what is not used.
        conf.insert("customScalarPrefix".into(), "Unused".into());
    }
    if !o.readonly {
        if via(r) {
            conf.insert("disableReadonlyTypes".into(), true.into());
        } else {
            args.push("--disable-readonly-types".into());
        }
    }
    if o.deprecation_warnings {
        if via(r) {
            conf.insert("showDeprecationWarnings".into(), true.into());
        } else {
            args.push("--show-deprecation-warnings".into());
        }
    }
    // A flag given on the command line wins; one given nowhere else may be spelt out as off.
    for k in ["useCustomScalars", "disableReadonlyTypes", "showDeprecationWarnings"] {
        if use_conf && r.pct(30) {
            conf.entry(k).or_insert(false.into());
        }
    }
    if let Some(n) = o.threads {
        if via(r) {
            conf.insert("numThreads".into(), n.into());
        } else {
            args.push("--num-threads".into());
            args.push(n.to_string());
            if use_conf && r.pct(30) {
                conf.insert("numThreads".into(), 3.into());
            }
        }
    }
    let mut string = |r: &mut Rng, args: &mut Vec<String>, key: &str, flag: &str, v: &str| {
        if use_conf && r.pct(60) {
            conf.insert(key.into(), v.into());
        } else {
            args.push(flag.into());
            args.push(v.into());
            if use_conf && r.pct(30) {
                conf.insert(key.into(), "overridden".into());
            }
        }
    };
    if let Some(x) = &o.import_prefix {
        string(r, &mut args, "rootDirImportPrefix", "--root-dir-import-prefix", x);
    }
    if o.globals_module != "graphql-globals" {
        string(r, &mut args, "globalTypesModuleName", "--global-types-module-name", &o.globals_module);
    }
    if o.docnode_module != "@notarize/qlc-cli/typed-documentnode" {
        string(
            r,
            &mut args,
            "typedGraphqlDocumentnodeModuleName",
            "--typed-graphql-documentnode-module-name",
            &o.docnode_module,
        );
    }
    let default_schema = join(&p.root, "schema.json");
    if p.schema_path != default_schema || (vary && r.pct(30)) {
        if p.schema_path == default_schema {
            let n = if parent(&conf_path).is_empty() { 2 } else { 4 };
            p.schema_path = ["api/introspection.json", "schema.json", "conf/schema.json", "conf/api/server.json"][r.below(n)].to_string();
        }
        if use_conf && r.pct(50) {
            // Relative to the configuration file.
            let rel = relative(parent(&conf_path), &p.schema_path);
            if vary && !parent(&conf_path).is_empty() && !rel.starts_with("..") && r.pct(50) {
                p.decoys.push((normalise(&rel), DECOY_SCHEMA.into()));
            }
            let v = if vary && r.pct(15) { format!("/sim/{}", p.schema_path) } else { rel };
            conf.insert("schemaFile".into(), v.into());
        } else {
            args.push("--schema-path".into());
            args.push(p.schema_path.clone());
            if use_conf && vary && r.pct(40) {
                conf.insert("schemaFile".into(), ["nowhere.json", "other-schema.json"][r.below(2)].into());
                p.decoys.push((join(parent(&conf_path), "other-schema.json"), DECOY_SCHEMA.into()));
            }
        }
        if vary && r.pct(40) {
            p.decoys.push((default_schema, DECOY_SCHEMA.into()));
        }
    }
    if r.pct(50) {
        args.push("--no-color".into());
    }
    if use_conf {
        if conf_path != ".qlcrc.json" {
            args.push("--config-file".into());
            args.push(conf_path.clone());
        }
        let text = serde_json::to_string_pretty(&conf).unwrap();
        if vary && conf_path != ".qlcrc.json" && r.pct(50) {
            // Where the configuration file of runs without --config-file is.
            let other = decoy_config(r, &o);
            p.decoys.push((".qlcrc.json".into(), other));
        }
        p.config = Some((conf_path, text));
    }
    if vary && !p.root.is_empty() && r.pct(20) {
        let other = decoy_config(r, &o);
        p.decoys.push((join(&p.root, ".qlcrc.json"), other));
    }
    p.args = if r.pct(40) { respell(r, args) } else { args };
}

/// The same command line in other words: short options, values after an equals sign, absolute paths, another order.
fn respell(r: &mut Rng, args: Vec<String>) -> Vec<String> {
    let mut items: Vec<Vec<String>> = Vec::new();
    let mut it = args.into_iter();
    while let Some(a) = it.next() {
        let switch = ["--use-custom-scalars", "--disable-readonly-types", "--show-deprecation-warnings", "--no-color"].contains(&a.as_str());
        if !a.starts_with("--") || switch {
            items.push(vec![a]);
            continue;
        }
        let mut v = it.next().unwrap();
        let short = match a.as_str() {
            "--schema-path" => Some("-s"),
            "--config-file" => Some("-c"),
            _ => None,
        };
        if short.is_some() && !v.starts_with(['/', '$']) {
            match r.below(5) {
                0 => v = format!("$BOX/{v}"),
                1 => v = format!("./{v}"),
                _ => {}
            }
        }
        let x = r.below(5);
        items.push(match short {
            _ if v.is_empty() || a == "--num-threads" => vec![a, v],
            Some(s) if x == 0 => vec![s.into(), v],
            Some(s) if x == 1 && !v.starts_with('=') => vec![format!("{s}{v}")],
            _ if x < 4 => vec![format!("{a}={v}")],
            _ => vec![a, v],
        });
    }
    if r.pct(60) {
        r.shuffle(&mut items);
    }
    items.concat()
}

//! Schema AST, its seeded generator and its rendering as introspection JSON.
use crate::rng::Rng;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum GT {
    N(String),
    L(Box<GT>),
    NN(Box<GT>),
}
impl GT {
    pub fn name(&self) -> &str {
        match self {
            GT::N(n) => n,
            GT::L(t) | GT::NN(t) => t.name(),
        }
    }
    pub fn is_nonnull(&self) -> bool {
        matches!(self, GT::NN(_))
    }
    pub fn graphql(&self) -> String {
        match self {
            GT::N(n) => n.clone(),
            GT::L(t) => format!("[{}]", t.graphql()),
            GT::NN(t) => format!("{}!", t.graphql()),
        }
    }
    pub fn list_depth(&self) -> usize {
        match self {
            GT::N(_) => 0,
            GT::L(t) => 1 + t.list_depth(),
            GT::NN(t) => t.list_depth(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FieldDef {
    pub name: String,
    pub ty: GT,
    pub desc: Option<String>,
    pub deprecated: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    Object(Vec<FieldDef>),
    Interface(Vec<FieldDef>, Vec<String>),
    Union(Vec<String>),
    Enum(Vec<String>),
    Input(Vec<FieldDef>),
    Scalar,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct TypeDef {
    pub name: String,
    pub desc: Option<String>,
    pub kind: Kind,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Schema {
    pub types: Vec<TypeDef>,
}

pub const BUILTIN: [&str; 5] = ["String", "Int", "Float", "Boolean", "ID"];

impl Schema {
    pub fn get(&self, name: &str) -> Option<&TypeDef> {
        self.types.iter().find(|t| t.name == name)
    }
    pub fn fields(&self, name: &str) -> Option<&[FieldDef]> {
        match &self.get(name)?.kind {
            Kind::Object(f) | Kind::Interface(f, _) | Kind::Input(f) => Some(f),
            Kind::Union(_) => Some(&[]),
            _ => None,
        }
    }
    /// Concrete object types a value of this type may have.
    pub fn possible(&self, name: &str) -> Option<Vec<String>> {
        match &self.get(name)?.kind {
            Kind::Object(_) => Some(vec![name.to_string()]),
            Kind::Interface(_, p) | Kind::Union(p) => Some(p.clone()),
            _ => None,
        }
    }
    pub fn is_composite(&self, name: &str) -> bool {
        self.possible(name).is_some()
    }
    /// The alias a field needs so as not to conflict with fields of its name in other types.
    pub fn alias(&self, f: &FieldDef) -> Option<String> {
        let first = self
            .types
            .iter()
            .filter(|t| matches!(t.kind, Kind::Object(_) | Kind::Interface(..)))
            .filter_map(|t| Some((&t.name, self.fields(&t.name)?.iter().find(|g| g.name == f.name)?)))
            .min_by_key(|x| x.0)?;
        let (a, b) = (shape(self, first.1), shape(self, f));
        if a == b {
            None
        } else {
            Some(format!("{}V{:08x}", f.name, crate::rng::hash_bytes(b.as_bytes()) as u32))
        }
    }
    fn kind_name(&self, name: &str) -> &'static str {
        match self.get(name).map(|t| &t.kind) {
            Some(Kind::Object(_)) => "OBJECT",
            Some(Kind::Interface(..)) => "INTERFACE",
            Some(Kind::Union(_)) => "UNION",
            Some(Kind::Enum(_)) => "ENUM",
            Some(Kind::Input(_)) => "INPUT_OBJECT",
            Some(Kind::Scalar) | None => "SCALAR",
        }
    }
    fn ty_json(&self, t: &GT) -> Value {
        match t {
            GT::N(n) => json!({"kind": self.kind_name(n), "name": n, "ofType": null}),
            GT::L(i) => json!({"kind": "LIST", "name": null, "ofType": self.ty_json(i)}),
            GT::NN(i) => json!({"kind": "NON_NULL", "name": null, "ofType": self.ty_json(i)}),
        }
    }
    fn fields_json(&self, fs: &[FieldDef], input: bool) -> Value {
        fs.iter()
            .map(|f| {
                let mut v = json!({"name": f.name, "description": f.desc, "type": self.ty_json(&f.ty)});
                if input {
                    v["defaultValue"] = Value::Null;
                    // Servers of older versions of the specification have no such property.
                    if f.deprecated || f.name.len() % 2 == 0 {
                        v["isDeprecated"] = json!(f.deprecated);
                        v["deprecationReason"] = if f.deprecated { json!("old") } else { Value::Null };
                    }
                } else {
                    v["args"] = json!([]);
                    v["isDeprecated"] = json!(f.deprecated);
                    v["deprecationReason"] = if f.deprecated { json!("old") } else { Value::Null };
                }
                v
            })
            .collect()
    }
    pub fn to_json(&self) -> String {
        let refs = |ns: &[String]| -> Value {
            ns.iter()
                .map(|n| json!({"kind": "OBJECT", "name": n, "ofType": null}))
                .collect()
        };
        let types: Vec<Value> = self
            .types
            .iter()
            .map(|t| {
                let mut v = json!({
                    "kind": self.kind_name(&t.name), "name": t.name, "description": t.desc,
                    "fields": null, "inputFields": null, "interfaces": null,
                    "enumValues": null, "possibleTypes": null
                });
                match &t.kind {
                    Kind::Object(f) => {
                        v["fields"] = self.fields_json(f, false);
                        v["interfaces"] = json!([]);
                    }
                    Kind::Interface(f, p) => {
                        v["fields"] = self.fields_json(f, false);
                        v["possibleTypes"] = refs(p);
                    }
                    Kind::Union(p) => v["possibleTypes"] = refs(p),
                    Kind::Enum(vs) => {
                        v["enumValues"] = vs
                            .iter()
                            .map(|x| {
                                let old = x.to_lowercase().contains("old");
                                let d = if x.len() % 2 == 0 { Some(format!("What {x} means */ here")) } else { None };
                                json!({"name": x, "description": d, "isDeprecated": old, "deprecationReason": if old { Some("no longer used") } else { None }})
                            })
                            .collect()
                    }
                    Kind::Input(f) => v["inputFields"] = self.fields_json(f, true),
                    Kind::Scalar => {}
                }
                v
            })
            .chain(if self.types.len() % 4 == 0 { introspection_types() } else { vec![] })
            .collect();
        let full = json!({"data": {"__schema": {
            "queryType": {"name": "Query"}, "mutationType": {"name": "Mutation"}, "subscriptionType": null,
            "types": types, "directives": []}}});
        serde_json::to_string_pretty(&full).unwrap()
    }
}

/// The types every server has besides its own (some of them, and some of their fields).
fn introspection_types() -> Vec<Value> {
    let named = |k: &str, n: &str| json!({"kind": k, "name": n, "ofType": null});
    let nn = |t: Value| json!({"kind": "NON_NULL", "name": null, "ofType": t});
    let field = |n: &str, t: Value| json!({"name": n, "description": null, "args": [], "type": t, "isDeprecated": false, "deprecationReason": null});
    let ty = |k: &str, n: &str| json!({"kind": k, "name": n, "description": "About the schema", "fields": null, "inputFields": null, "interfaces": null, "enumValues": null, "possibleTypes": null});
    let mut t = ty("OBJECT", "__Type");
    t["interfaces"] = json!([]);
    t["fields"] = json!([field("kind", nn(named("ENUM", "__TypeKind"))), field("name", named("SCALAR", "String")), field("ofType", named("OBJECT", "__Type"))]);
    let mut k = ty("ENUM", "__TypeKind");
    k["enumValues"] = json!([{"name": "SCALAR", "description": null, "isDeprecated": false, "deprecationReason": null}, {"name": "OBJECT", "description": null, "isDeprecated": false, "deprecationReason": null}]);
    vec![t, k]
}

const POOL: [&str; 22] = [
    "id", "name", "title", "count", "score", "flag", "role", "author", "items", "parent", "child", "meta", "node",
    "search", "when", "tags", "matrix", "owner", "state", "amount", "peers", "label",
];

fn wrap(r: &mut Rng, t: GT, max_depth: usize) -> GT {
    let mut t = t;
    if r.pct(45) {
        t = GT::NN(Box::new(t));
    }
    let mut d = 0;
    while d < max_depth && r.pct(if d == 0 { 28 } else { 35 }) {
        t = GT::L(Box::new(t));
        if r.pct(45) {
            t = GT::NN(Box::new(t));
        }
        d += 1;
    }
    t
}

fn desc(r: &mut Rng) -> Option<String> {
    match r.below(16) {
        0 | 1 => Some("Simple words".into()),
        2 => Some("First line\n\n  second line  \nthird".into()),
        3 => Some("with `code` and \"quotes\"".into()),
        4 => Some(
            [
                "ends */ here /* and **// there",
                "a \\ back\\n slash ${x}",
                "",
                "windows\r\nlines\r\n",
                "ünï – 漢字 \u{1f600}",
                "\ttabs\tand * stars * // slashes",
            ][r.below(6)]
                .into(),
        ),
        _ => None,
    }
}

/// What must agree between fields of equal response name.
fn shape(s: &Schema, f: &FieldDef) -> String {
    fn w(t: &GT, leaf: &str) -> String {
        match t {
            GT::N(_) => leaf.to_string(),
            GT::L(t) => format!("[{}]", w(t, leaf)),
            GT::NN(t) => format!("{}!", w(t, leaf)),
        }
    }
    w(&f.ty, if s.is_composite(f.ty.name()) { "{}" } else { f.ty.name() })
}

fn rename(t: &GT, n: &str) -> GT {
    match t {
        GT::N(_) => GT::N(n.to_string()),
        GT::L(t) => GT::L(Box::new(rename(t, n))),
        GT::NN(t) => GT::NN(Box::new(rename(t, n))),
    }
}

pub struct SchemaOpts {
    pub recursive_inputs: bool,
    pub big: bool,
    pub input_deprecations: bool,
    /// Most things have a description, of any text.
    pub docs: bool,
}

/// Text as people write it, and text that is code to somebody else.
fn prose(r: &mut Rng) -> String {
    let bits = [
        "*/", "/*", "**/", "/**", "//", "*", "/", "* /", "*//*/", "/*/", "@param x", "{@link Foo}", "`code`", "\"quoted\"", "'", "export type Evil = string;", "};", "\\", "${x}", "ünï", "\u{2028}", "\u{feff}", "\u{1f600}",
        "the", "number", "of", "things", "a  b", "#", "-", "\t", "import x", "=", "", "null", "https://x.test/a*b/*?c=*/d", "\\n", "\\u002a/", "&lt;", "@since 2", "@deprecated since 3",
    ];
    let mut s = String::new();
    let lines = r.range(1, 4);
    for l in 0..lines {
        for _ in 0..r.below(6) {
            s.push_str(bits[r.below(bits.len())]);
            if r.pct(60) {
                s.push(' ');
            }
        }
        if l + 1 < lines || r.pct(15) {
            s.push_str(["\n", "\n", "\n\n", "\r\n", "\n  "][r.below(5)]);
        }
    }
    if r.pct(2) {
        s = s.repeat(500);
    }
    s
}
fn dress(r: &mut Rng, s: &mut Schema) {
    for t in &mut s.types {
        if r.pct(70) {
            t.desc = Some(prose(r));
        }
        if let Kind::Object(fs) | Kind::Interface(fs, _) | Kind::Input(fs) = &mut t.kind {
            for f in fs {
                if r.pct(60) {
                    f.desc = Some(prose(r));
                }
            }
        }
    }
}

/// Other servers, other habits of naming. The styles are such that joined names stay distinct.
fn dialect(r: &mut Rng, s: &mut Schema) {
    let (ts, fs, vs) = (r.below(5), r.below(5), r.below(4));
    let keep = |n: &str| BUILTIN.contains(&n) || n == "Query" || n == "Mutation";
    let ty = |n: &str| -> String {
        if keep(n) {
            return n.to_string();
        }
        match ts {
            0 => format!("_{n}"),
            1 => format!("t_{}{}", n.to_lowercase(), if n == "Enuma" { "_2" } else { "" }),
            2 => format!("{n}_"),
            3 => format!("{n}_2_x9"),
            _ => n.to_string(),
        }
    };
    let field = |n: &str| -> String {
        match fs {
            0 => format!("_{n}"),
            1 => format!("{n}_"),
            2 => format!("{}{}F", n[..1].to_uppercase(), &n[1..]),
            3 => format!("{n}_9"),
            _ => n.to_string(),
        }
    };
    let value = |n: &str| -> String {
        match vs {
            0 => format!("_{n}"),
            1 => format!("{n}__{}", n.len()),
            2 => format!("_{}{n}", n.len()),
            _ => n.to_string(),
        }
    };
    let types = |v: &mut Vec<String>| v.iter_mut().for_each(|n| *n = ty(n));
    for t in &mut s.types {
        t.name = ty(&t.name);
        if let Kind::Object(fs) | Kind::Interface(fs, _) | Kind::Input(fs) = &mut t.kind {
            for f in fs {
                f.name = field(&f.name);
                f.ty = rename(&f.ty, &ty(f.ty.name()));
            }
        }
        match &mut t.kind {
            Kind::Interface(_, p) | Kind::Union(p) => types(p),
            Kind::Enum(v) => v.iter_mut().for_each(|n| *n = value(n)),
            _ => {}
        }
    }
}

pub fn generate(r: &mut Rng, o: &SchemaOpts) -> Schema {
    let ne = r.range(1, 4);
    let ns = r.range(0, 2);
    let no = r.range(2, if o.big { 9 } else { 5 });
    let ni = r.range(0, 2);
    let nu = r.range(0, 2);
    let nin = r.range(1, 4);
    let enums: Vec<String> = (0..ne).map(|i| format!("Enum{}", (b'A' + i as u8) as char)).collect();
    let mut enums = enums;
    if r.pct(15) {
        enums.push("Enuma".into()); // names differ by case
    }
    let scalars: Vec<String> = ["Date", "JSON"][..ns].iter().map(|s| s.to_string()).collect();
    let objs: Vec<String> = (0..no)
        .map(|i| ["User", "Post", "Comment", "Org", "Tag", "Event", "Page", "Team", "Doc"][i].to_string())
        .collect();
    let ifaces: Vec<String> = (0..ni).map(|i| ["Node", "Actor"][i].to_string()).collect();
    let unions: Vec<String> = (0..nu).map(|i| ["Hit", "Item"][i].to_string()).collect();
    let inputs: Vec<String> = (0..nin).map(|i| format!("Input{}", (b'A' + i as u8) as char)).collect();
    let mut composites = objs.clone();
    composites.extend(ifaces.clone());
    composites.extend(unions.clone());

    // A global dictionary keeps a field name's type the same wherever it appears,
    // so any selection generated from it is a valid (conflict-free) document.
    let mut dict: BTreeMap<String, FieldDef> = BTreeMap::new();
    let mut names: Vec<&str> = POOL.to_vec();
    r.shuffle(&mut names);
    let leaf = |r: &mut Rng| -> GT {
        let x = r.below(10);
        GT::N(if x < 4 {
            BUILTIN[r.below(5)].to_string()
        } else if x < 8 || scalars.is_empty() {
            r.pick(&enums).clone()
        } else {
            r.pick(&scalars).clone()
        })
    };
    for (i, n) in names.iter().enumerate() {
        let base = if i % 2 == 0 {
            leaf(r)
        } else {
            GT::N(r.pick(&composites).clone())
        };
        let ty = wrap(r, base, 3);
        dict.insert(
            n.to_string(),
            FieldDef { name: n.to_string(), ty, desc: desc(r), deprecated: r.pct(15) },
        );
    }
    let subset = |r: &mut Rng, lo: usize, hi: usize| -> Vec<FieldDef> {
        let mut v: Vec<FieldDef> = dict.values().cloned().collect();
        r.shuffle(&mut v);
        v.truncate(r.range(lo, hi));
        v
    };
    let mut obj_fields: BTreeMap<String, Vec<FieldDef>> = objs
        .iter()
        .map(|n| {
            let mut f = subset(r, 2, 7);
            if r.pct(50) {
                let base = if r.pct(70) { leaf(r) } else { GT::N(r.pick(&composites).clone()) };
                let ty = wrap(r, base, 2);
                f.push(FieldDef { name: format!("own{n}"), ty, desc: desc(r), deprecated: r.pct(20) });
            }
            (n.clone(), f)
        })
        .collect();
    let mut types = Vec::new();
    for n in &ifaces {
        let mut poss = objs.clone();
        r.shuffle(&mut poss);
        poss.truncate(r.range(1, poss.len().min(4)));
        let fs = subset(r, 1, 4);
        for p in &poss {
            let own = obj_fields.get_mut(p).unwrap();
            for f in &fs {
                if !own.iter().any(|g| g.name == f.name) {
                    own.push(f.clone());
                }
            }
        }
        types.push(TypeDef { name: n.clone(), desc: desc(r), kind: Kind::Interface(fs, poss) });
    }
    for n in &unions {
        let mut poss = objs.clone();
        r.shuffle(&mut poss);
        poss.truncate(r.range(1, poss.len().min(4)));
        types.push(TypeDef { name: n.clone(), desc: desc(r), kind: Kind::Union(poss) });
    }
    // Real schemas use one name for different things in different types, and objects narrow what their interfaces say.
    if r.pct(60) {
        let known = Schema {
            types: types
                .iter()
                .cloned()
                .chain(objs.iter().map(|n| TypeDef { name: n.clone(), desc: None, kind: Kind::Object(vec![]) }))
                .collect(),
        };
        for (n, fs) in obj_fields.iter_mut() {
            for f in fs.iter_mut() {
                if !r.pct(25) {
                    continue;
                }
                let composite = known.is_composite(f.ty.name());
                let inherited = types.iter().any(|t| match &t.kind {
                    Kind::Interface(fs, poss) => poss.contains(n) && fs.iter().any(|g| g.name == f.name),
                    _ => false,
                });
                if inherited && composite && r.pct(70) {
                    let wide = known.possible(f.ty.name()).unwrap();
                    let narrow: Vec<&String> = composites
                        .iter()
                        .filter(|c| *c != f.ty.name() && known.possible(c).unwrap().iter().all(|p| wide.contains(p)))
                        .collect();
                    if !narrow.is_empty() {
                        f.ty = rename(&f.ty, r.pick(&narrow));
                    }
                } else if inherited {
                    if !f.ty.is_nonnull() {
                        f.ty = GT::NN(Box::new(f.ty.clone()));
                    }
                } else {
                    match r.below(5) {
                        0 => f.desc = Some(format!("Of {n} only")),
                        1 => f.deprecated = !f.deprecated,
                        2 if composite => f.ty = rename(&f.ty, r.pick(&composites)),
                        2 => f.ty = rename(&f.ty, leaf(r).name()),
                        3 => {
                            let base = GT::N(f.ty.name().to_string());
                            f.ty = wrap(r, base, 2);
                        }
                        _ => {
                            let base = if r.pct(50) { leaf(r) } else { GT::N(r.pick(&composites).clone()) };
                            f.ty = wrap(r, base, 1);
                        }
                    }
                }
            }
        }
    }
    for (n, f) in obj_fields {
        types.push(TypeDef { name: n, desc: desc(r), kind: Kind::Object(f) });
    }
    // Roots reach everything: one field per composite type plus some leaves.
    let mut root = subset(r, 1, 4);
    for c in &composites {
        let mut fname = c.clone();
        fname.get_mut(0..1).unwrap().make_ascii_lowercase();
        let ty = wrap(r, GT::N(c.clone()), 1);
        root.push(FieldDef { name: format!("{fname}Root"), ty, desc: desc(r), deprecated: r.pct(10) });
    }
    for e in &enums {
        let ty = wrap(r, GT::N(e.clone()), 1);
        root.push(FieldDef { name: format!("one{e}"), ty, desc: None, deprecated: false });
    }
    r.shuffle(&mut root);
    let mut mutf = root.clone();
    r.shuffle(&mut mutf);
    mutf.truncate(r.range(1, 5));
    types.push(TypeDef { name: "Query".into(), desc: None, kind: Kind::Object(root) });
    if r.pct(80) {
        types.push(TypeDef { name: "Mutation".into(), desc: None, kind: Kind::Object(mutf) });
    }
    for e in &enums {
        let mut vs: Vec<String> =
            ["ALPHA", "BETA", "GAMMA", "delta", "Eps_1", "OLD_WAY", "Alpha", "a10", "a9"].iter().map(|s| s.to_string()).collect();
        r.shuffle(&mut vs);
        let n = r.range(1, 6);
        vs.truncate(n);
        let d = if r.pct(30) { Some(format!("All about {e}")) } else { None };
        types.push(TypeDef { name: e.clone(), desc: d, kind: Kind::Enum(vs) });
    }
    for (i, n) in inputs.iter().enumerate() {
        let mut fs = Vec::new();
        for k in 0..r.range(1, 5) {
            let x = r.below(10);
            let base = if x < 4 || (i == 0 && !o.recursive_inputs && x < 7) {
                leaf(r)
            } else if o.recursive_inputs {
                GT::N(r.pick(&inputs).clone())
            } else if i > 0 {
                GT::N(inputs[r.below(i)].clone())
            } else {
                GT::N(r.pick(&enums).clone())
            };
            let mut ty = wrap(r, base, 2);
            if o.recursive_inputs && inputs.iter().any(|x| x == ty.name()) && ty.is_nonnull() && ty.list_depth() == 0 {
                ty = GT::N(ty.name().to_string()); // a required cycle would be an invalid schema
            }
            let name = if r.pct(50) { format!("f{k}{n}") } else { format!("f{k}") };
            let deprecated = o.input_deprecations && r.pct(8);
            fs.push(FieldDef { name, ty, desc: desc(r), deprecated });
        }
        types.push(TypeDef { name: n.clone(), desc: desc(r), kind: Kind::Input(fs) });
    }
    for s in BUILTIN.iter().map(|s| s.to_string()).chain(scalars.iter().cloned()) {
        types.push(TypeDef { name: s, desc: None, kind: Kind::Scalar });
    }
    r.shuffle(&mut types);
    let mut s = Schema { types };
    if r.pct(30) {
        dialect(r, &mut s);
    }
    if o.docs {
        dress(r, &mut s);
    }
    s
}

//! GraphQL document AST, rendering with source positions, and seeded generation.
use crate::rng::Rng;
use crate::schema::{Kind, Schema, GT};
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct Pos {
    pub line: u32,
    pub col: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Sel {
    Field { alias: Option<String>, name: String, args: Option<String>, sel: Vec<Sel>, #[serde(default)] pos: Pos },
    Inline { on: Option<String>, sel: Vec<Sel>, #[serde(default)] pos: Pos },
    Spread { name: String, #[serde(default)] pos: Pos },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct VarDef {
    pub name: String,
    pub ty: GT,
    #[serde(default)]
    pub default: Option<String>,
    #[serde(default)]
    pub pos: Pos,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum OpKind {
    Query,
    Mutation,
    Subscription,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Def {
    Op { kind: OpKind, name: Option<String>, vars: Vec<VarDef>, sel: Vec<Sel> },
    Frag { name: String, on: String, sel: Vec<Sel>, #[serde(default)] pos: Pos },
    Anon { sel: Vec<Sel>, #[serde(default)] pos: Pos },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Import {
    /// The text between the quotes.
    pub text: String,
    pub suffix: String,
    /// False leaves the closing quote out.
    pub closed: bool,
    #[serde(default)]
    pub line: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Doc {
    /// None renders an ordinary comment or blank line between imports.
    pub header: Vec<HeaderLine>,
    pub def: Def,
    pub trailer: Vec<String>,
    pub crlf: bool,
    /// Lines end in carriage returns only.
    #[serde(default)]
    pub cr: bool,
    /// Starts with a byte order mark.
    #[serde(default)]
    pub bom: bool,
    pub compact: bool,
    /// Seed of unusual spacing, commas and comments between selections; 0 for none.
    #[serde(default)]
    pub style: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum HeaderLine {
    Import(Import),
    Text(String),
}

struct Out {
    style: Rng,
    odd: bool,
    s: String,
    line: u32,
    col: u32,
    nl: &'static str,
}
impl Out {
    fn put(&mut self, t: &str) {
        for c in t.chars() {
            if c == '\n' {
                self.s.push_str(self.nl);
                self.line += 1;
                self.col = 1;
            } else {
                self.s.push(c);
                self.col += if c == '\t' { 8 } else { 1 };
            }
        }
    }
    /// What may stand between any two tokens and means nothing.
    fn trivia(&mut self) {
        if self.odd && self.style.pct(25) {
            let t = ["  ", ",", " , ", "\n\n", "\n      ", " # note: { } \" ...\n", "\n# caf\u{e9} $x\n", "#\n", "\t", "\n#import \"./none.graphql\"\n"][self.style.below(10)];
            self.put(t);
        }
    }
    /// A directive the compiler has nothing to do with.
    fn directive(&mut self) {
        if self.odd && self.style.pct(20) {
            let t = [" @client ", " @conn(key: \"k } \", n: [1, $v0]) ", " @a @b(c: {d: ON})\n  "][self.style.below(3)];
            self.put(t);
        }
    }
    fn pos(&self) -> Pos {
        Pos { line: self.line, col: self.col }
    }
}

fn put_sel(o: &mut Out, sels: &mut [Sel], depth: usize, compact: bool) {
    o.put("{");
    for s in sels.iter_mut() {
        o.trivia();
        if compact {
            o.put(" ");
        } else {
            o.put("\n");
            o.put(&"  ".repeat(depth + 1));
        }
        o.trivia();
        match s {
            Sel::Field { alias, name, args, sel, pos } => {
                *pos = o.pos();
                if let Some(a) = alias {
                    o.put(&format!("{a}: "));
                }
                o.put(name);
                if let Some(a) = args {
                    o.trivia();
                    if a.contains('@') {
                        o.put(a);
                    } else {
                        o.put(&format!("({a})"));
                    }
                }
                if !sel.is_empty() {
                    o.trivia();
                    o.put(" ");
                    put_sel(o, sel, depth + 1, compact);
                }
            }
            Sel::Inline { on, sel, pos } => {
                o.put("... ");
                *pos = o.pos(); // what follows the dots is where messages point
                if let Some(t) = on {
                    o.put(&format!("on {t} "));
                    o.directive();
                }
                put_sel(o, sel, depth + 1, compact);
            }
            Sel::Spread { name, pos } => {
                o.put("...");
                *pos = o.pos();
                o.put(name);
                o.directive();
            }
        }
    }
    if compact {
        o.put(" }");
    } else {
        o.put("\n");
        o.put(&"  ".repeat(depth));
        o.put("}");
    }
}

impl Doc {
    /// Renders the document, recording source positions in the AST.
    pub fn render(&mut self) -> String {
        let mut o = Out { style: Rng::new(self.style), odd: self.style != 0, s: String::new(), line: 1, col: 1, nl: if self.crlf { "\r\n" } else if self.cr { "\r" } else { "\n" } };
        if self.bom {
            o.s.push('\u{feff}');
        }
        for h in self.header.iter_mut() {
            match h {
                HeaderLine::Import(i) => {
                    i.line = o.line;
                    o.put(&format!("#import \"{}{}{}\n", i.text, if i.closed { "\"" } else { "" }, i.suffix));
                }
                HeaderLine::Text(t) => o.put(&format!("{t}\n")),
            }
        }
        let compact = self.compact;
        match &mut self.def {
            Def::Op { kind, name, vars, sel } => {
                o.put(match kind {
                    OpKind::Query => "query",
                    OpKind::Mutation => "mutation",
                    OpKind::Subscription => "subscription",
                });
                if let Some(n) = name {
                    o.trivia();
                    o.put(&format!(" {n}"));
                }
                if !vars.is_empty() {
                    o.trivia();
                    o.put("(");
                    o.trivia();
                    for (i, v) in vars.iter_mut().enumerate() {
                        if i > 0 {
                            o.put(", ");
                        }
                        o.trivia();
                        v.pos = o.pos();
                        o.put(&format!("${}: {}", v.name, v.ty.graphql()));
                        if let Some(x) = &v.default {
                            o.put(&format!(" = {x}"));
                        }
                    }
                    o.put(")");
                }
                o.put(" ");
                if name.is_some() {
                    o.directive();
                }
                put_sel(&mut o, sel, 0, compact);
            }
            Def::Frag { name, on, sel, pos } => {
                *pos = o.pos();
                o.put(&format!("fragment {name} on {on} "));
                o.directive();
                put_sel(&mut o, sel, 0, compact);
            }
            Def::Anon { sel, pos } => {
                *pos = o.pos();
                put_sel(&mut o, sel, 0, compact);
            }
        }
        o.put("\n");
        for t in &self.trailer {
            o.put(&format!("{t}\n"));
        }
        o.s
    }
    pub fn imports(&self) -> impl Iterator<Item = &Import> {
        self.header.iter().filter_map(|h| match h {
            HeaderLine::Import(i) => Some(i),
            _ => None,
        })
    }
    pub fn sel(&self) -> &Vec<Sel> {
        match &self.def {
            Def::Op { sel, .. } | Def::Frag { sel, .. } | Def::Anon { sel, .. } => sel,
        }
    }
    pub fn sel_mut(&mut self) -> &mut Vec<Sel> {
        match &mut self.def {
            Def::Op { sel, .. } | Def::Frag { sel, .. } | Def::Anon { sel, .. } => sel,
        }
    }
}

/// A fragment that may be spread by a document being generated.
#[derive(Clone)]
pub struct FragRef {
    pub name: String,
    pub on: String,
}

pub struct SelGen<'a> {
    pub schema: &'a Schema,
    pub frags: &'a [FragRef],
    pub used: Vec<String>,
    pub narrow_pct: u64,
    pub spread_pct: u64,
}

fn overlap(a: &[String], b: &[String]) -> bool {
    a.iter().any(|x| b.contains(x))
}

impl<'a> SelGen<'a> {
    fn composite_names(&self) -> Vec<String> {
        self.schema
            .types
            .iter()
            .filter(|t| matches!(t.kind, Kind::Object(_) | Kind::Interface(..) | Kind::Union(_)))
            .map(|t| t.name.clone())
            .filter(|n| n != "Query" && n != "Mutation")
            .collect()
    }
    /// `live` is the set of concrete types the enclosing selection applies to.
    pub fn gen(&mut self, r: &mut Rng, ty: &str, live: &[String], depth: usize, budget: &mut usize) -> Vec<Sel> {
        let mut out: Vec<Sel> = Vec::new();
        let fields: Vec<_> = self.schema.fields(ty).unwrap_or(&[]).to_vec();
        let n = r.range(1, 4);
        for _ in 0..n {
            if *budget == 0 {
                break;
            }
            let x = r.below(100) as u64;
            if x < self.spread_pct && !self.frags.is_empty() {
                let f = r.pick(self.frags).clone();
                let fp = self.schema.possible(&f.on).unwrap_or_default();
                if overlap(&fp, live) || r.pct(self.narrow_pct) {
                    *budget -= 1;
                    self.used.push(f.name.clone());
                    out.push(Sel::Spread { name: f.name, pos: Pos::default() });
                    continue;
                }
            }
            let abstract_ty = live.len() > 1 || fields.is_empty();
            if x >= 100 - if abstract_ty { 40 } else { 8 } {
                let cands: Vec<String> = self
                    .composite_names()
                    .into_iter()
                    .filter(|c| overlap(&self.schema.possible(c).unwrap(), live) || r.pct(self.narrow_pct))
                    .collect();
                if !cands.is_empty() {
                    let c = r.pick(&cands).clone();
                    let sub: Vec<String> =
                        self.schema.possible(&c).unwrap().into_iter().filter(|p| live.contains(p)).collect();
                    *budget -= 1;
                    let live2 = if sub.is_empty() { self.schema.possible(&c).unwrap() } else { sub };
                    let sel = self.gen(r, &c, &live2, depth, budget);
                    out.push(Sel::Inline { on: Some(c), sel, pos: Pos::default() });
                    continue;
                }
            }
            if fields.is_empty() || r.pct(12) {
                *budget -= 1;
                let alias = if r.pct(20) { Some("kind".to_string()) } else { None };
                out.push(Sel::Field { alias, name: "__typename".into(), args: None, sel: vec![], pos: Pos::default() });
                continue;
            }
            let f = r.pick(&fields).clone();
            let composite = self.schema.is_composite(f.ty.name());
            if composite && depth == 0 {
                continue;
            }
            *budget -= 1;
            let sel = if composite {
                let p = self.schema.possible(f.ty.name()).unwrap();
                self.gen(r, f.ty.name(), &p, depth - 1, budget)
            } else {
                vec![]
            };
            // The alias is a function of the field, so equal response names always mean equal fields.
            let alias = if let Some(a) = self.schema.alias(&f) {
                Some(a)
            } else if r.pct(20) {
                let mut c = f.name.clone();
                c.get_mut(0..1).unwrap().make_ascii_uppercase();
                // One leading underscore, where no other name could become the same with it.
                Some(if c.len() % 3 == 0 && !c.starts_with('_') && !c.ends_with('_') { format!("_{}", f.name) } else { format!("my{c}") })
            } else {
                None
            };
            // So are the arguments and directives.
            let forms = [
                "first: 3",
                "where: {a: [1, 2], b: \"}x{ #\"}, last: null",
                "(id: $v0) @conn(key: \"k\")",
                " @client",
                "by: ENUM, f: 1.5e3, ok: true, l: []",
                "q: \"caf\u{e9} \u{1f600} \u{6f22}\u{5b57}\"",
                "on: \"#import\", b: \"\"\"block } \" text\"\"\"",
                " @client(a: \"\u{e9}\")",
            ];
            let h = crate::rng::hash_bytes(f.name.as_bytes()) as usize;
            let args = if h % 3 == 0 { Some(forms[h / 3 % forms.len()].to_string()) } else { None };
            out.push(Sel::Field { alias, name: f.name.clone(), args, sel, pos: Pos::default() });
        }
        if out.is_empty() {
            out.push(Sel::Field { alias: None, name: "__typename".into(), args: None, sel: vec![], pos: Pos::default() });
        }
        out
    }
}

/// Some constant of a type.
fn constant(r: &mut Rng, schema: &Schema, t: &GT) -> String {
    match t {
        GT::NN(i) => loop {
            let c = constant(r, schema, i);
            if c != "null" {
                break c;
            }
        },
        _ if r.pct(25) => "null".into(),
        GT::L(i) => {
            let v: Vec<String> = (0..r.below(3)).map(|_| constant(r, schema, i)).collect();
            format!("[{}]", v.join(", "))
        }
        GT::N(n) => match n.as_str() {
            "Boolean" => ["true", "false"][r.below(2)].into(),
            "Int" => ["0", "-7", "42"][r.below(3)].into(),
            "Float" => ["1.5", "-2e3", "3"][r.below(3)].into(),
            "String" | "ID" => ["\"\"", "\"a # b\"", "\"}{ \\\"q\\\" \u{e9}\""][r.below(3)].into(),
            n => match schema.get(n).map(|t| &t.kind) {
                Some(Kind::Enum(v)) => r.pick(v).clone(),
                Some(Kind::Input(_)) => "{}".into(),
                _ => ["\"x\"", "{a: [1, {b: null}]}", "3"][r.below(3)].into(),
            },
        },
    }
}

pub fn gen_vars(r: &mut Rng, schema: &Schema, max: usize) -> Vec<VarDef> {
    let inputs: Vec<String> = schema
        .types
        .iter()
        .filter(|t| matches!(t.kind, Kind::Input(_) | Kind::Enum(_) | Kind::Scalar))
        .map(|t| t.name.clone())
        .collect();
    (0..r.below(max + 1))
        .map(|i| {
            let mut t = GT::N(r.pick(&inputs).clone());
            if r.pct(50) {
                t = GT::NN(Box::new(t));
            }
            if r.pct(35) {
                t = GT::L(Box::new(t));
                if r.pct(50) {
                    t = GT::NN(Box::new(t));
                }
            }
            let default = if r.pct(35) { Some(constant(r, schema, &t)) } else { None };
            VarDef { name: format!("{}{i}", ["v", "zed", "arg"][r.below(3)]), ty: t, default, pos: Pos::default() }
        })
        .collect()
}

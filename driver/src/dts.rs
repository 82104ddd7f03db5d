//! Parser for the TypeScript subset qlc emits, tolerant of layout.
use crate::canon::{union, C, P};
use crate::model::Tree;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Id(String),
    Str(String),
    Doc(String),
    Sym(char),
}

fn lex(s: &str) -> Result<Vec<Tok>, String> {
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < cs.len() {
        let c = cs[i];
        if c.is_whitespace() {
            i += 1;
        } else if c == '/' && cs.get(i + 1) == Some(&'/') {
            while i < cs.len() && cs[i] != '\n' {
                i += 1;
            }
        } else if c == '/' && cs.get(i + 1) == Some(&'*') {
            let mut j = i + 2;
            while j + 1 < cs.len() && !(cs[j] == '*' && cs[j + 1] == '/') {
                j += 1;
            }
            if j + 1 >= cs.len() {
                return Err("unterminated comment".into());
            }
            if cs.get(i + 2) == Some(&'*') && j > i + 2 {
                out.push(Tok::Doc(cs[i + 3..j].iter().collect()));
            }
            i = j + 2;
        } else if c == '"' || c == '\'' {
            let mut j = i + 1;
            let mut t = String::new();
            while j < cs.len() && cs[j] != c {
                if cs[j] == '\\' {
                    j += 1;
                }
                if j < cs.len() {
                    t.push(cs[j]);
                }
                j += 1;
            }
            if j >= cs.len() {
                return Err("unterminated string".into());
            }
            out.push(Tok::Str(t));
            i = j + 1;
        } else if c.is_alphanumeric() || c == '_' || c == '$' {
            let mut j = i;
            while j < cs.len() && (cs[j].is_alphanumeric() || cs[j] == '_' || cs[j] == '$') {
                j += 1;
            }
            out.push(Tok::Id(cs[i..j].iter().collect()));
            i = j;
        } else if "{}()[]<>|:;,=?*".contains(c) {
            out.push(Tok::Sym(c));
            i += 1;
        } else {
            return Err(format!("unexpected character {c:?}"));
        }
    }
    Ok(out)
}

#[derive(Clone, Debug)]
enum Ty {
    Name(String, Vec<Ty>),
    Lit(String),
    Arr(Box<Ty>),
    Union(Vec<Ty>),
    Obj(Vec<Prop>),
}
#[derive(Clone, Debug)]
struct Prop {
    name: String,
    readonly: bool,
    optional: bool,
    doc: Vec<String>,
    deprecated: bool,
    ty: Ty,
}

#[derive(Default, Debug)]
struct File {
    imports: BTreeMap<String, BTreeSet<String>>,
    types: BTreeMap<String, (Ty, Vec<String>)>,
    enums: BTreeMap<String, (BTreeMap<String, String>, Vec<String>)>,
    decl: Option<(String, Ty)>,
    default: Option<String>,
}

struct Ps {
    t: Vec<Tok>,
    i: usize,
}
type R<T> = Result<T, String>;

/// The lines of a text. Stars and slashes do not count: some of them would end the comment.
pub fn doc_text(s: &str) -> Vec<String> {
    s.lines()
        .map(|l| l.chars().filter(|c| !"*/".contains(*c)).collect::<String>().trim().to_string())
        .filter(|l| !l.is_empty())
        .collect()
}

fn doc_lines(s: &str) -> (Vec<String>, bool) {
    let mut dep = false;
    let mut v = Vec::new();
    for l in s.lines() {
        let l = l.trim();
        let l = l.strip_prefix('*').unwrap_or(l).trim();
        if l == "@deprecated" {
            dep = true;
        } else {
            v.extend(doc_text(l));
        }
    }
    (v, dep)
}

impl Ps {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn sym(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::Sym(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.sym(c) {
            Ok(())
        } else {
            Err(format!("expected {c:?} near {:?}", &self.t[self.i.min(self.t.len())..(self.i + 4).min(self.t.len())]))
        }
    }
    fn id(&mut self) -> R<String> {
        match self.t.get(self.i) {
            Some(Tok::Id(s)) => {
                self.i += 1;
                Ok(s.clone())
            }
            o => Err(format!("expected identifier, found {o:?}")),
        }
    }
    fn kw(&mut self, k: &str) -> bool {
        if self.peek() == Some(&Tok::Id(k.into())) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn str(&mut self) -> R<String> {
        match self.t.get(self.i) {
            Some(Tok::Str(s)) => {
                self.i += 1;
                Ok(s.clone())
            }
            o => Err(format!("expected string, found {o:?}")),
        }
    }
    fn docs(&mut self) -> (Vec<String>, bool) {
        let mut r = (vec![], false);
        while let Some(Tok::Doc(d)) = self.peek().cloned() {
            r = doc_lines(&d);
            self.i += 1;
        }
        r
    }
    fn ty(&mut self) -> R<Ty> {
        let mut v = Vec::new();
        self.sym('|');
        loop {
            v.push(self.postfix()?);
            if !self.sym('|') {
                break;
            }
        }
        Ok(if v.len() == 1 { v.pop().unwrap() } else { Ty::Union(v) })
    }
    fn postfix(&mut self) -> R<Ty> {
        let mut t = match self.peek().cloned() {
            Some(Tok::Str(s)) => {
                self.i += 1;
                Ty::Lit(s)
            }
            Some(Tok::Sym('(')) => {
                self.i += 1;
                let t = self.ty()?;
                self.want(')')?;
                t
            }
            Some(Tok::Sym('{')) => Ty::Obj(self.props()?),
            Some(Tok::Id(n)) => {
                self.i += 1;
                let mut a = Vec::new();
                if self.sym('<') {
                    loop {
                        a.push(self.ty()?);
                        if !self.sym(',') {
                            break;
                        }
                    }
                    self.want('>')?;
                }
                if (n == "Array" || n == "ReadonlyArray") && a.len() == 1 {
                    Ty::Arr(Box::new(a.pop().unwrap()))
                } else {
                    Ty::Name(n, a)
                }
            }
            o => return Err(format!("expected a type, found {o:?}")),
        };
        while self.peek() == Some(&Tok::Sym('[')) {
            self.i += 1;
            self.want(']')?;
            t = Ty::Arr(Box::new(t));
        }
        Ok(t)
    }
    fn props(&mut self) -> R<Vec<Prop>> {
        self.want('{')?;
        let mut v = Vec::new();
        loop {
            let (doc, deprecated) = self.docs();
            if self.sym('}') {
                return Ok(v);
            }
            let mut name = match self.peek() {
                Some(Tok::Str(_)) => self.str()?,
                _ => self.id()?,
            };
            let mut readonly = false;
            if name == "readonly" && !matches!(self.peek(), Some(Tok::Sym(':')) | Some(Tok::Sym('?'))) {
                readonly = true;
                name = match self.peek() {
                    Some(Tok::Str(_)) => self.str()?,
                    _ => self.id()?,
                };
            }
            let optional = self.sym('?');
            self.want(':')?;
            let ty = self.ty()?;
            v.push(Prop { name, readonly, optional, doc, deprecated, ty });
            if !self.sym(';') && !self.sym(',') && self.peek() != Some(&Tok::Sym('}')) {
                return Err("expected ; after a property".into());
            }
        }
    }
    fn file(&mut self) -> R<File> {
        let mut f = File::default();
        loop {
            let (doc, _) = self.docs();
            let Some(t) = self.peek().cloned() else { break };
            match t {
                Tok::Sym(';') => self.i += 1,
                Tok::Id(k) if k == "import" => {
                    self.i += 1;
                    self.kw("type");
                    self.want('{')?;
                    let mut names = BTreeSet::new();
                    while !self.sym('}') {
                        if !names.insert(self.id()?) {
                            return Err("a name is imported twice".into());
                        }
                        self.sym(',');
                    }
                    if !self.kw("from") {
                        return Err("expected from".into());
                    }
                    let m = self.str()?;
                    let e = f.imports.entry(m).or_default();
                    for n in names {
                        if !e.insert(n.clone()) {
                            return Err(format!("{n} is imported twice"));
                        }
                    }
                }
                Tok::Id(k) if k == "declare" => {
                    self.i += 1;
                    if !self.kw("const") {
                        return Err("expected const".into());
                    }
                    let n = self.id()?;
                    self.want(':')?;
                    let ty = self.ty()?;
                    if f.decl.is_some() {
                        return Err("two declarations".into());
                    }
                    f.decl = Some((n, ty));
                }
                Tok::Id(k) if k == "export" => {
                    self.i += 1;
                    if self.kw("default") {
                        f.default = Some(self.id()?);
                    } else if self.kw("type") {
                        let n = self.id()?;
                        self.want('=')?;
                        let ty = self.ty()?;
                        if f.types.insert(n.clone(), (ty, doc)).is_some() || f.enums.contains_key(&n) {
                            return Err(format!("type {n} is declared twice"));
                        }
                    } else if self.kw("enum") {
                        let n = self.id()?;
                        self.want('{')?;
                        let mut vs = BTreeMap::new();
                        loop {
                            self.docs();
                            if self.sym('}') {
                                break;
                            }
                            let k = self.id()?;
                            self.want('=')?;
                            let v = self.str()?;
                            if vs.insert(k.clone(), v).is_some() {
                                return Err(format!("enum member {k} is declared twice"));
                            }
                            self.sym(',');
                        }
                        if f.enums.insert(n.clone(), (vs, doc)).is_some() || f.types.contains_key(&n) {
                            return Err(format!("enum {n} is declared twice"));
                        }
                    } else {
                        return Err("unknown export".into());
                    }
                }
                o => return Err(format!("unexpected {o:?}")),
            }
        }
        Ok(f)
    }
}

fn canon(t: &Ty, f: &File, expand: bool, depth: usize, free: &mut BTreeSet<String>) -> R<C> {
    if depth > 2000 {
        return Err("type aliases recurse".into());
    }
    Ok(match t {
        Ty::Name(n, a) if a.is_empty() => match n.as_str() {
            "null" => C::Null,
            _ => match f.types.get(n) {
                Some((d, _)) if expand => canon(d, f, expand, depth + 1, free)?,
                _ => {
                    free.insert(n.clone());
                    C::Name(n.clone())
                }
            },
        },
        Ty::Name(n, _) => return Err(format!("unexpected generic {n}")),
        Ty::Lit(s) => C::Lit(s.clone()),
        Ty::Arr(i) => C::Arr(Box::new(canon(i, f, expand, depth + 1, free)?)),
        Ty::Union(v) => union(v.iter().map(|x| canon(x, f, expand, depth + 1, free)).collect::<R<Vec<_>>>()?),
        Ty::Obj(ps) => {
            let mut m = BTreeMap::new();
            for p in ps {
                let q = P {
                    ty: canon(&p.ty, f, expand, depth + 1, free)?,
                    readonly: p.readonly,
                    optional: p.optional,
                    doc: p.doc.clone(),
                    deprecated: p.deprecated,
                };
                if m.insert(p.name.clone(), q).is_some() {
                    return Err(format!("property {} is declared twice", p.name));
                }
            }
            C::Obj(m)
        }
    })
}

/// What one `.graphql.d.ts` file says.
#[derive(Debug, Clone, PartialEq)]
pub struct Dts {
    pub imports: BTreeMap<String, BTreeSet<String>>,
    pub node: String,
    pub data_name: String,
    pub data: C,
    pub vars_name: Option<String>,
    pub vars: Option<C>,
    pub free: BTreeSet<String>,
}

pub fn parse_dts(s: &str) -> R<Dts> {
    let mut p = Ps { t: lex(s)?, i: 0 };
    let f = p.file()?;
    let (dn, dt) = f.decl.clone().ok_or("no document declaration (file cut short?)")?;
    if f.default.as_deref() != Some(dn.as_str()) {
        return Err("the declared document is not exported (file cut short?)".into());
    }
    let Ty::Name(node, args) = dt else { return Err("odd document type".into()) };
    let nm = |t: &Ty| match t {
        Ty::Name(n, a) if a.is_empty() => Ok(n.clone()),
        o => Err(format!("odd type argument {o:?}")),
    };
    if args.is_empty() || args.len() > 2 {
        return Err("odd number of type arguments".into());
    }
    let data_name = nm(&args[0])?;
    let mut free = BTreeSet::new();
    let dty = f.types.get(&data_name).ok_or(format!("type {data_name} is not declared"))?;
    let data = canon(&dty.0, &f, true, 0, &mut free)?;
    let mut vars_name = None;
    let mut vars = None;
    if args.len() == 2 {
        let v = nm(&args[1])?;
        if v != "never" {
            let ty = f.types.get(&v).ok_or(format!("type {v} is not declared"))?;
            vars = Some(canon(&ty.0, &f, true, 0, &mut free)?);
        }
        vars_name = Some(v);
    }
    // Every declared type must be reachable, or be the data or variables type.
    for n in ["string", "number", "boolean", "any", "never"] {
        free.remove(n);
    }
    Ok(Dts { imports: f.imports.clone(), node, data_name, data, vars_name, vars, free })
}

/// Checks that a file exports every selection's type under the name its place gives it.
pub fn check_names(s: &str, tree: &Tree) -> R<()> {
    let mut p = Ps { t: lex(s)?, i: 0 };
    let f = p.file()?;
    let Some((_, Ty::Name(_, args))) = &f.decl else { return Err("no document declaration".into()) };
    let Some(Ty::Name(root, _)) = args.first() else { return Err("odd document type".into()) };
    named(&f, root, tree)
}

fn named(f: &File, name: &str, tree: &Tree) -> R<()> {
    let Some((ty, _)) = f.types.get(name) else { return Err(format!("type {name} is not exported")) };
    let want = union(tree.alts.values().map(|a| a.0.clone()).collect());
    let got = canon(ty, f, true, 0, &mut BTreeSet::new())?;
    if let Some(d) = crate::canon::diff(name, &want, &got) {
        return Err(d);
    }
    match ty {
        Ty::Obj(ps) => {
            for (key, sub) in &tree.alts.values().next().ok_or("a selection that no type can meet")?.1 {
                let Some(p) = ps.iter().find(|p| &p.name == key) else { return Err(format!("{name} has no {key}")) };
                let below = format!("{name}_{key}");
                if !mentions(&p.ty, &below) {
                    return Err(format!("{name}.{key} is not of type {below}"));
                }
                named(f, &below, sub)?;
            }
            Ok(())
        }
        Ty::Union(parts) => {
            let mut rest = tree.clone();
            let mut others = false;
            let plain = plain(tree);
            for p in parts {
                let Ty::Name(n, _) = p else { return Err(format!("an alternative of {name} has no name")) };
                let t = n.strip_prefix(name).and_then(|x| x.strip_prefix('_')).unwrap_or("");
                if t == "$$other" {
                    others = true;
                    continue;
                }
                let Some(a) = rest.alts.remove(t) else { return Err(format!("{n} is an alternative of {name}")) };
                if plain.contains(t) {
                    return Err(format!("{n} has the common fields only but is no part of {name}_$$other"));
                }
                named(f, n, &Tree { alts: [(t.to_string(), a)].into() })?;
            }
            match (others, rest.alts.is_empty()) {
                (true, false) => named(f, &format!("{name}_$$other"), &rest),
                (false, true) => Ok(()),
                _ => Err(format!("{name} has no alternative for {:?}", rest.alts.keys().collect::<Vec<_>>())),
            }
        }
        _ => Err(format!("{name} is no object type")),
    }
}
/// The types that have no more than the fields common to all, if these are the same for each of them.
fn plain(tree: &Tree) -> BTreeSet<String> {
    fn keys(c: &C) -> BTreeSet<&String> {
        match c {
            C::Obj(m) => m.keys().collect(),
            _ => BTreeSet::new(),
        }
    }
    let sets: Vec<_> = tree.alts.values().map(|a| keys(&a.0)).collect();
    let common = sets.iter().skip(1).fold(sets.first().cloned().unwrap_or_default(), |a, b| a.intersection(b).copied().collect());
    let v: Vec<_> = tree.alts.iter().filter(|(_, a)| keys(&a.0) == common).collect();
    match union(v.iter().map(|(_, a)| a.0.clone()).collect()) {
        C::Obj(_) => v.into_iter().map(|(t, _)| t.clone()).collect(),
        _ => BTreeSet::new(),
    }
}
fn mentions(t: &Ty, name: &str) -> bool {
    match t {
        Ty::Name(n, a) => n == name && a.is_empty(),
        Ty::Arr(t) => mentions(t, name),
        Ty::Union(v) => v.iter().any(|t| mentions(t, name)),
        _ => false,
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Global {
    Enum(BTreeMap<String, String>, Vec<String>),
    Input(C),
}

pub fn parse_globals(s: &str) -> R<BTreeMap<String, Global>> {
    let mut p = Ps { t: lex(s)?, i: 0 };
    let f = p.file()?;
    let mut m = BTreeMap::new();
    for (n, (vs, d)) in &f.enums {
        m.insert(n.clone(), Global::Enum(vs.clone(), d.clone()));
    }
    let mut free = BTreeSet::new();
    for (n, (t, _)) in &f.types {
        m.insert(n.clone(), Global::Input(canon(t, &f, false, 0, &mut free)?));
    }
    if f.decl.is_some() || !f.imports.is_empty() {
        return Err("unexpected declarations".into());
    }
    Ok(m)
}

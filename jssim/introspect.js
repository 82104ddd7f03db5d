"use strict";
// Executes a GraphQL introspection query over a full introspection result, as a server does.
function lex(s) {
  const re = /[\s,\uFEFF]+|#[^\n\r]*|(\.\.\.|[!$():=@\[\]{}|&])|([_A-Za-z]\w*)|(-?\d+(?:\.\d+)?(?:[eE][+-]?\d+)?)|"""([\s\S]*?)"""|"((?:[^"\\\n]|\\.)*)"/gy;
  const out = [];
  let m;
  while (re.lastIndex < s.length) {
    const at = re.lastIndex;
    m = re.exec(s);
    if (!m) throw new Error(`Syntax Error: unexpected character at ${at}`);
    if (m[1]) out.push({ k: "p", v: m[1] });
    else if (m[2]) out.push({ k: "n", v: m[2] });
    else if (m[3]) out.push({ k: "num", v: Number(m[3]) });
    else if (m[4] !== undefined) out.push({ k: "str", v: m[4] });
    else if (m[5] !== undefined) out.push({ k: "str", v: JSON.parse(`"${m[5]}"`) });
  }
  return out;
}
function parse(text) {
  const t = lex(text);
  let i = 0;
  const is = (v) => t[i] && t[i].k === "p" && t[i].v === v;
  const eat = (v) => { if (!is(v)) throw new Error(`Syntax Error: expected ${v}`); i++; };
  const name = () => { if (!t[i] || t[i].k !== "n") throw new Error("Syntax Error: expected a name"); return t[i++].v; };
  function value() {
    if (is("$")) { i++; return { var: name() }; }
    if (is("[")) { i++; const v = []; while (!is("]")) v.push(value()); i++; return { lit: v.map((x) => x.lit) }; }
    if (is("{")) { i++; const o = {}; while (!is("}")) { const k = name(); eat(":"); o[k] = value().lit; } i++; return { lit: o }; }
    const x = t[i++];
    if (!x) throw new Error("Syntax Error: value");
    if (x.k === "n") return { lit: x.v === "true" ? true : x.v === "false" ? false : x.v === "null" ? null : x.v };
    return { lit: x.v };
  }
  function args() {
    const a = {};
    if (is("(")) { i++; while (!is(")")) { const k = name(); eat(":"); a[k] = value(); } i++; }
    return a;
  }
  function directives() {
    const d = [];
    while (is("@")) { i++; const n = name(); d.push({ n, a: args() }); }
    return d;
  }
  function set() {
    eat("{");
    const v = [];
    while (!is("}")) {
      if (!t[i]) throw new Error("Syntax Error: unexpected end");
      if (is("...")) {
        i++;
        if (t[i].k === "n" && t[i].v !== "on") { const n = name(); v.push({ spread: n, d: directives() }); continue; }
        let on = null;
        if (t[i].k === "n") { i++; on = name(); }
        const d = directives();
        v.push({ on, d, sel: set() });
      } else {
        let alias = name(), n = alias;
        if (is(":")) { i++; n = name(); }
        const a = args(), d = directives();
        v.push({ alias, name: n, args: a, d, sel: is("{") ? set() : null });
      }
    }
    i++;
    return v;
  }
  function type() {
    if (is("[")) { i++; type(); eat("]"); } else name();
    if (is("!")) i++;
  }
  const doc = { ops: [], frags: {} };
  while (i < t.length) {
    if (is("{")) { doc.ops.push({ name: null, sel: set(), defaults: {} }); continue; }
    const k = name();
    if (k === "fragment") {
      const n = name();
      if (name() !== "on") throw new Error("Syntax Error: expected on");
      const on = name();
      directives();
      if (doc.frags[n]) throw new Error(`There can be only one fragment named ${n}`);
      doc.frags[n] = { on, sel: set() };
    } else if (k === "query") {
      const o = { name: t[i].k === "n" ? name() : null, defaults: {} };
      if (is("(")) {
        i++;
        while (!is(")")) { eat("$"); const n = name(); eat(":"); type(); if (is("=")) { i++; o.defaults[n] = value().lit; } }
        i++;
      }
      directives();
      o.sel = set();
      doc.ops.push(o);
    } else throw new Error(`Syntax Error: unexpected ${k}`);
  }
  return doc;
}
const S = { __schema: ["__Schema", false], __type: ["__Type", false] };
const TYPES = {
  Query: S,
  __Schema: { description: 0, types: ["__Type", true], queryType: ["__Type"], mutationType: ["__Type"], subscriptionType: ["__Type"], directives: ["__Directive", true] },
  __Type: { kind: 0, name: 0, description: 0, specifiedByURL: 0, fields: ["__Field", true], interfaces: ["__Type", true], possibleTypes: ["__Type", true], enumValues: ["__EnumValue", true], inputFields: ["__InputValue", true], ofType: ["__Type"] },
  __Field: { name: 0, description: 0, args: ["__InputValue", true], type: ["__Type"], isDeprecated: 0, deprecationReason: 0 },
  __InputValue: { name: 0, description: 0, type: ["__Type"], defaultValue: 0, isDeprecated: 0, deprecationReason: 0 },
  __EnumValue: { name: 0, description: 0, isDeprecated: 0, deprecationReason: 0 },
  __Directive: { name: 0, description: 0, locations: 0, args: ["__InputValue", true], isRepeatable: 0 },
};
/** full: {data: {__schema}}. Returns the response object. */
function execute(full, query, variables, operationName) {
  let doc;
  const fail = (m) => ({ errors: [{ message: m }] });
  try { doc = parse(query); } catch (e) { return fail(e.message); }
  const ops = doc.ops.filter((o) => !operationName || o.name === operationName);
  if (ops.length !== 1) return fail("Must provide operation name");
  const vars = { ...ops[0].defaults, ...(variables || {}) };
  const byName = new Map(full.data.__schema.types.map((t) => [t.name, t]));
  const val = (v) => (v.var !== undefined ? vars[v.var] : v.lit);
  let bad = null;
  const included = (d) => d.every((x) => (x.n === "skip" ? !val(x.a.if) : x.n === "include" ? !!val(x.a.if) : true));
  function collect(sel, ty, out, seen) {
    for (const s of sel) {
      if (!included(s.d)) continue;
      if (s.spread !== undefined) {
        const f = doc.frags[s.spread];
        if (!f) { bad = bad || `Unknown fragment "${s.spread}".`; continue; }
        if (seen.includes(s.spread)) { bad = bad || `Cannot spread fragment "${s.spread}" within itself.`; continue; }
        if (!TYPES[f.on]) { bad = bad || `Unknown type "${f.on}".`; continue; }
        if (f.on === ty) collect(f.sel, ty, out, [...seen, s.spread]);
      } else if (!s.name) {
        if (!s.on || s.on === ty) collect(s.sel, ty, out, seen);
      } else {
        const e = out.get(s.alias);
        if (!e) out.set(s.alias, { ...s, sel: s.sel ? [...s.sel] : null, seen });
        else if (e.sel && s.sel) e.sel.push(...s.sel);
      }
    }
    return out;
  }
  function complete(sel, ty, obj, seen) {
    const r = {};
    for (const [k, s] of collect(sel, ty, new Map(), seen)) {
      if (s.name === "__typename") { r[k] = ty; continue; }
      const def = TYPES[ty][s.name];
      if (def === undefined) { bad = bad || `Cannot query field "${s.name}" on type "${ty}".`; continue; }
      if (def === 0) {
        if (s.sel) { bad = bad || `Field "${s.name}" must not have a selection`; continue; }
        r[k] = obj[s.name] === undefined ? null : obj[s.name];
        continue;
      }
      if (!s.sel) { bad = bad || `Field "${s.name}" of type "${def[0]}" must have a selection of subfields.`; continue; }
      let v = ty === "Query" ? (s.name === "__schema" ? full.data.__schema : byName.get(val(s.args.name || { lit: "" }))) : obj[s.name];
      // A reference to a named type is the type itself.
      if (v && !Array.isArray(v) && def[0] === "__Type" && v.name && !v.fields && byName.has(v.name)) v = byName.get(v.name);
      if (v === undefined || v === null) { r[k] = null; continue; }
      if (def[1]) {
        const incl = s.args.includeDeprecated ? val(s.args.includeDeprecated) : false;
        const list = ["__Field", "__EnumValue", "__InputValue"].includes(def[0]) ? v.filter((x) => incl || !x.isDeprecated) : v;
        r[k] = list.map((x) => complete(s.sel, def[0], def[0] === "__Type" && x.name && byName.has(x.name) ? byName.get(x.name) : x, s.seen));
      } else r[k] = complete(s.sel, def[0], v, s.seen);
    }
    return r;
  }
  const data = complete(ops[0].sel, "Query", {}, []);
  return bad ? fail(bad) : { data };
}
module.exports = { execute };

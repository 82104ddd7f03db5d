"use strict";
// One JSON line in: the declaration files of a project and what a client expects of its documents; one out: what
// TypeScript says about them, used together with the packaged typings.
const fs = require("fs");
const path = require("path");
const REPO = process.env.QLC_REPO || "/repo";
let ts;
for (const p of ["typescript", "/opt/veriftools/node/node_modules/typescript"]) {
  try { ts = require(p); break; } catch (e) { /* the next one */ }
}
const PKG = path.join(REPO, "pkg/npm");
const GRAPHQL = `export interface Location { readonly start: number; readonly end: number }
export interface DefinitionNode { readonly kind: string; readonly loc?: Location }
export interface DocumentNode { readonly kind: "Document"; readonly loc?: Location; readonly definitions: ReadonlyArray<DefinitionNode> }
`;
const HELP = `export type Same<A, B> = (<T>() => T extends A ? 1 : 2) extends (<T>() => T extends B ? 1 : 2) ? true : false;
`;
const cache = new Map();
function real(name) {
  if (!cache.has(name)) {
    const t = ts.sys.readFile(name);
    cache.set(name, t === undefined ? undefined : ts.createSourceFile(name, t, { languageVersion: ts.ScriptTarget.ES2020 }));
  }
  return cache.get(name);
}
const LIB = ts && path.dirname(ts.getDefaultLibFilePath({}));
/** The declarations of a module of the npm package, by the package's own word. */
function packaged(spec) {
  const pj = JSON.parse(fs.readFileSync(path.join(PKG, "package.json"), "utf8"));
  if (spec !== pj.name && !spec.startsWith(pj.name + "/")) return undefined;
  const sub = "." + spec.slice(pj.name.length);
  let e = pj.exports ? pj.exports[sub] : sub === "." ? pj.main : sub;
  let types = sub === "." ? pj.types : undefined;
  if (e && typeof e === "object") { types = e.types || types; e = e.default || e.require || e.import; }
  if (!e) return undefined;
  const f = path.join(PKG, types || e.replace(/\.js$/, ".d.ts"));
  return fs.existsSync(f) ? f : undefined;
}
/** The text of the client: q.docs has {path, kind, data, vars}. */
function client(q) {
  const s = JSON.stringify;
  const lines = ['import type { Same } from "./__help";', `import type { DataOf, VariablesOf, QueryDocumentNode, MutationDocumentNode, FragmentDocumentNode, SubscriptionDocumentNode } from ${s(q.typings)};`];
  lines.push("declare function query<D extends Record<string, unknown>, V extends Record<string, unknown>>(d: QueryDocumentNode<D, V>, v: V): D;");
  lines.push("declare function mutate<D extends Record<string, unknown>, V extends Record<string, unknown>>(d: MutationDocumentNode<D, V>, v: V): D;");
  lines.push("declare function read<D extends Record<string, unknown>>(d: FragmentDocumentNode<D>): D;");
  // The typings by themselves, for every kind of document.
  lines.push("type Td = { a: number; b: { c: string | null }[] }; type Tu = { k: 'A'; x: number } | { k: 'B' }; type Tv = { y?: string | null; z: number };");
  const yes = [];
  for (const k of ["Query", "Mutation", "Subscription"]) for (const d of ["Td", "Tu"]) for (const v of ["Tv", "never"]) yes.push(`Same<DataOf<${k}DocumentNode<${d}, ${v}>>, ${d}>`, `Same<VariablesOf<${k}DocumentNode<${d}, ${v}>>, ${v}>`);
  for (const d of ["Td", "Tu"]) yes.push(`Same<DataOf<FragmentDocumentNode<${d}>>, ${d}>`, `Same<VariablesOf<FragmentDocumentNode<${d}>>, never>`);
  yes.forEach((t, i) => lines.push(`const y${i}: ${t} = true;`));
  q.docs.forEach((d, i) => {
    lines.push(`import d${i} from ${s("./" + d.path)};`);
    lines.push(`import type { ${d.data} as D${i}${d.vars ? `, ${d.vars} as V${i}` : ""} } from ${s("./" + d.path)};`);
    lines.push(`const e${i}: Same<DataOf<typeof d${i}>, D${i}> = true;`);
    lines.push(`const f${i}: Same<VariablesOf<typeof d${i}>, ${d.vars ? `V${i}` : "never"}> = true;`);
    const v = d.vars ? `null! as V${i}` : "null! as never";
    if (d.kind === "query") lines.push(`const r${i}: D${i} = query(d${i}, ${v});`);
    if (d.kind === "mutation") lines.push(`const r${i}: D${i} = mutate(d${i}, ${v});`);
    if (d.kind === "fragment") lines.push(`const r${i}: D${i} = read(d${i});`);
  });
  return lines.join("\n");
}
function check(q) {
  // A module name with a dot in it names the file as it is; how a bundler finds it is up to the client.
  const g = /\.ts$/.test(q.globalsPath) ? q.globalsPath : q.globalsPath + ".ts";
  const files = new Map(Object.entries(q.files).map(([k, v]) => ["/p/" + (k === q.globalsPath ? g : k), v]));
  files.set("/p/__help.ts", HELP);
  files.set("/n/graphql.d.ts", GRAPHQL);
  if (q.ambient) files.set("/p/__ambient.d.ts", q.ambient);
  files.set("/p/__client.ts", client(q));
  const made = new Map();
  const options = { strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler, lib: ["lib.es5.d.ts"], types: [], isolatedModules: true, verbatimModuleSyntax: true };
  const get = (f) => {
    if (!files.has(f)) return real(f);
    if (!made.has(f)) made.set(f, ts.createSourceFile(f, files.get(f), { languageVersion: ts.ScriptTarget.ES2020 }));
    return made.get(f);
  };
  const resolve = (spec, from) => {
    if (spec === "graphql") return "/n/graphql.d.ts";
    if (spec === q.globals) return "/p/" + g;
    if (spec === q.typings) return packaged(q.typings) || packaged("@notarize/qlc-cli/typed-documentnode");
    if (/^\.\.?\//.test(spec)) {
      const at = path.posix.join(path.posix.dirname(from), spec);
      return [`${at}.ts`, `${at}.d.ts`, `${at}/index.d.ts`].find((f) => files.has(f) || (from.startsWith(PKG) && fs.existsSync(f)));
    }
    return packaged(spec);
  };
  const host = {
    getSourceFile: get, getDefaultLibFileName: () => path.join(LIB, "lib.es5.d.ts"), getDefaultLibLocation: () => LIB,
    writeFile() {}, getCurrentDirectory: () => "/p", getCanonicalFileName: (f) => f, useCaseSensitiveFileNames: () => true, getNewLine: () => "\n",
    fileExists: (f) => files.has(f) || ts.sys.fileExists(f), readFile: (f) => files.get(f) || ts.sys.readFile(f), directoryExists: () => true, getDirectories: () => [],
    resolveModuleNameLiterals: (lits, from) => lits.map((l) => {
      const f = resolve(l.text, from);
      return { resolvedModule: f && (files.has(f) || fs.existsSync(f)) ? { resolvedFileName: f, extension: f.endsWith(".d.ts") ? ".d.ts" : ".ts", isExternalLibraryImport: false } : undefined };
    }),
  };
  const roots = ["/p/__client.ts", ...[...files.keys()].filter((f) => f.startsWith("/p/") && f !== "/p/__client.ts")];
  const p = ts.createProgram(roots, options, host);
  const out = [];
  for (const d of [...p.getOptionsDiagnostics(), ...p.getSyntacticDiagnostics(), ...p.getGlobalDiagnostics(), ...p.getSemanticDiagnostics()]) {
    if (d.code === 1149 || d.code === 1261) continue; // file names that differ in case only are the user's choice
    if (d.code === 6137) continue; // "@types/" as the prefix of imports is the client's choice
    const where = d.file ? d.file.fileName.replace(/^\/p\//, "") : "";
    const line = d.file ? d.file.text.split("\n")[d.file.getLineAndCharacterOfPosition(d.start).line] : "";
    out.push(`${where}: TS${d.code} ${ts.flattenDiagnosticMessageText(d.messageText, " ")} [${line.slice(0, 160)}]`);
  }
  // What is wrong with the declarations themselves comes first.
  return { errors: [...out.filter((e) => !e.startsWith("__client")), ...out.filter((e) => e.startsWith("__client"))] };
}
require("readline").createInterface({ input: process.stdin }).on("line", (l) => {
  let r;
  try {
    if (!ts) throw new Error("no TypeScript");
    r = check(JSON.parse(l));
  } catch (e) { r = { trouble: String(e && e.stack) }; }
  process.stdout.write(JSON.stringify(r) + "\n");
});

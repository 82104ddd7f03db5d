"use strict";
// Stands for the programs that talk to GitHub and to the npm registry. The two services are the directory "world".
const fs = require("fs");
const path = require("path");
const { createHash } = require("crypto");
const ctl = process.env.QLCREL;
const world = path.join(ctl, "..", "world");
const [, , tool, ...argv] = process.argv;
const partial = process.env.QLCREL_PARTIAL === undefined ? null : Number(process.env.QLCREL_PARTIAL);
const load = () => JSON.parse(fs.readFileSync(path.join(world, "state.json"), "utf8"));
const save = (w) => { fs.writeFileSync(path.join(world, "state.new"), JSON.stringify(w)); fs.renameSync(path.join(world, "state.new"), path.join(world, "state.json")); };
const fail = (m) => { console.error(`${tool}: ${m}`); process.exit(1); };
const put = (b) => {
  const h = createHash("sha256").update(b).digest("hex");
  const f = path.join(world, "store", h);
  if (!fs.existsSync(f)) fs.writeFileSync(f, b);
  return h;
};
/** Flags in the style of Go (-x v, --x=v) and of everybody else. */
function parse(valued) {
  const flags = {}, rest = [];
  for (let i = 0; i < argv.length; i++) {
    const m = /^--?([^=]+)(?:=(.*))?$/s.exec(argv[i]);
    if (!m) { rest.push(argv[i]); continue; }
    if (m[2] !== undefined) flags[m[1]] = m[2];
    else if (valued.includes(m[1])) flags[m[1]] = argv[++i];
    else flags[m[1]] = true;
  }
  return { flags, rest };
}
const SEMVER = /^(0|[1-9]\d*)\.(0|[1-9]\d*)\.(0|[1-9]\d*)(-[0-9A-Za-z-]+(\.[0-9A-Za-z-]+)*)?$/;

if (tool === "ghr") {
  const { flags, rest } = parse(["t", "token", "u", "username", "r", "repository", "c", "commitish", "n", "name", "b", "body", "p", "parallel"]);
  if (rest.length !== 2) fail("two arguments are needed: tag and path");
  const token = flags.t || flags.token || process.env.GITHUB_TOKEN;
  if (token !== process.env.QLCREL_GH) fail("401 bad credentials");
  const [tag, p] = rest;
  if (!tag) fail("no tag");
  if (!fs.existsSync(p)) fail(`no such file or directory: ${p}`);
  const files = fs.statSync(p).isDirectory() ? fs.readdirSync(p).sort().map((f) => path.join(p, f)).filter((f) => fs.statSync(f).isFile()) : [p];
  if (!files.length) fail("no files to upload");
  const w = load();
  let rel = w.releases[tag];
  if (rel && flags.soft) fail("the release exists");
  if (rel && (flags.delete || flags.recreate)) { delete w.releases[tag]; rel = null; save(w); }
  if (!rel) rel = w.releases[tag] = { name: flags.n || flags.name || tag, commit: flags.c || flags.commitish || "", prerelease: !!flags.prerelease, draft: !!flags.draft, assets: {} };
  save(w);
  let k = 0;
  for (const f of files) {
    if (partial !== null && k++ >= partial % (files.length + 1)) fail("connection reset by peer");
    const n = path.basename(f);
    if (rel.assets[n] && !flags.replace) fail(`422 already_exists ${n}`);
    rel.assets[n] = put(fs.readFileSync(f));
    save(w);
  }
} else if ((tool === "yarn" || tool === "npm") && argv.includes("publish")) {
  const { flags, rest } = parse(["new-version", "tag", "access", "registry", "otp"]);
  if (!fs.existsSync(path.join(process.env.HOME, ".npmrc")) || !fs.readFileSync(path.join(process.env.HOME, ".npmrc"), "utf8").includes(process.env.QLCREL_NPM)) fail("401 you must be logged in");
  const dir = path.resolve(rest[1] || ".");
  let pj;
  try { pj = JSON.parse(fs.readFileSync(path.join(dir, "package.json"), "utf8")); } catch (e) { fail(String(e)); }
  if (flags["new-version"] !== undefined && tool === "yarn") pj.version = flags["new-version"];
  if (!SEMVER.test(pj.version)) fail(`invalid version ${pj.version}`);
  const w = load();
  const key = `${pj.name}@${pj.version}`;
  if (w.packages[key]) fail("403 you cannot publish over the previously published versions");
  if (partial !== null) fail("connection reset by peer");
  const files = {};
  const add = (f) => {
    const full = path.join(dir, f);
    if (!fs.existsSync(full)) return;
    if (fs.statSync(full).isDirectory()) fs.readdirSync(full).forEach((x) => add(path.join(f, x)));
    else files[f] = put(fs.readFileSync(full));
  };
  for (const f of fs.readdirSync(dir)) if (/^(readme|license|licence|changelog)/i.test(f)) add(f);
  (pj.files || fs.readdirSync(dir)).forEach(add);
  if (pj.main) add(path.normalize(pj.main));
  files["package.json"] = put(Buffer.from(JSON.stringify(pj)));
  w.packages[key] = { name: pj.name, version: pj.version, access: flags.access || "restricted", files };
  w.tags[pj.name] = w.tags[pj.name] || {};
  w.tags[pj.name][flags.tag || "latest"] = pj.version;
  save(w);
  console.log(`+ ${key}`);
} else if (tool === "yarn" || tool === "npm") {
  // installing, linting and the like
} else if (tool === "git") {
  if (argv[0] === "rev-parse") console.log(process.env.CIRCLE_SHA1);
} else fail("there is no network here");

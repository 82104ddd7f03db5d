"use strict";
// C25: the release pipeline. The real .circleci/config.yml and its scripts run under real bash, in containers that are
// scratch directories of an unprivileged user; GitHub, the registry, cargo, nix and the compiled binaries are simulated.
const fs = require("fs");
const path = require("path");
const { createHash } = require("crypto");
const { spawn, spawnSync } = require("child_process");
const { Sim, Rng, Trouble, response } = require("./sim");

const REPO = process.env.QLC_REPO || "/repo";
const BUILD = path.join(__dirname, "../.build");
const UID = 65534;
const TARGETS = { "darwin-x64": "x86_64-apple-darwin", "darwin-arm64": "aarch64-apple-darwin", "linux-x64": "x86_64-unknown-linux-musl", "linux-arm64": "aarch64-unknown-linux-musl" };
const HOSTED = "x86_64-unknown-linux-musl"; // what the release jobs themselves can run
const TOOLS = "tar sha256sum sha512sum shasum openssl tee sed grep egrep fgrep awk gawk mawk cut head tail cat cp mv ln rm mkdir mktemp ls find xargs sort uniq tr gzip gunzip zcat jq touch chmod basename dirname wc date install perl python3 printf env cargo ghr yarn npm npx nix just git curl wget gh".split(" ").filter((t) => t !== "env" && t !== "npx");
const GH = "ghp_Secret0Token", NPM = "npm_Secret0Token";
const sha = (b) => createHash("sha256").update(b).digest("hex");
const base = `${fs.existsSync("/dev/shm") ? "/dev/shm" : "/tmp"}/qlcdst-rel-${process.pid}`;
const own = (f) => fs.chownSync(f, UID, UID);
const mk = (d) => { fs.mkdirSync(d, { recursive: true }); own(d); };
const clear = () => fs.rmSync(base, { recursive: true, force: true });
process.on("exit", clear);

function yaml() {
  for (const p of ["js-yaml", "/opt/veriftools/node/node_modules/js-yaml"]) {
    try { return require(p); } catch (e) { /* the next one */ }
  }
  return null;
}
let ciCache = null;
function config() {
  if (ciCache) return ciCache;
  const f = path.join(REPO, ".circleci/config.yml");
  const y = yaml();
  if (!y) throw new Trouble("no YAML reader");
  return (ciCache = y.load(fs.readFileSync(f, "utf8")));
}
let verLine = null;
/** What the real compiler says for --version, with another version in it. */
function versionLine(v) {
  if (!verLine) {
    const r = spawnSync(path.join(BUILD, "qlc-target/x86_64-unknown-linux-gnu/debug/qlc"), ["--version"], { env: { LD_PRELOAD: path.join(BUILD, "libqlcsim.so") } });
    const m = /^version = "([^"]*)"/m.exec(fs.readFileSync(path.join(REPO, "Cargo.toml"), "utf8"));
    verLine = { text: r.stdout.toString(), cargo: m ? m[1] : "" };
    if (r.status !== 0 || !verLine.text.includes(verLine.cargo)) throw new Trouble(`--version: ${r.status} ${verLine.text}`);
  }
  return verLine.text.replace(verLine.cargo, v);
}
function copyTree(from, to, skip) {
  const st = fs.lstatSync(from);
  if (st.isDirectory()) {
    mk(to);
    for (const n of fs.readdirSync(from)) if (!(skip && skip(n))) copyTree(path.join(from, n), path.join(to, n));
  } else if (st.isSymbolicLink()) {
    if (!fs.existsSync(to)) fs.symlinkSync(fs.readlinkSync(from), to);
  } else {
    fs.copyFileSync(from, to);
    fs.chmodSync(to, st.mode & 0o777);
    fs.utimesSync(to, st.atime, st.mtime);
    own(to);
  }
}
function binary(target, seed, size) {
  if (target === HOSTED || target === "host") return Buffer.concat([fs.readFileSync(path.join(BUILD, "reltool")), Buffer.from(`\n${target} ${seed}`)]);
  const r = new Rng(seed + target.length * 7 + target.charCodeAt(0));
  const b = Buffer.alloc(size + 16);
  for (let i = 16; i < b.length; i++) b[i] = r.below(256);
  b.write(target.includes("darwin") ? "\xcf\xfa\xed\xfe\0\0" : "\x7fELF\0\0", "latin1");
  return b;
}

// ---------------------------------------------------------------- plans
function gen(seed) {
  const r = new Rng(seed);
  const num = () => r.pick([0, 1, 2, 9, 10, 23]);
  const version = (i) => `${i * 30 + num()}.${num()}.${num()}${r.pick(["", "", "-alpha.1", "-beta.2", "-alpha", "-beta1"])}`;
  const plan = { prop: "C25", seed, sched: r.pct(40) ? 0 : r.next(), size: r.pick([10, 3000]), pipes: [], faults: [], conns: [], order: r.next() };
  const n = r.pct(25) ? 2 : 1;
  for (let i = 0; i < n; i++) {
    const v = version(i + 1);
    plan.pipes.push({ version: v, branch: r.pct(6) ? r.pick(["main", "feature/x", "prod", "production-2"]) : v.includes("-") ? "prerelease" : "production", sha: sha(Buffer.from(`commit ${seed} ${i}`)).slice(0, 40) });
  }
  // What each job starts; a job that is rerun comes later in the order of its pipeline.
  const uses = [
    [["nix", 4], ["just", 3], ["cargo", 1]],
    [["cargo", 4]],
    [["qlc", 1], ["sed", 1], ["mkdir", 1], ["tar", 4], ["tar", 4], ["gzip", 4], ["sha256sum", 1], ["sha256sum", 1], ["tee", 1], ["tee", 1], ["ls", 1], ["ghr", 1], ["ghr", 1]],
    [["qlc", 1], ["sed", 6], ["sed", 6], ["grep", 4], ["grep", 4], ["yarn", 1], ["yarn", 1]],
  ];
  if (r.pct(80)) {
    for (let k = r.range(1, 3); k > 0; k--) {
      const job = r.pick([0, 1, 1, 2, 2, 2, 2, 3, 3, 3]);
      const any = r.pct(25);
      const [tool, most] = any ? ["*", [7, 4, 17, 14][job]] : r.pick(uses[job]);
      if (r.pct(10)) { plan.faults.push({ pipe: r.below(n), job, tool: "bash", nth: r.pick([1, 1, 2, 3]), how: "partial", arg: 0 }); continue; }
      const how = any ? r.pick(["lost", "lost", "fail", "die", "partial"]) : r.pick(["fail", "die", "partial", "partial", "after", "lost"]);
      plan.faults.push({ pipe: r.below(n), job: job + (r.pct(20) ? r.range(1, 2) : 0), tool, nth: r.range(1, most), how, arg: how === "fail" ? r.pick([1, 2, 101]) : r.pick([0, 1, 3, 11, 70, 99, 200]) });
    }
  }
  return plan;
}

// ---------------------------------------------------------------- continuous integration
function prepare(plan) {
  clear();
  fs.mkdirSync(base, { mode: 0o755 });
  for (const d of ["tools", "world", "world/store", "layers", "pkgs"]) mk(path.join(base, d));
  fs.copyFileSync(path.join(BUILD, "reltool"), `${base}/tools/reltool`);
  fs.copyFileSync(path.join(BUILD, "relgate.so"), `${base}/tools/relgate.so`);
  fs.chmodSync(`${base}/tools/reltool`, 0o755);
  for (const t of TOOLS) fs.symlinkSync("reltool", `${base}/tools/${t}`);
  fs.writeFileSync(`${base}/world/state.json`, JSON.stringify({ releases: {}, packages: {}, tags: {} }));
  own(`${base}/world/state.json`);
}
const wrap = (o) => (o === undefined || o === null ? [] : Array.isArray(o) ? o : [o]);
function jobsOf(pipe) {
  const c = config();
  const out = [];
  for (const [, wf] of Object.entries(c.workflows || {})) {
    if (!wf || typeof wf !== "object") continue;
    for (const j of wf.jobs || []) {
      const name = typeof j === "string" ? j : Object.keys(j)[0];
      const o = (typeof j === "string" ? {} : j[name]) || {};
      const match = (x) => wrap(x).some((b) => { const m = /^\/(.*)\/$/.exec(b); return m ? new RegExp(`^(?:${m[1]})$`).test(pipe.branch) : b === pipe.branch; });
      const br = (o.filters || {}).branches || {};
      if (br.only !== undefined && !match(br.only)) continue;
      if (br.ignore !== undefined && match(br.ignore)) continue;
      out.push({ name: o.name || name, def: c.jobs[name], requires: wrap(o.requires), params: o, state: "waiting", layers: null, runs: 0 });
    }
  }
  return out;
}
const isCheck = (j) => /\b(lint|test|clippy)\b/.test(JSON.stringify((j.def || {}).steps || []));
function globPaths(root, rel) {
  let dirs = [root];
  for (const part of rel.split("/").filter((x) => x && x !== ".")) {
    const next = [];
    for (const d of dirs) {
      if (/[*?]/.test(part)) {
        const re = new RegExp(`^${part.replace(/[.+^${}()|[\]\\]/g, "\\$&").replace(/\*/g, ".*").replace(/\?/g, ".")}$`);
        if (fs.existsSync(d) && fs.statSync(d).isDirectory()) for (const n of fs.readdirSync(d).sort()) if (re.test(n)) next.push(path.join(d, n));
      } else if (fs.existsSync(path.join(d, part))) next.push(path.join(d, part));
    }
    dirs = next;
  }
  return dirs;
}

class Run {
  constructor(plan) {
    this.plan = plan;
    this.trace = [];
    this.hash = createHash("sha1");
    this.counts = {};
    this.events = 0;
    this.leak = null;
    this.n = 0;
  }
  note(s) { this.trace.push(s); this.hash.update(s + "\n"); this.events++; }
  world() { return JSON.parse(fs.readFileSync(`${base}/world/state.json`, "utf8")); }
  /** Executes one job in a fresh container. */
  async job(pi, pipe, job) {
    const c = config();
    const dir = `${base}/job${this.n++}`;
    const ctl = `${dir}-ctl`;
    [dir, `${dir}/opt`, `${dir}/etc/nix`, `${dir}/home`, `${dir}/tmp`, ctl, `${ctl}/bins`].forEach(mk);
    own(`${dir}/etc`);
    const index = pipe.executed++;
    const faults = this.plan.faults.filter((f) => f.pipe === pi && f.job === index);
    fs.writeFileSync(`${ctl}/faults`, faults.map((f) => `${f.tool} ${f.nth} ${f.how} ${f.arg}\n`).join(""));
    fs.writeFileSync(`${ctl}/version`, versionLine(pipe.version));
    for (const [t, b] of Object.entries(pipe.bins)) { fs.writeFileSync(`${ctl}/bins/${t}`, b); fs.chmodSync(`${ctl}/bins/${t}`, 0o755); }
    fs.copyFileSync(path.join(__dirname, "relstub.js"), `${ctl}/stub.js`);
    const full = faults.find((f) => f.tool === "bash");
    const ex = typeof job.def.executor === "string" ? job.def.executor : (job.def.executor || {}).name;
    const exec = (c.executors || {})[ex] || {};
    const at = (p) => String(p).replace(/(^|[\s"'=:(>])(~|\/(?:opt|etc|home|tmp|root))(?=\/|\b|$)/g, (m, a, b) => a + (b === "~" ? `${dir}/home` : b === "/root" ? `${dir}/home` : dir + b));
    const wd = at(job.def.working_directory || exec.working_directory || "/home/circleci/project");
    mk(wd);
    let env = { PATH: `${base}/tools:/usr/bin:/bin`, HOME: `${dir}/home`, TMPDIR: `${dir}/tmp`, LANG: "C", LC_ALL: "C", CI: "true", CIRCLECI: "true", CIRCLE_WORKING_DIRECTORY: wd, CIRCLE_SHA1: pipe.sha, CIRCLE_BRANCH: pipe.branch, GITHUB_TOKEN: GH, NOTARBOT_NPM_TOKEN: NPM,
      QLCREL: ctl, QLCREL_GH: GH, QLCREL_NPM: NPM, QLCREL_SCHED: String(this.plan.sched), LD_PRELOAD: `${base}/tools/relgate.so`, BASH_ENV: "" };
    if (full) env.QLCREL_FULL = String(full.nth);
    for (const e of [exec.environment, job.def.environment]) for (const [k, v] of Object.entries(e || {})) env[k] = at(v);
    const steps = [];
    const expand = (list, params) => {
      for (const s of list || []) {
        const k = typeof s === "string" ? s : Object.keys(s)[0];
        const v = typeof s === "string" ? {} : s[k];
        if ((c.commands || {})[k]) {
          const p = {};
          for (const [n, d] of Object.entries(c.commands[k].parameters || {})) p[n] = d.default;
          expand(c.commands[k].steps, { ...p, ...v });
        } else steps.push({ k, v, params });
      }
    };
    expand(job.def.steps, {});
    let ok = true, lost = false;
    const kept = [];
    for (const { k, v, params } of steps) {
      const sub = (t) => String(t).replace(/<<\s*parameters\.(\w+)\s*>>/g, (m, n) => (params[n] !== undefined ? params[n] : m));
      if (lost) break;
      if (!ok && !(v && v.when === "always")) continue;
      if (v && v.when === "on_fail" && ok) continue;
      if (k === "checkout") copyTree(REPO, wd, (n) => [".git", "target", "tests", "src"].includes(n));
      else if (k === "attach_workspace") {
        for (const l of job.layers) copyTree(l, at(v.at));
      } else if (k === "persist_to_workspace") {
        const root = at(v.root);
        const layer = `${base}/layers/${this.n}-${kept.length}`;
        mk(layer);
        for (const p of wrap(v.paths)) {
          const found = globPaths(root, p);
          if (!found.length) { ok = false; this.note(`  persist ${p}: no such path`); }
          for (const f of found) {
            const to = path.join(layer, path.relative(root, f));
            mk(path.dirname(to));
            for (let d = path.dirname(to); d.length > layer.length; d = path.dirname(d)) own(d);
            copyTree(f, to);
          }
        }
        kept.push(layer);
      } else if (k === "run") {
        const cmd = typeof v === "string" ? v : v.command;
        const file = `${dir}/tmp/step`;
        fs.writeFileSync(file, at(sub(cmd)));
        own(file);
        const shell = (v && v.shell) || job.def.shell || exec.shell || "/bin/bash -eo pipefail";
        const cwd = v && v.working_directory ? path.resolve(wd, at(v.working_directory)) : wd;
        const e2 = { ...env };
        for (const [n, x] of Object.entries((v && v.environment) || {})) e2[n] = at(x);
        const r = await this.sh(`exec ${shell} ${file}`, cwd, e2);
        if (r.out.includes(GH) || r.out.includes(NPM)) this.leak = `job ${job.name} prints a token`;
        this.note(`  run ${(v && v.name) || cmd.trim().split("\n")[0]}: ${r.code}${r.signal ? " " + r.signal : ""}`);
        const fired = fs.existsSync(`${ctl}/fired`) ? fs.readFileSync(`${ctl}/fired`, "utf8") : "";
        if (r.signal) lost = true;
        if (r.code !== 0) { ok = false; if (!fired) this.say = r.out.slice(-600); }
      }
    }
    const fired = fs.existsSync(`${ctl}/fired`) ? fs.readFileSync(`${ctl}/fired`, "utf8").trim().split("\n") : [];
    for (const f of fired) { const [t, , how] = f.split(" "); const key = `${how} of ${t === "*" ? "any tool" : t}`; this.counts[key] = (this.counts[key] || 0) + 1; this.note(`  fault ${f}`); }
    job.calls = fs.existsSync(`${ctl}/calls`) ? fs.readFileSync(`${ctl}/calls`, "utf8").trim().split("\n") : [];
    for (const l of job.calls) this.note(`  ${l.split(base).join("").slice(0, 300)}`);
    job.fired = fired;
    for (const f of fired) { const x = this.plan.faults.findIndex((p) => p.pipe === pi && p.job === index && `${p.tool} ${p.nth} ${p.how} ${p.arg}` === f); if (x >= 0) this.firedSet.add(x); }
    fs.rmSync(dir, { recursive: true, force: true });
    fs.rmSync(ctl, { recursive: true, force: true });
    return { ok: ok && !lost, kept };
  }
  sh(cmd, cwd, env) {
    return new Promise((resolve, reject) => {
      let out = "";
      const c = spawn("/bin/bash", ["-c", cmd], { cwd, env, uid: UID, gid: UID, detached: true, stdio: ["ignore", "pipe", "pipe"] });
      const t = setTimeout(() => { out += "\n(no end)"; try { process.kill(-c.pid, "SIGKILL"); } catch (e) { /* gone */ } }, 60000);
      c.stdout.on("data", (d) => { out += d; });
      c.stderr.on("data", (d) => { out += d; });
      c.on("error", (e) => reject(new Trouble(`cannot start the job: ${e.message}`)));
      c.on("exit", (code, signal) => {
        clearTimeout(t);
        try { process.kill(-c.pid, "SIGKILL"); } catch (e) { /* gone */ }
        setImmediate(() => { c.stdout.destroy(); c.stderr.destroy(); resolve({ code, signal, out }); });
      });
    });
  }
  async run() {
    const plan = this.plan;
    this.firedSet = new Set();
    prepare(plan);
    const rng = new Rng(plan.order || 1);
    const pipes = plan.pipes.map((p, i) => {
      const x = { ...p, executed: 0, bins: {} };
      for (const t of Object.values(TARGETS).concat(["host"])) { x.bins[t] = binary(t, plan.seed + i * 100, plan.size); x.bins[`${t}-debug`] = Buffer.concat([x.bins[t], Buffer.from("debug")]); }
      x.jobs = jobsOf(p);
      return x;
    });
    this.pipes = pipes;
    for (let attempt = 0; attempt < 4; attempt++) {
      for (;;) {
        const ready = [];
        pipes.forEach((p, pi) => p.jobs.forEach((j) => {
          if (j.state === "waiting" && j.requires.every((n) => p.jobs.some((x) => x.name === n && x.state === "done"))) ready.push([pi, p, j]);
        }));
        if (!ready.length) break;
        const [pi, p, j] = ready[rng.below(ready.length)];
        const up = [];
        const walk = (n) => { const x = p.jobs.find((y) => y.name === n); if (x && !up.includes(x)) { x.requires.forEach(walk); up.push(x); } };
        j.requires.forEach(walk);
        j.layers = up.flatMap((x) => x.kept || []);
        this.note(`pipeline ${pi} ${p.version} on ${p.branch}: ${j.name}`);
        const r = await this.job(pi, p, j);
        j.runs++;
        j.state = r.ok ? "done" : "failed";
        j.kept = r.kept;
        this.note(`  ${j.state}`);
        const bad = this.invariants(pipes);
        if (bad) return bad;
      }
      // Rerun from failed.
      let again = false;
      pipes.forEach((p) => p.jobs.forEach((j) => { if (j.state === "failed") { j.state = "waiting"; again = true; } }));
      if (!again) break;
      this.note("rerun from failed");
    }
    return this.final(pipes);
  }
  asset(h) { return fs.readFileSync(`${base}/world/store/${h}`); }
  binOf(h) {
    // The installer unpacks with tar xf archive -C bin.
    this.cache = this.cache || new Map();
    if (!this.cache.has(h)) {
      const d = `${base}/pkgs/tar-${h}`;
      mk(d);
      const r = spawnSync("/usr/bin/tar", ["xf", `${base}/world/store/${h}`, "-C", d], { uid: UID, gid: UID });
      const f = `${d}/qlc`;
      this.cache.set(h, r.status === 0 && fs.existsSync(f) && fs.lstatSync(f).isFile() ? fs.readFileSync(f) : null);
    }
    return this.cache.get(h);
  }
  invariants(pipes) {
    const bad = (tag, text) => ({ tag, text });
    const w = this.world();
    // The list of archives has the container's own paths in it.
    const stable = JSON.stringify(w, (k, v) => (k === "checksums.txt" ? sha(this.asset(v).toString().split(base).join("").replace(/\/job\d+\//g, "/")) : v));
    this.note(`  world ${stable}`);
    if (this.leak) return bad("leak", this.leak);
    for (const [k, p] of Object.entries(w.packages)) {
      const pipe = pipes.find((x) => x.version === p.version);
      if (!pipe) return bad("version", `${k} is published, but no such version was built`);
      if (!["production", "prerelease"].includes(pipe.branch)) return bad("branch", `${k} is published from branch ${pipe.branch}`);
      if (p.access !== "public") return bad("access", `${k} is published with access ${p.access}`);
      if (Object.values(p.files).some((h) => { const b = this.asset(h); return b.includes(GH) || b.includes(NPM); })) return bad("leak", `${k} contains a token`);
      const pre = /-(alpha|beta)/.exec(p.version);
      const rel = w.releases[p.version];
      if (!rel) return bad("no-release", `${k} is on npm without a GitHub release of that version`);
      if (rel.draft) return bad("draft", `the release of ${k} is a draft`);
      const pj = JSON.parse(this.asset(p.files["package.json"]).toString());
      for (const t of Object.values(TARGETS)) {
        const n = `qlc-${p.version}-${t}.tar.gz`;
        const h = rel.assets[n];
        if (!h) return bad("no-archive", `${k} is on npm but the release has no ${n}`);
        const want = (pj.checksumConfig || {})[t];
        if (want !== h) return bad("checksum", `${k} records ${String(want).slice(0, 20)} for ${t}, the archive has ${h.slice(0, 20)}`);
        const b = this.binOf(h);
        if (!b || !b.equals(pipe.bins[t])) return bad("archive", `${n} ${b ? "holds another binary" : "does not unpack to qlc"}`);
      }
      for (const f of [pj.main, pj.types, ...Object.values(pj.bin || {}), ...Object.values(pj.exports || {}).filter((x) => typeof x === "string")].filter(Boolean)) if (!p.files[path.normalize(f)]) return bad("package", `${k} lacks ${f}`);
      for (const [tag, v] of Object.entries(w.tags[p.name] || {})) if (v === p.version && tag !== (pre ? pre[1] : "latest")) return bad("dist-tag", `${k} is published as ${tag}`);
    }
    for (const [tag, rel] of Object.entries(w.releases)) {
      const pipe = pipes.find((x) => x.version === tag);
      if (!pipe) return bad("tag", `a release ${tag} of no such version`);
      if (!["production", "prerelease"].includes(pipe.branch)) return bad("branch", `${tag} is released from branch ${pipe.branch}`);
      if (pipe.jobs.some((j) => isCheck(j) && j.state !== "done")) return bad("untested", `${tag} is released although ${pipe.jobs.find((j) => isCheck(j) && j.state !== "done").name} did not succeed`);
      if (rel.prerelease !== /-(alpha|beta)/.test(tag)) return bad("prerelease", `${tag} is ${rel.prerelease ? "" : "not "}marked as a pre-release`);
      if (rel.commit !== pipe.sha) return bad("commit", `${tag} is released at commit ${rel.commit || "(none)"} instead of ${pipe.sha}`);
      const listed = rel.assets["checksums.txt"];
      if (listed) {
        for (const l of this.asset(listed).toString().trim().split("\n")) {
          const m = /^([0-9a-f]{64}) [ *](.*)$/.exec(l);
          const n = m && path.basename(m[2]);
          if (!m || rel.assets[n] === undefined && this.complete(rel, tag)) return bad("checksums-line", `checksums.txt of ${tag} has the line ${l.slice(0, 100)}`);
          if (rel.assets[n] !== undefined && rel.assets[n] !== m[1]) return bad("checksums-wrong", `checksums.txt of ${tag} says ${m[1].slice(0, 12)} for ${n}, which has ${rel.assets[n].slice(0, 12)}`);
        }
      }
    }
    // A job that claims to have published has published.
    for (const p of pipes) {
      const gh = p.jobs.find((j) => j.calls && j.calls.some((l) => /^ghr /.test(l)));
      const npm = p.jobs.find((j) => j.calls && j.calls.some((l) => /^(yarn|npm) (.* )?publish\b/.test(l)));
      if (gh && gh.state === "done") {
        const rel = w.releases[p.version];
        if (!rel) return bad("claimed", `${gh.name} succeeded without a release`);
        if (!this.complete(rel, p.version)) return bad("incomplete", `${gh.name} succeeded but the release has only ${Object.keys(rel.assets).join(", ")}`);
        for (const t of Object.values(TARGETS)) {
          const n = `qlc-${p.version}-${t}.tar.gz`;
          const b = this.binOf(rel.assets[n]);
          if (!b || !b.equals(p.bins[t])) return bad("archive", `${n} ${b ? "holds another binary" : "does not unpack to qlc"}`);
          if (!rel.assets["checksums.txt"] || !this.asset(rel.assets["checksums.txt"]).toString().includes(`${rel.assets[n]} `)) return bad("checksums-missing", `checksums.txt of ${p.version} lacks ${n}`);
        }
      }
      if (npm && npm.state === "done" && !Object.values(w.packages).some((x) => x.version === p.version)) return bad("claimed", `${npm.name} succeeded without a package`);
    }
    return null;
  }
  complete(rel, v) { return Object.values(TARGETS).every((t) => rel.assets[`qlc-${v}-${t}.tar.gz`]); }
  async final(pipes) {
    const bad = (tag, text) => ({ tag, text });
    const w = this.world();
    for (const p of pipes) {
      if (!["production", "prerelease"].includes(p.branch)) continue;
      if (!Object.values(w.packages).some((x) => x.version === p.version)) return bad("never", `${p.version} cannot be released although nothing fails any more: ${p.jobs.map((j) => `${j.name} ${j.state}`).join(", ")}; ${(this.say || "").slice(-300)}`);
    }
    for (const [k, p] of Object.entries(w.packages)) {
      const pj = JSON.parse(this.asset(p.files["package.json"]).toString());
      const id = createHash("sha1").update(JSON.stringify(p.files)).digest("hex");
      const dir = `${base}/pkgs/${id}`;
      for (const [f, h] of Object.entries(p.files)) { fs.mkdirSync(path.dirname(`${dir}/${f}`), { recursive: true }); fs.writeFileSync(`${dir}/${f}`, this.asset(h)); }
      const pipe = pipes.find((x) => x.version === p.version);
      for (const [plat, t] of Object.entries(TARGETS)) {
        const r = await install(this, w, dir, pj, p, plat);
        this.note(`install ${k} on ${plat}: ${r.code} ${r.tool ? sha(r.tool).slice(0, 8) : "no tool"}`);
        if (r.code !== 0 || !r.tool || !r.tool.equals(pipe.bins[t])) return bad("install", `${k} does not install on ${plat}: status ${r.code}, ${r.tool ? "another tool" : "no tool"}: ${r.say.slice(0, 200)}`);
      }
    }
    return null;
  }
}
/** The published package's own installer against the simulated GitHub. */
async function install(run, w, dir, pj, p, plat) {
  const [platform, arch] = plat.split("-");
  const m = /node\s+(\S+)/.exec((pj.scripts || {}).postinstall || "");
  const files = {};
  for (const f of Object.keys(p.files)) if (/^bin\//.test(f)) files[`/pkg/${f}`] = { b64: run.asset(p.files[f]).toString("base64") };
  const plan = { sched: 0, speed: 0, platform, arch, repoPkg: dir, packageJson: pj, cwd: "/pkg", entry: path.resolve("/pkg", m ? m[1] : "missing"), argv: [], files, faults: [], conns: [{}] };
  plan.respond = (c, req) => {
    const x = /\/notarize\/qlc\/releases\/download\/([^/]+)\/([^/?]+)$/.exec(decodeURIComponent(req.target));
    const h = x && w.releases[x[1]] && w.releases[x[1]].assets[x[2]];
    return h ? response(200, {}, run.asset(h), "length") : response(404, {}, Buffer.from("no"), "length");
  };
  plan.exec = (sim, cmd, args) => {
    const f = args.map((a) => path.resolve("/pkg", a)).find((a) => sim.nodes.get(a) && !sim.nodes.get(a).dir);
    const n = f && sim.nodes.get(f);
    const h = n ? sha(n.data) : "";
    const b = n && fs.existsSync(`${base}/world/store/${h}`) ? run.binOf(h) : null;
    return { code: b ? 0 : 2, finish: () => { if (b) sim.nodes.set("/pkg/bin/qlc", { data: b, mode: 0o755 }); } };
  };
  const s = new Sim(plan);
  await s.run();
  const t = s.after.get("/pkg/bin/qlc");
  return { code: s.ended.code, tool: t && t.data.length ? t.data : null, say: s.out.map((o) => o.s).join("") };
}

async function runPlan(plan) {
  const r = new Run(plan);
  let viol;
  try { viol = await r.run(); } finally { clear(); }
  r.fingerprint = r.hash.digest("hex");
  r.ended = { how: r.pipes.map((p) => p.jobs.map((j) => `${j.state}${j.runs > 1 ? "*" : ""}`).join(" ")).join(" | "), code: "", at: 0 };
  r.connCount = r.n;
  r.jobs = r.n;
  return { s: r, viol, runs: [r], fingerprint: r.fingerprint };
}
module.exports = { gen, runPlan };
if (require.main === module) {
  (async () => {
    if (process.argv[2] === "twice") {
      let bad = 0;
      for (let i = 1; i < Number(process.argv[3]); i++) { const p = gen(i * 31 + 5); const a = await runPlan(p), b = await runPlan(p); if (a.fingerprint !== b.fingerprint) { bad++; const x = a.s.trace, y = b.s.trace; const d = x.findIndex((l, k) => l !== y[k]); console.log(i, "differ", d, x[d], "|", y[d]); } }
      console.log("bad", bad);
      return;
    }
    const s = Number(process.argv[2] || 1), n = Number(process.argv[3] || 1);
    for (let i = s; i < s + n; i++) {
      const p = gen(i * 7919);
      const t = Date.now();
      const r = await runPlan(p);
      console.log(i, JSON.stringify(p.faults), r.s.ended.how, r.viol, Date.now() - t, "ms");
      if (process.argv[4]) console.log(r.s.trace.join("\n"));
    }
  })();
}

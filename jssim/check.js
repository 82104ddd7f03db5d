"use strict";
// check.js run <property> --seed n --secs s --tier t | replay <file> [-v]
// Seeded search over simulated executions of the npm scripts; see DESIGN.md.
const fs = require("fs");
const path = require("path");
const { fork } = require("child_process");
const { createHash } = require("crypto");
const { PROPS, runPlan, PKG } = require("./scenarios");
const { Rng, Trouble } = require("./sim");

const V = path.join(__dirname, "..");
const args = process.argv.slice(2);
const opt = (n, d) => { const i = args.indexOf(`--${n}`); return i < 0 ? d : args[i + 1]; };
const JOBS = 8;
const RECHECK = 32;

const caseSeed = (seed, k) => new Rng(seed * 1000003 + k).next();

/** Everything that can be taken out of a plan, one change at a time. */
function* smaller(plan) {
  const w = (f) => { const p = JSON.parse(JSON.stringify(plan)); f(p); return p; };
  if (plan.pipes && plan.pipes.length > 1) for (const i of [0, 1]) yield w((p) => { p.pipes.splice(i, 1); p.faults = p.faults.filter((f) => f.pipe !== i).map((f) => ({ ...f, pipe: 0 })); });
  if (plan.crashAt) yield w((p) => { delete p.crashAt; delete p.again; });
  if (plan.again) yield w((p) => { p.again.faults = []; p.again.sched = 0; p.again.conns = p.again.conns.map(() => ({})); });
  for (let i = 0; i < plan.faults.length; i++) yield w((p) => { p.faults.splice(i, 1); });
  for (let i = 0; i < plan.conns.length; i++) {
    yield w((p) => { p.conns[i] = {}; });
    for (const k of Object.keys(plan.conns[i])) yield w((p) => { delete p.conns[i][k]; });
  }
  if (plan.redirects) yield w((p) => { p.redirects -= 1; p.conns.shift(); });
  for (const [k, v] of Object.entries({ sched: 0, order: 0, speed: 0, redirects: 0, leftover: false, old: false, oldBig: false, types: 0, says: undefined, body: "good", sums: "right", redirectTo: undefined, child: {}, size: 10, platform: "linux", arch: "x64", endpoint: "http://api.test/graphql", out: undefined, bin: true, placeholder: true, toolMode: 0o644 })) {
    if (k in plan && JSON.stringify(plan[k]) !== JSON.stringify(v)) yield w((p) => { if (v === undefined) delete p[k]; else p[k] = v; });
  }
}
async function minimise(plan, tag) {
  const end = Date.now() + 30000;
  let best = plan, better = true;
  while (better && Date.now() < end) {
    better = false;
    for (const p of smaller(best)) {
      if (JSON.stringify(p) === JSON.stringify(best)) continue;
      let r;
      try { r = await runPlan(p); } catch (e) { continue; }
      if (r.viol && r.viol.tag === tag) { best = p; better = true; break; }
    }
  }
  return best;
}

async function worker() {
  const [, prop, seed, me, until] = args;
  const stats = { evaluations: 0, runs: 0, ends: {}, faults: {}, simulated_ms: 0, events: 0, connections: 0, rechecks: 0, nontrivial: [], orders: [] };
  const P = PROPS[prop];
  const add = (o, k, n) => { o[k] = (o[k] || 0) + n; };
  let sample = null;
  for (let k = Number(me); Date.now() < Number(until); k += JOBS) {
    const s0 = caseSeed(Number(seed), k);
    const plan = P.gen(s0);
    const r = await runPlan(plan);
    stats.evaluations++;
    for (const s of r.runs) {
      stats.runs += s.jobs || 1;
      add(stats.ends, `${s.ended.how} ${s.ended.code}`, 1);
      for (const [c, n] of Object.entries(s.counts)) add(stats.faults, c, n);
      stats.simulated_ms += s.ended.at;
      stats.events += s.events;
      stats.connections += s.connCount;
    }
    for (const c of plan.conns) {
      if (c.cut) add(stats.faults, `plan: connection ${c.cut.how}`, 1);
      if (c.connect && c.connect !== "ok") add(stats.faults, `plan: connect ${c.connect}`, 1);
      if (c.status) add(stats.faults, `plan: status ${c.status}`, 1);
      if (c.frag) add(stats.faults, "plan: fragmented response", 1);
    }
    if (plan.body && plan.body !== "good") add(stats.faults, `plan: body ${plan.body}`, 1);
    if (plan.sums && plan.sums !== "right") add(stats.faults, `plan: checksum ${plan.sums}`, 1);
    if (plan.redirectTo) add(stats.faults, `plan: redirect ${plan.redirectTo}`, 1);
    if (plan.child && (plan.child.spawn || plan.child.code !== undefined)) add(stats.faults, `plan: unpacker ${plan.child.spawn || plan.child.signal || "exit " + plan.child.code}`, 1);
    // Non-trivial: at least one connection was attempted.
    if (r.runs.some((s) => s.connCount > 0)) stats.nontrivial.push(r.fingerprint.slice(0, 14));
    if (!sample) sample = { plan, end: r.s.ended, trace: r.s.trace.slice(0, 30).map((x) => x.slice(0, 160)) };
    if (r.viol) {
      const small = await minimise(plan, r.viol.tag);
      const a = await runPlan(small), b = await runPlan(small);
      if (a.fingerprint !== b.fingerprint) throw new Trouble("the minimised case is not repeatable");
      process.send({ violation: { property: prop, tag: a.viol.tag, text: a.viol.text, found_with_seed: s0, fingerprint: a.fingerprint, plan: small, trace: a.runs.map((s) => s.trace.slice(0, 400)) } });
      break;
    }
    if (stats.evaluations % RECHECK === 0) {
      stats.rechecks++;
      const again = await runPlan(plan);
      if (again.fingerprint !== r.fingerprint) throw new Trouble(`seed ${s0} is not repeatable`);
    }
    if (stats.nontrivial.length >= 5000) { process.send({ keys: stats.nontrivial }); stats.nontrivial = []; }
  }
  process.send({ keys: stats.nontrivial });
  stats.nontrivial = undefined;
  process.send({ stats, sample }, () => process.exit(0));
}

async function run() {
  const prop = args[1], seed = Number(opt("seed", 1)), secs = Number(opt("secs", 45)), tier = opt("tier", "quick");
  const t0 = Date.now();
  const until = t0 + secs * 1000;
  const keys = new Set();
  const total = { evaluations: 0, runs: 0, ends: {}, faults: {}, simulated_ms: 0, events: 0, connections: 0, rechecks: 0 };
  const samples = [], violations = [], broken = [];
  await Promise.all(Array.from({ length: JOBS }, (_, w) => new Promise((done) => {
    const c = fork(__filename, ["worker", prop, String(seed), String(w), String(until)], { stdio: ["ignore", "inherit", "pipe", "ipc"] });
    let err = "", finished = false;
    c.stderr.on("data", (d) => { err += d; });
    c.on("message", (m) => {
      if (m.keys) for (const k of m.keys) keys.add(k);
      if (m.violation) violations.push(m.violation);
      if (m.stats) {
        finished = true;
        for (const [k, v] of Object.entries(m.stats)) {
          if (typeof v === "number") total[k] += v;
          else if (v && !Array.isArray(v)) for (const [a, n] of Object.entries(v)) total[k][a] = (total[k][a] || 0) + n;
        }
        if (m.sample && samples.length < 3) samples.push(m.sample);
      }
    });
    c.on("close", () => { if (!finished) broken.push(err.slice(0, 2000)); done(); });
  })));
  const wall = (Date.now() - t0) / 1000;
  violations.sort((a, b) => JSON.stringify(a.plan).length - JSON.stringify(b.plan).length);
  const release = prop === "C25";
  const sortKeys = (o) => Object.fromEntries(Object.entries(o).sort());
  const evidence = {
    property: prop, tier, seed, level: "exploration", wall_s: wall, violations: violations.length,
    coverage: {
      evaluations: total.evaluations, distinct_nontrivial: keys.size,
      rule: release ? "seed -> plan (versions, branches, order of jobs, stalled processes, faults in and losses at any program a job starts); distinct by hash of every job's outcome, every program started and the state of both services after every job" : "seed -> plan (server behaviour, framing, fragmentation, cuts, disk faults, unpacker, kill point, order of completions); non-trivial: at least one connection was attempted; distinct by hash of the timed sequence of all events, outputs and final files",
      samples,
      simulated_runs: total.runs, seeds: total.evaluations,
      runs_per_hour: Math.round(total.runs / wall * 3600), seeds_per_hour: Math.round(total.evaluations / wall * 3600),
      simulated_seconds: total.simulated_ms / 1000, events: total.events, connections: total.connections,
      determinism_rechecks: total.rechecks, ends: sortKeys(total.ends), faults_injected: sortKeys(total.faults),
      interleaving_measure: "distinct_nontrivial counts distinct event sequences (with times)",
      components_real: release ? [".circleci/config.yml and .circleci/bin from /repo's working tree", "bash", "tar, gzip, sed, grep, sha256sum and the like", "pkg/npm as published, with its installer"] : [`the scripts under ${path.relative("/", PKG)} from /repo's working tree`, "node's http client, HTTP parser, streams, promises, crypto, url and path"],
      components_simulated: release ? ["the CI service (containers, workspaces, filters, reruns)", "GitHub and ghr", "the npm registry and yarn publish", "cargo and the cross compilers", "nix, just", "tee", "the released binaries (--version as the real one prints it)", "order of the processes of a pipeline"] : ["sockets and TLS", "name resolution", "timers and clock", "file system", "process, console and os.platform/arch", "tar (a stand-in that records what it was given)"],
    },
    assumptions: release ? ["compiling a commit again yields the same binary", "a version is released by one pipeline", "the CI service keeps or loses a job's workspace as a whole"] : ["node's event loop delivers completions in any order consistent with causality", "TLS verifies the peer (not simulated)", "the order of microtasks is node's own"],
  };
  fs.mkdirSync(path.join(V, "evidence"), { recursive: true });
  fs.writeFileSync(path.join(V, "evidence", `${prop}.json`), JSON.stringify(evidence, null, 2));
  if (violations.length) {
    const v = violations[0];
    const dir = path.join(V, "replays");
    fs.mkdirSync(dir, { recursive: true });
    const f = path.join(dir, `${prop}-${v.found_with_seed}.json`);
    fs.writeFileSync(f, JSON.stringify(v, null, 1));
    for (const l of v.trace) console.log(l.slice(0, 120).map((x) => "    " + x.slice(0, 200)).join("\n"));
    console.log(`${prop}: ${v.text} [${v.tag}] (seed ${v.found_with_seed})`);
    console.log(`replay with: node ${path.relative(process.cwd(), __filename) || __filename} replay ${f} -v`);
    console.log(`VIOLATION property=${prop} replay=${f}`);
    process.exitCode = 1;
    return;
  }
  if (broken.length || total.evaluations === 0) {
    console.log(`${prop}: the simulator could not decide\n${broken[0] || "no case was run"}`);
    process.exitCode = 2;
    return;
  }
  console.log(`${prop}: ${total.evaluations} cases, ${keys.size} distinct non-trivial, ${total.runs} simulated runs, ${Math.round(total.simulated_ms / 1000)} simulated s, ${wall.toFixed(1)} s`);
}

async function replay() {
  const v = JSON.parse(fs.readFileSync(args[1], "utf8"));
  const r = await runPlan(v.plan);
  if (args.includes("-v")) {
    console.log(JSON.stringify(v.plan));
    for (const s of r.runs) console.log(s.trace.join("\n"));
  }
  if (r.viol && r.viol.tag === v.tag) {
    console.log(`${v.property}: ${r.viol.text} [${r.viol.tag}]`);
    console.log(r.fingerprint === v.fingerprint ? "reproduced exactly" : "reproduced, with a different course of events (the tree differs?)");
    console.log(`VIOLATION property=${v.property} replay=${args[1]}`);
    process.exitCode = 1;
  } else console.log(`${v.property}: ${r.viol ? `fails differently: ${r.viol.text}` : "the property holds on this case now"}`);
}

const fail = (e) => { console.error(e && e.stack ? e.stack : e); process.exit(2); };
({ run, worker, replay }[args[0]] || (() => Promise.reject(new Error("usage: run <property> | replay <file>"))))().catch(fail);

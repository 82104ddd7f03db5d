"use strict";
// Plans (one simulated execution each), their seeded generation and the judges of C16, C17 and C18.
const path = require("path");
const { createHash } = require("crypto");
const { Sim, Rng, response } = require("./sim");
const { execute } = require("./introspect");

const REPO = process.env.QLC_REPO || "/repo";
const PKG = path.join(REPO, "pkg/npm");
const fs = require("fs");
const RAW_PACKAGE = () => JSON.parse(fs.readFileSync(path.join(PKG, "package.json"), "utf8"));
const sha = (b) => createHash("sha256").update(b).digest("hex");
const TARGETS = { "darwin-x64": "x86_64-apple-darwin", "darwin-arm64": "aarch64-apple-darwin", "linux-x64": "x86_64-unknown-linux-musl", "linux-arm64": "aarch64-unknown-linux-musl" };
const TOOL = Buffer.from("\x7fELF the compiler for ");
const VERSION = "0.9.1";

function bytes(seed, n) {
  const r = new Rng(seed);
  const b = Buffer.alloc(n);
  for (let i = 0; i < n; i++) b[i] = r.below(256);
  return b;
}
const tarballs = new Map();
const tarball = (target, size) => {
  const k = target + size;
  if (!tarballs.has(k)) tarballs.set(k, makeTarball(target, size));
  return tarballs.get(k);
};
const makeTarball = (target, size) => Buffer.concat([Buffer.from(`\x1f\x8btar of ${target}\n`), bytes(7 + size, size)]);

// ---------------------------------------------------------------- C16
const ENDPOINTS = ["http://api.test/graphql", "https://api.test/graphql", "https://api.test:8443/a/graphql?x=1"];
const FAIL_CONNECT = ["ECONNREFUSED", "ENOTFOUND", "ECONNRESET", "ETIMEDOUT", "EAI_AGAIN", "EHOSTUNREACH"];
const FS_ERR = ["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS", "EMFILE"];

function genFaultFs(r, ops) {
  const op = r.pick(ops);
  const f = { op, code: r.pick(op === "open" ? ["EACCES", "EMFILE", "ENOSPC", "EROFS", "ENOENT"] : FS_ERR), nth: r.range(1, op === "write" ? 5 : 2) };
  if (op === "write" && r.pct(50)) f.partial = r.range(1, 60);
  return f;
}
function genConn(r, len, o) {
  const c = { delay: r.pick([1, 1, 20, 900]), think: r.pick([1, 10, 2000]), framing: r.pick(["length", "chunked", "close"]), frag: r.pick([0, 5, 40, 400, 3000]), gap: r.pick([0, 0, 3, 50, 3000]) };
  if (!o.fault) return c;
  const x = r.below(o.stalls ? 9 : 6);
  const cutAt = () => (r.pct(20) ? r.below(200) : r.below(len + 260));
  if (x === 0) c.connect = r.pick(FAIL_CONNECT);
  else if (x <= 2) c.cut = { at: r.pct(10) ? -1 : cutAt(), how: "rst" };
  else if (x === 3) c.cut = { at: cutAt(), how: "fin" };
  else if (x === 4) c.cut = { at: cutAt(), how: "pause", ms: r.pick([50, 4900, 5100, 25000, 200000]) };
  else if (x === 5) c.status = r.pick([400, 401, 403, 404, 429, 500, 502, 503, 204, 201, 301, 302, 307, 304]);
  else if (x === 6) c.connect = "stall";
  else c.cut = { at: cutAt(), how: "stall" };
  return c;
}
function genC16(seed) {
  const r = new Rng(seed);
  const size = r.pct(4) ? r.pick([300, 700, 2500]) : r.pick([0, 1, 3, 20, 60]);
  const plan = {
    prop: "C16", seed, sched: r.pct(10) ? 0 : r.next(), speed: r.below(3), script: "download",
    endpoint: r.pct(6) ? r.pick(["", "not a url", "ftp://api.test/x", "http://"]) : r.pick(ENDPOINTS), types: size,
    out: r.pick([undefined, "schema.json", "out.json", "sub/dir.json", "/tmp/x.json"]), old: r.pct(40), oldBig: r.pct(50), faults: [], conns: [],
  };
  // Whatever the server says is kept as it is.
  if (r.pct(8)) plan.says = r.pick(["", "", "{}", "null", "{\"errors\":[{\"message\":\"no\"}]}", "<html>sign in</html>", "\u0000\ufeff\r\n", "x".repeat(70000)]);
  const kind = r.below(10);
  plan.conns.push(genConn(r, 300 + size * 60, { fault: kind >= 2 && kind < 7 }));
  if (kind >= 6 && kind < 10) {
    plan.faults.push(genFaultFs(r, ["open", "write", "write", "write", "close"]));
    if (r.pct(15)) plan.faults.push(genFaultFs(r, ["unlink"]));
  }
  if (r.pct(20)) plan.faults.push({ op: "write", short: r.range(1, 50), nth: r.range(1, 4) });
  if (r.pct(12)) { plan.crashAt = r.range(2, 60); plan.again = { sched: r.next(), faults: r.pct(70) ? [] : [genFaultFs(r, ["open", "write", "close"])], conns: [genConn(r, 300 + size * 60, { fault: r.pct(20) })] }; }
  return plan;
}
function smallSchema(n) {
  const T = (k, name, x) => ({ kind: k, name, description: null, fields: null, inputFields: null, interfaces: null, enumValues: null, possibleTypes: null, ...x });
  const ref = { kind: "SCALAR", name: "ID", ofType: null };
  const types = [T("SCALAR", "ID"), T("OBJECT", "Query", { interfaces: [], fields: [{ name: "id", description: null, args: [], type: ref, isDeprecated: false, deprecationReason: null }] })];
  for (let i = 0; i < n; i++) types.push(T("ENUM", `E${i}`, { enumValues: [{ name: "A", description: i % 3 ? null : "söme téxt €" + i, isDeprecated: false, deprecationReason: null }] }));
  return { data: { __schema: { queryType: { name: "Query" }, mutationType: null, subscriptionType: null, types, directives: [] } } };
}
/** Adds what the simulator needs to a plain plan. */
function armDownload(plan, full) {
  const p = { ...plan };
  p.repoPkg = PKG;
  p.packageJson = RAW_PACKAGE();
  p.entry = "/pkg/bin/qlc-download-schema";
  p.cwd = "/work";
  p.argv = [];
  if (plan.endpoint !== "") { p.argv.push(plan.endpoint); if (plan.out !== undefined) p.argv.push(plan.out); }
  p.outPath = path.resolve("/work", plan.endpoint !== "" && plan.out !== undefined ? plan.out : "schema.json");
  p.files = { "/work/package.json": { text: "{}" } };
  if (plan.old) p.files[p.outPath] = { text: plan.oldBig ? "{\"old\": \"" + "x".repeat(9000) + "\"}" : "{\"data\":1}" };
  p.state = { sent: [] };
  const rng = new Rng((plan.sched || 1) + 99);
  p.respond = (c, req, k) => {
    let status = c.status || 200, body;
    let q = null;
    try { q = JSON.parse(req.body.toString()); } catch (e) { /* answered below */ }
    if (req.method !== "POST" || !q || typeof q.query !== "string" || !/json/.test(req.headers["content-type"] || "")) status = 400;
    if (status === 200) {
      const res = execute(full, q.query, q.variables, q.operationName);
      body = Buffer.from(plan.says !== undefined ? plan.says : JSON.stringify(res));
      if (res.errors) p.state.rejected = res.errors[0].message;
    } else body = Buffer.from(status === 204 || status === 304 ? "" : JSON.stringify({ errors: [{ message: "no" }] }));
    const raw = response(status, { "Content-Type": "application/json", ...(status > 300 && status < 309 ? { Location: "http://elsewhere.test/graphql" } : {}) }, body, status === 204 || status === 304 ? "length" : c.framing || "length", c.framing === "chunked" ? rng : null);
    const cut = c.cut;
    // How much of the response reaches the client for good.
    const whole = !cut || cut.how === "pause" || cut.at >= raw.bytes.length;
    // Without a length, the end of the connection is the end of the body.
    const eofIsEnd = cut && cut.how === "fin" && c.framing === "close" && cut.at >= raw.headLen && cut.at < raw.bytes.length;
    p.state.sent.push({ status, body: eofIsEnd ? body.subarray(0, cut.at - raw.headLen) : body, complete: whole || eofIsEnd });
    return raw;
  };
  p.exec = () => ({ code: 127 });
  return p;
}
function judgeC16(plan, s, armed) {
  const f = s.after.get(armed.outPath);
  const old = s.before.get(armed.outPath);
  const last = armed.state.sent[armed.state.sent.length - 1];
  const ok200 = last && last.status === 200;
  const bad = (tag, text) => ({ tag, text });
  if (s.ended.how === "hang" || s.ended.how === "endless") return bad("stuck", `the downloader never ends (${s.ended.how})`);
  if (s.ended.how === "killed") return null;
  const code = s.ended.code;
  const size = f ? `${f.data.length} bytes` : "absent";
  if (code === 0) {
    if (!ok200) return bad("status", `exit status 0 although ${last ? `the server answered ${last.status}` : "no response was received"}`);
    if (!f || !f.data.equals(last.body)) return bad("incomplete", `exit status 0 but the output file is ${size} and the response body has ${last.body.length} bytes`);
    if (!last.complete && !f.data.equals(last.body)) return bad("incomplete", "exit status 0 although the response was cut off");
  } else {
    const removalFailed = s.fired.some((i) => ["unlink", "rm", "rename"].includes(plan.faults[i].op));
    const intact = !f || (old && f.data.equals(old.data)) || (ok200 && f.data.equals(last.body));
    if (!intact && !removalFailed) return bad("partial", `exit status ${code} but a file of ${f.data.length} bytes that is no schema is left behind`);
    if (!s.out.some((o) => o.fd === 2 && o.s.trim() && o.s.trim() !== "null")) return bad("silent", `exit status ${code} without a message`);
  }
  for (const [p, x] of s.after) if (p !== armed.outPath && !s.before.has(p) && code === 0) return bad("litter", `${p} (${x.data.length} bytes) is left behind`);
  for (const [p, x] of s.before) if (p !== armed.outPath && !(s.after.get(p) || { data: Buffer.alloc(0) }).data.equals(x.data)) return bad("other", `${p} was changed`);
  const c = plan.conns[0];
  const calm = plan.says === undefined && (!c.connect || c.connect === "ok") && !c.status && (!c.cut || (c.cut.how === "pause" && c.cut.ms < 4000)) && !plan.faults.some((x) => x.code) && ENDPOINTS.includes(plan.endpoint) && (plan.out !== "sub/dir.json");
  if (calm && code !== 0) return bad("refused", `exit status ${code} although nothing went wrong: ${armed.state.rejected || s.out.map((o) => o.s).join("").slice(0, 200)}`);
  return null;
}

// ---------------------------------------------------------------- C17, C18
function genInstall(prop, seed) {
  const r = new Rng(seed);
  const size = r.pick([10, 500, 20000, 150000]);
  const plan = {
    prop, seed, sched: r.pct(10) ? 0 : r.next(), speed: r.below(3), script: "postinstall",
    platform: r.pick(["linux", "linux", "darwin", "darwin", "win32"]), arch: r.pick(["x64", "arm64", "x64", "arm64", "ia32"]),
    size, bin: r.pct(70), placeholder: r.pct(70), leftover: r.pct(25), toolMode: r.pick([0o755, 0o644, 0o600]), redirects: r.pick([0, 1, 1, 1, 2, 4]), body: "good", faults: [], conns: [], child: {},
    sums: "right",
  };
  if (r.pct(85) && (plan.platform === "win32" || plan.arch === "ia32")) { plan.platform = "linux"; plan.arch = "x64"; }
  const integrity = prop === "C17";
  const bodies = ["flip", "flip", "truncated", "longer", "other", "empty", "html", "flip-last"];
  if (r.pct(integrity ? 55 : 15)) plan.body = r.pick(bodies);
  if (r.pct(integrity ? 12 : 4)) plan.sums = r.pick(["missing", "empty", "swapped", "upper"]);
  for (let i = 0; i <= plan.redirects; i++) plan.conns.push(genConn(r, i === plan.redirects ? size : 100, { fault: r.pct(integrity ? 18 : 30), stalls: !integrity }));
  if (r.pct(8)) plan.redirectTo = r.pick(["http://plain.test/x", "none", "relative", "loop", "garbage"]);
  if (r.pct(30)) {
    plan.faults.push(genFaultFs(r, ["open", "write", "write", "close", "unlink", "readFile", "access", "mkdir", "chmod"]));
    if (r.pct(25)) plan.faults.push(genFaultFs(r, ["open", "write", "unlink", "readFile", "mkdir", "access"]));
  }
  if (r.pct(20)) plan.faults.push({ op: "write", short: r.range(1, 3000), nth: r.range(1, 4) });
  if (r.pct(15)) plan.child = r.pick([{ spawn: "ENOENT" }, { spawn: "EAGAIN" }, { code: 1 }, { code: 2, partial: true }, { code: null, signal: "SIGKILL", partial: true }, { code: 1, partial: true }]);
  if (r.pct(20)) plan.child = { ...plan.child, ms: r.pick([10, 5000, 40000]) };
  if (r.pct(12)) {
    plan.crashAt = r.range(2, 120);
    plan.again = { sched: r.next(), body: "good", redirects: 1, faults: r.pct(80) ? [] : [genFaultFs(r, ["open", "write", "close", "unlink", "readFile"])], conns: [genConn(r, 100, {}), genConn(r, size, { fault: r.pct(20) })], child: {} };
    delete plan.redirectTo;
  }
  return plan;
}
function armInstall(plan) {
  const p = { ...plan };
  p.repoPkg = PKG;
  const pj = RAW_PACKAGE();
  pj.version = VERSION;
  const target = TARGETS[`${plan.platform}-${plan.arch}`];
  const good = {};
  for (const t of Object.values(TARGETS)) good[t] = tarball(t, plan.size);
  pj.checksumConfig = {};
  for (const [i, t] of Object.keys(good).entries()) {
    const other = Object.keys(good)[(i + 1) % 4];
    if (plan.sums === "missing" && t === target) continue;
    pj.checksumConfig[t] = plan.sums === "empty" ? "" : plan.sums === "swapped" ? sha(good[other]) : plan.sums === "upper" ? sha(good[t]).toUpperCase() : sha(good[t]);
  }
  p.packageJson = pj;
  p.cwd = "/pkg";
  const m = /node\s+(\S+)/.exec((pj.scripts || {}).postinstall || "");
  p.entry = path.resolve("/pkg", m ? m[1] : "lib/postinstall.js");
  p.argv = [];
  p.files = { "/pkg/package.json": { text: "{}" } };
  if (plan.bin) p.files["/pkg/bin/qlc-download-schema"] = { text: "x" };
  if (plan.bin && plan.placeholder) p.files["/pkg/bin/qlc"] = { text: "", mode: 0o644 };
  const name = `qlc-${VERSION}-${target}.tar.gz`;
  if (plan.leftover) p.files[`/pkg/${name}`] = { b64: Buffer.concat([good[target] || Buffer.from("zz"), Buffer.from("left over from an earlier attempt")]).toString("base64") };
  const g = target ? good[target] : Buffer.from("nothing");
  let body = g;
  const b2 = Buffer.from(g);
  switch (plan.body) {
    case "flip": b2[plan.seed % b2.length] ^= 1 << (plan.seed % 8); body = b2; break;
    case "flip-last": b2[b2.length - 1] ^= 0x10; body = b2; break;
    case "truncated": body = g.subarray(0, plan.seed % g.length); break;
    case "longer": body = Buffer.concat([g, Buffer.from("!")]); break;
    case "other": body = good[Object.keys(good).find((t) => t !== target)]; break;
    case "empty": body = Buffer.alloc(0); break;
    case "html": body = Buffer.from("<html>sign in</html>"); break;
    default:
  }
  p.good = g;
  p.target = target;
  p.expected = target ? pj.checksumConfig[target] : undefined;
  p.state = { served: [], unpacked: [] };
  const rng = new Rng((plan.sched || 1) + 98);
  p.respond = (c, req, k) => {
    let status, headers = {}, b;
    if (c.status) { status = c.status; b = Buffer.from("no"); if (status > 300 && status < 309) headers.Location = "https://elsewhere.test/none"; } else if (k < plan.redirects || plan.redirectTo === "loop") {
      status = 302;
      b = Buffer.from("moved");
      headers.Location = `https://cdn${k}.test/${name}`;
      if (plan.redirectTo && k === 0 && plan.redirectTo !== "loop") {
        if (plan.redirectTo === "none") delete headers.Location;
        else headers.Location = { relative: "/elsewhere", garbage: "http//:::" }[plan.redirectTo] || plan.redirectTo;
      }
    } else { status = 200; b = body; }
    if (req.method !== "GET") { status = 405; b = Buffer.from("no"); }
    const raw = response(status, headers, status === 204 || status === 304 ? Buffer.alloc(0) : b, status === 204 || status === 304 ? "length" : c.framing || "length", c.framing === "chunked" && b.length < 5000 ? rng : null);
    const cut = c.cut;
    p.state.served.push({ status, complete: !cut || cut.how === "pause" || cut.at >= raw.bytes.length, body: b });
    return raw;
  };
  p.exec = (sim, cmd, args, opts) => {
    const cwd = opts.cwd ? String(opts.cwd) : p.cwd;
    let file = null, dir = cwd;
    const a = [...args];
    if (path.basename(cmd) !== "tar") { p.state.other = cmd; return { code: 127 }; }
    for (let i = 0; i < a.length; i++) {
      if (a[i] === "-C" || a[i] === "--directory") dir = path.resolve(dir, a[++i]);
      else if (a[i].startsWith("--directory=")) dir = path.resolve(dir, a[i].slice(12));
      else if (a[i].startsWith("--file=")) file = path.resolve(cwd, a[i].slice(7));
      else if (a[i] === "--file") file = path.resolve(cwd, a[++i]);
      else if (/^-?[a-zA-Z]*f$/.test(a[i]) && !a[i].startsWith("--")) file = path.resolve(cwd, a[++i]);
    }
    const n = file && sim.nodes.get(file);
    const content = n && !n.dir ? Buffer.from(n.data) : null;
    p.state.unpacked.push({ file, dir, content });
    const c = plan.child || {};
    if (!content || !sim.nodes.get(dir) || !sim.nodes.get(dir).dir) return { code: 2 };
    const dest = path.join(dir, "qlc");
    const isGood = content.equals(g);
    const code = c.code !== undefined ? c.code : isGood ? 0 : 2;
    return {
      code, signal: c.signal,
      finish: () => {
        if (!sim.nodes.get(dir)) return;
        const tool = Buffer.concat([TOOL, Buffer.from(String(target))]);
        if (code === 0) sim.nodes.set(dest, { data: isGood ? tool : Buffer.from("unverified"), mode: plan.toolMode });
        else if (c.partial) sim.nodes.set(dest, { data: tool.subarray(0, 5), mode: 0o600 });
      },
    };
  };
  return p;
}
const stderrOf = (s) => s.out.map((o) => o.s).join("").trim();
function installed(p, s) {
  const n = s.after.get("/pkg/bin/qlc");
  return n && n.data.equals(Buffer.concat([TOOL, Buffer.from(String(p.target))])) && (n.mode & 0o111) === 0o111;
}
function calmInstall(plan) {
  return TARGETS[`${plan.platform}-${plan.arch}`] && plan.body === "good" && plan.sums === "right" && !plan.redirectTo && plan.redirects <= 4 && !plan.faults.some((f) => f.code) &&
    plan.conns.every((c) => !c.connect && !c.status && (!c.cut || (c.cut.how === "pause" && c.cut.ms < 5000)) && c.gap < 4000) && !plan.child.spawn && plan.child.code === undefined;
}
function judgeC17(plan, s, p) {
  const bad = (tag, text) => ({ tag, text });
  for (const u of p.state.unpacked) {
    if (!u.content) return bad("missing-archive", `unpacking was attempted on ${u.file}, which does not exist`);
    if (!p.expected || sha(u.content) !== p.expected.toLowerCase()) return bad("unverified", `an archive of ${u.content.length} bytes with SHA-256 ${sha(u.content).slice(0, 16)}... was unpacked, the package records ${String(p.expected).slice(0, 16)}`);
  }
  if (p.state.other) return bad("command", `ran ${p.state.other}`);
  if (s.ended.how === "killed") return null;
  if (s.ended.code === 0 && s.ended.how !== "hang" && p.state.unpacked.length === 0) return bad("not-unpacked", "exit status 0 although nothing was unpacked");
  if (s.ended.code === 0 && plan.child.code !== undefined && plan.child.code !== 0) return bad("unpack-failed", "exit status 0 although unpacking failed");
  // A download that was received completely and is wrong is removed again.
  const last = p.state.served[p.state.served.length - 1];
  const quietFs = !s.fired.some((i) => plan.faults[i].code) && plan.conns.every((c) => !c.cut && !c.connect && !c.status);
  if (s.ended.how !== "hang" && s.ended.how !== "endless" && s.ended.code !== 0 && quietFs && p.state.unpacked.length === 0 && last && last.status === 200 && last.complete && p.expected && sha(last.body) !== p.expected) {
    for (const [f, n] of s.after) if (!s.before.has(f) || !s.before.get(f).data.equals(n.data)) if (!f.startsWith("/pkg/bin/")) return bad("kept", `the rejected download stays in ${f} (${n.data.length} bytes)`);
  }
  if (calmInstall(plan) && s.ended.code !== 0) return bad("refused", `exit ${s.ended.how} ${s.ended.code} although nothing went wrong: ${stderrOf(s).slice(0, 200)}`);
  return null;
}
function judgeC18(plan, s, p) {
  const bad = (tag, text) => ({ tag, text });
  if (s.ended.how === "killed") return null;
  if (s.ended.how === "hang") return bad("stuck", `the installer waits for ever; last event at ${s.lastExternal} ms`);
  if (s.ended.how === "endless" || s.connCount > 60) return bad("endless", `the installer goes on without end (${s.connCount} connections)`);
  if (s.ended.at - s.lastExternal > 300000) return bad("late", `the installer ended ${s.ended.at - s.lastExternal} ms after the last event`);
  const ok = installed(p, s);
  if (s.ended.code === 0 && !ok) return bad("not-installed", `exit status 0 although the tool is ${s.after.get("/pkg/bin/qlc") ? "not what was unpacked or not executable" : "missing"} (${s.ended.how})`);
  if (s.ended.code === 0) {
    let where;
    try { where = s.load(path.resolve("/pkg", p.packageJson.main || "index.js")); } catch (e) { where = String(e); }
    const bin = path.resolve("/pkg", String((p.packageJson.bin || {}).qlc));
    if (where !== "/pkg/bin/qlc" || bin !== where) return bad("export", `the tool is installed as /pkg/bin/qlc but the package says ${where} and ${bin}`);
  }
  if (s.ended.code !== 0 && !stderrOf(s)) return bad("silent", `exit status ${s.ended.code} without a message`);
  if (calmInstall(plan) && s.ended.code !== 0) return bad("refused", `exit ${s.ended.how} ${s.ended.code} although nothing went wrong: ${stderrOf(s).slice(0, 200)}`);
  return null;
}

const PROPS = {
  C16: { gen: genC16, arm: (p) => armDownload(p, smallSchema(p.types)), judge: judgeC16 },
  C17: { gen: (s) => genInstall("C17", s), arm: armInstall, judge: judgeC17 },
  C18: { gen: (s) => genInstall("C18", s), arm: armInstall, judge: judgeC18 },
  C25: { gen: (s) => require("./release").gen(s), run: (p) => require("./release").runPlan(p) },
};
/** Runs a plan; when it ends with the process killed, `again` is the run that finds what was left. */
async function runPlan(plan) {
  const P = PROPS[plan.prop];
  if (P.run) return P.run(plan);
  const runs = [];
  let armed = P.arm(plan);
  let s = new Sim(armed);
  await s.run();
  runs.push(s);
  let viol = P.judge(plan, s, armed);
  if (!viol && plan.again && s.ended.how === "killed") {
    const p2 = { ...plan, ...plan.again };
    delete p2.crashAt;
    delete p2.again;
    armed = P.arm(p2);
    armed.initialNodes = s.nodes;
    s = new Sim(armed);
    await s.run();
    runs.push(s);
    viol = P.judge(p2, s, armed);
  }
  return { s, armed, viol, runs, fingerprint: runs.map((x) => x.fingerprint).join("+") };
}
/** What the downloader makes of a server with this introspection result. */
async function downloadOf(full, seed) {
  const r = new Rng(seed);
  const plan = { prop: "C21", seed, sched: r.next(), speed: 0, script: "download", endpoint: r.pick(ENDPOINTS), out: "schema.json", faults: [], conns: [{ framing: r.pick(["length", "chunked", "close"]), frag: r.pick([0, 400, 3000]), gap: 3, think: 5 }] };
  const armed = armDownload(plan, full);
  const s = new Sim(armed);
  await s.run();
  const f = s.after.get(armed.outPath);
  return { code: s.ended.code, how: s.ended.how, text: f ? f.data.toString() : null, why: armed.state.rejected || stderrOf(s).slice(0, 300), fingerprint: s.fingerprint };
}
module.exports = { PROPS, runPlan, downloadOf, PKG };

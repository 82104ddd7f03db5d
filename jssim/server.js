"use strict";
// One JSON line in ({seed, full}: a full introspection result), one out: what the downloader made of it.
const { downloadOf } = require("./scenarios");
const rl = require("readline").createInterface({ input: process.stdin });
let last = Promise.resolve();
rl.on("line", (l) => {
  last = last.then(async () => {
    let r;
    try {
      const q = JSON.parse(l);
      r = await downloadOf(q.full, q.seed);
    } catch (e) {
      r = { trouble: String(e && e.stack) };
    }
    process.stdout.write(JSON.stringify(r) + "\n");
  });
});

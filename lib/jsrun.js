// Calls the JavaScript packages built from /repo: one JSON request per line, one answer per line.
const mod = require(process.argv[2]);
require("readline").createInterface({ input: process.stdin }).on("line", (l) => {
  const q = JSON.parse(l);
  const args = q.args.map((a) => (a && a.utf8 ? Buffer.from(a.utf8).toString("utf8") : a));
  let r;
  try {
    r = { ok: true, value: mod[q.fn](...args) };
  } catch (e) {
    r = e instanceof WebAssembly.RuntimeError || e instanceof RangeError ? { ok: false, panic: String(e) } : { ok: false, err: String(e) };
  }
  console.log(JSON.stringify(r));
});

// node run.js MODULE LEVEL LONG SHARD SHARDS NAMES   prints "FAMILY CASE HASH" lines (P for a trap), ends with "END n"
// node run.js MODULE LEVEL LONG only FAMILY CASE NAMES
const fs = require("fs");
const [file, level, long, a, b, c, d] = process.argv.slice(2);
const mod = new WebAssembly.Module(fs.readFileSync(file));
let x;
function fresh() { x = new WebAssembly.Instance(mod).exports; return x.init(+level, +long); }
function run(f, i, say) {
  try { return BigInt.asUintN(64, x.run(f, i, say)).toString(16).padStart(16, "0"); }
  catch (e) { if (!(e instanceof WebAssembly.RuntimeError)) throw e; return "P"; }
}
const n = fresh();
if (a === "only") {
  const names = d.split(","), f = names.indexOf(b);
  const h = run(f, +c, 1);
  console.log(h);
  if (h !== "P") console.log(Buffer.from(x.memory.buffer, x.text_ptr(), x.text_len()).toString());
} else {
  const names = c.split(","), shard = +a, shards = +b;
  let at = 0, done = 0, out = [];
  const mark = fs.openSync(process.env.MARK, "w"), where = new BigUint64Array(2); // the case being run
  for (let f = 0; f < n; f++) {
    const m = x.cases(f);
    for (let i = 0; i < m; i++) {
      if (at % shards === shard) {
        where[0] = BigInt(f); where[1] = BigInt(i);
        fs.writeSync(mark, where, 0, 16, 0);
        const h = run(f, i, 0);
        if (h === "P") fresh();
        out.push(names[f] + " " + i + " " + h);
        done++;
      }
      at++;
    }
  }
  process.stdout.write(out.join("\n") + "\nEND " + done + "\n");
}

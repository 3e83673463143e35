// Cross-validates the harness's reference model with another implementation
// of the format: the JavaScript `source-map` library that rusty-source-map is
// a port of. Development aid; no registered check runs it.
//   harness emit 5000 1 | node xval.js [path to source-map 0.7.x]
const path = process.argv[2] || "/opt/veriftools/node/node_modules/@stryker-mutator/core/node_modules/source-map";
const { SourceMapConsumer } = require(path);
const util = require(path + "/lib/util.js");
const rl = require("readline").createInterface({ input: process.stdin });
const n = {}, bad = {};
function judge(kind, ok, what) {
  n[kind] = (n[kind] || 0) + 1;
  if (!ok) { bad[kind] = (bad[kind] || 0) + 1; if (bad[kind] <= 5) console.log("DIFF", kind, JSON.stringify(what).slice(0, 3000)); }
}
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);
const sorted = v => v.map(x => JSON.stringify(x)).sort();
const bias = l => l === null ? undefined : l ? SourceMapConsumer.LEAST_UPPER_BOUND : SourceMapConsumer.GREATEST_LOWER_BOUND;
function withBias(o, l) { const b = bias(l); if (b !== undefined) o.bias = b; return o; }
async function consumer(e) {
  const c = await new SourceMapConsumer(e.doc, e.mapUrl === null ? undefined : e.mapUrl);
  for (const r of e.requests) {
    const k = e.what + " " + r.kind, ctx = got => ({ got, r, doc: e.doc, mapUrl: e.mapUrl });
    try {
    if (r.kind === "fwd") {
      const g = c.originalPositionFor(withBias({ line: r.line, column: r.column }, r.lub));
      const got = g.line === null ? null : [g.source, g.line, g.column, g.name];
      judge(k, r.any.some(a => same(a && [a.source, a.line, a.column, a.name], got)), ctx(got));
    } else if (r.kind === "rev") {
      const g = c.generatedPositionFor(withBias({ source: r.source, line: r.line, column: r.column }, r.lub));
      const got = g.line === null ? null : [g.line, g.column];
      judge(k, r.any.some(a => same(a && [a.gline, a.gcolumn], got)), ctx(got));
    } else if (r.kind === "all") {
      const o = { source: r.source, line: r.line };
      if (r.column !== null) o.column = r.column;
      const got = c.allGeneratedPositionsFor(o).map(m => [m.line, m.column]);
      judge(k, same(sorted(got), sorted(r.set)), ctx(got));
    } else if (r.kind === "each") {
      const got = [];
      c.eachMapping(m => got.push([m.generatedLine, m.generatedColumn, m.source, m.originalLine, m.originalColumn, m.name]), null,
        r.original ? SourceMapConsumer.ORIGINAL_ORDER : SourceMapConsumer.GENERATED_ORDER);
      judge(k, same(sorted(got), sorted(r.set)), ctx(got));
    } else if (r.kind === "content") {
      let got;
      try { got = c.sourceContentFor(r.source, true); } catch (x) { got = String(x); }
      judge(k, (got === undefined ? null : got) === r.text, ctx(got));
    } else if (r.kind === "hasall") {
      judge(k, c.hasContentsOfAllSources() === r.value, ctx(c.hasContentsOfAllSources()));
    } else if (r.kind === "sources") {
      judge(k, same(c.sources, r.list), ctx(c.sources));
    }
    } catch (x) { judge(k + " threw", false, ctx(String(x))); }
  }
  c.destroy && c.destroy();
}
(async () => {
  for await (const line of rl) {
    const e = JSON.parse(line);
    try {
    if (e.what === "join") {
      judge("join", util.join(e.root, e.path) === e.join, [e, util.join(e.root, e.path)]);
      judge("normalize", util.normalize(e.path) === e.normalize, [e, util.normalize(e.path)]);
      if (e.relative !== null) judge("relative", util.relative(e.root, e.path) === e.relative, [e, util.relative(e.root, e.path)]);
    } else if (e.what === "names") {
      const got = e.sources.map(s => util.computeSourceURL(e.root, s, e.mapUrl));
      judge("names", same(got, e.resolved), [e, got]);
    } else await consumer(e);
    } catch (x) { judge(e.what + " threw", false, [String(x), e]); }
  }
  console.log("compared", n, "different", bad);
})();

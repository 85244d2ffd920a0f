// Reads documents, one JSON array of code points per line, and writes down
// what styx-js makes of each.  It decides nothing.
import readline from "node:readline";
import fs from "node:fs";
import { pathToFileURL } from "node:url";
const { parse, ParseError } = await import(pathToFileURL(process.argv[2]).href);
const cps = (s) => Array.from(s, (c) => c.codePointAt(0));
const span = (s) => [s.start, s.end];
const entries = (es) => es.map((e) => [value(e.key), value(e.value)]);
function value(v) {
  const tag = v.tag ? [0, ...cps(v.tag.name)] : [];
  const p = v.payload;
  if (!p) return [tag, "none", "", [], [], [], span(v.span), span(v.span)];
  const r =
    p.type === "scalar"
      ? ["scalar", p.kind[0].toUpperCase() + p.kind.slice(1), cps(p.text), [], []]
      : p.type === "sequence"
        ? ["seq", "", [], p.items.map(value), []]
        : ["obj", "", [], [], entries(p.entries)];
  return [tag, ...r, span(v.span), span(p.span)];
}
function read(src) {
  try {
    return ["tree", entries(parse(src).entries)];
  } catch (e) {
    if (e instanceof ParseError) return ["error", e.message, span(e.span)];
    return ["crash", String(e)];
  }
}
for await (const line of readline.createInterface({ input: process.stdin })) {
  fs.writeSync(1, JSON.stringify(read(JSON.parse(line).map((c) => String.fromCodePoint(c)).join(""))) + "\n");
}

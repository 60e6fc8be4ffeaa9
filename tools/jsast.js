// Prints the syntax tree of a JavaScript module as JSON (ESTree). Nothing of the module is executed.
const acorn = require("/opt/veriftools/node/node_modules/acorn");
const src = require("fs").readFileSync(process.argv[2], "utf8");
const t = acorn.parse(src, { ecmaVersion: "latest", sourceType: "module", locations: true });
console.log(JSON.stringify(t, (k, v) => {
    if (k === "start" || k === "end") return undefined;
    if (k === "loc") return v.start.line;
    if (typeof v === "bigint") return { bigint: String(v) };
    if (v instanceof RegExp) return { regex: String(v) };
    return v;
}));

// Bundles real modules of /repo/src (TypeScript, from the working tree) into one
// CommonJS function body, so that every simulated process evaluates its own
// fresh copy of the code under test with simulated globals and builtins.
import { createRequire } from "node:module";
import { mkdtempSync, writeFileSync, readFileSync, rmSync, existsSync } from "node:fs";
import { tmpdir } from "node:os";
import { join, dirname } from "node:path";
import { pathToFileURL } from "node:url";
import vm from "node:vm";

export const REPO = process.env.DOMOTION_REPO ?? "/repo";
const repoRequire = createRequire(join(REPO, "package.json"));

// Parameters every bundle is wrapped in; each shadows the global of that name.
export const PARAMS = [
  "require", "module", "exports", "process", "setTimeout", "clearTimeout",
  "setInterval", "clearInterval", "setImmediate", "clearImmediate", "queueMicrotask",
  "Date", "Math", "performance", "fetch", "AbortController", "AbortSignal", "console", "globalThis", "global",
  "Atomics", "URLFETCH__unused", "crypto",
];

const INTERNAL_PACKAGES = new Set(["@xterm/headless"]); // bundled, so they get simulated timers too

function loadEsbuild() {
  for (const base of [join(REPO, "package.json"), "/opt/veriftools/node/package.json", "/opt/veriftools/node/node_modules/x.js"]) {
    try { return createRequire(base)("esbuild"); } catch { /* next */ }
  }
  throw new Error("esbuild not found");
}

/** entries: {name: "src/path.ts"} → text of a CJS body exporting {name: namespace}. */
export async function buildBundle(entries, o = {}) {
  const esbuild = loadEsbuild();
  const src = Object.entries(entries)
    .map(([k, p]) => `export * as ${k} from ${JSON.stringify(p.startsWith("/") ? p : join(REPO, p))};`).join("\n");
  const res = await esbuild.build({
    stdin: { contents: src, resolveDir: REPO, sourcefile: "sim-entry.ts", loader: "ts" },
    bundle: true, write: false, platform: "node", format: "cjs", target: "node22",
    logLevel: "silent", sourcemap: false, keepNames: false, charset: "utf8", supported: { "dynamic-import": false },
    define: { "import.meta.url": "__SIM_IMPORT_META_URL__" },
    tsconfigRaw: "{}",
    plugins: [{
      name: "sim",
      setup(b) {
        b.onResolve({ filter: /harfbuzzjs\/dist\/index\.mjs$/ }, () => ({ path: "sim-shared:harfbuzz", external: true }));
        b.onResolve({ filter: /^[^./]/ }, (a) => {
          if (a.path.startsWith("sim-lazy:")) return { path: a.path, external: true };
          if (a.path.startsWith("/")) return null;
          if (INTERNAL_PACKAGES.has(a.path)) return null;
          if (a.kind === "entry-point") return null;
          return { path: a.path, external: true };
        });
        if (o.stub) {
          b.onResolve({ filter: /^\./ }, (a) => {
            const abs = join(a.resolveDir, a.path).replace(/\.js$/, ".ts");
            return o.stub.some(([re]) => re.test(abs)) ? { path: abs, namespace: "sim-stub" } : null;
          });
          b.onLoad({ filter: /.*/, namespace: "sim-stub" }, (a) => ({ contents: o.stub.find(([re]) => re.test(a.path))[1], loader: "js" }));
        }
        if (o.lazy) {
          // separate bundles of the same real code, evaluated only if a run uses them
          b.onResolve({ filter: /^\./ }, (a) => {
            if (a.namespace !== "file" || a.resolveDir === "") return null;
            const abs = join(a.resolveDir, a.path).replace(/\.js$/, ".ts");
            if (!o.lazy.some((re) => re.test(abs)) || !existsSync(abs)) return null;
            o.lazyFound?.add(abs);
            return { path: abs, namespace: "sim-lazy" };
          });
          b.onLoad({ filter: /.*/, namespace: "sim-lazy" }, (a) => {
            const r = `require(${JSON.stringify("sim-lazy:" + a.path)})`;
            return { contents: `module.exports = new Proxy({}, { get(_, k) { return k === "__esModule" ? true : ${r}[k]; }, has(_, k) { return k in ${r}; } });`, loader: "js" };
          });
        }
        b.onLoad({ filter: /\.(ts|tsx|js|mjs)$/ }, (a) => {
          if (!a.path.startsWith(REPO) || a.path.includes("/node_modules/")) return null;
          let contents = readFileSync(a.path, "utf8");
          for (const f of o.patch ?? []) contents = f(a.path, contents) ?? contents;
          if (contents.includes("import.meta.url")) {
            contents = contents.replaceAll("import.meta.url", JSON.stringify(pathToFileURL(a.path).href));
          }
          return { contents, loader: a.path.endsWith("x") ? "tsx" : a.path.endsWith(".ts") ? "ts" : "js", resolveDir: dirname(a.path) };
        });
      },
    }],
  });
  return res.outputFiles[0].text;
}

const lazyCompiled = new Map();
function lazyBundle(file, abs) {
  const f = JSON.parse(readFileSync(join(dirname(file), "lazy.json"), "utf8"))[abs];
  if (!lazyCompiled.has(f)) lazyCompiled.set(f, compileBundle(readFileSync(f, "utf8"), f));
  return lazyCompiled.get(f);
}
export function compileBundle(text, filename = "sim-bundle.cjs") {
  const code = `(function(${PARAMS.join(",")}){"use strict";${text}\n})`;
  const script = new vm.Script(code, { filename });
  const fn = script.runInThisContext();
  return Object.assign((g) => {
    const mod = { exports: {} };
    const inst = new Map(); const plain = g.require;
    const require = (n) => {
      if (!n.startsWith("sim-lazy:")) return plain(n);
      if (n.startsWith("sim-lazy:bin:")) return lazyBundle(filename, n.slice(9))({ ...g, require: plain }); // a command: runs as it loads
      if (!inst.has(n)) inst.set(n, lazyBundle(filename, n.slice(9))({ ...g, require: plain }).m);
      return inst.get(n);
    };
    require.resolve = plain.resolve; g = { ...g, require };
    const args = PARAMS.map((p) => (p === "module" ? mod : p === "exports" ? mod.exports : g[p]));
    fn.apply(undefined, args);
    if (typeof mod.exports === "object") Object.defineProperty(mod.exports, "__bin", { value: (n) => require(`sim-lazy:bin:${n}`) });
    return mod.exports;
  }, { file: filename });
}

/** Pure computational dependencies (wasm) are loaded once per worker and shared. */
export const shared = new Map();
export async function preloadShared(text) {
  if (!shared.has("sim-shared:harfbuzz")) shared.set("sim-shared:harfbuzz", await import(pathToFileURL(join(REPO, "vendor/harfbuzzjs/dist/index.mjs")).href));
}

/** Build in the master, hand workers a path. */
export async function bundleToFile(entries, o) {
  const dir = mkdtempSync(join(tmpdir(), "domosim-"));
  const file = join(dir, "bundle.cjs");
  const lazyFound = new Set();
  writeFileSync(file, await buildBundle(entries, { ...o, lazyFound }));
  let n = 0; const lazy = {};
  for (const [name, path] of Object.entries(o?.bins ?? {})) { const f = join(dir, `bin-${name}.cjs`); writeFileSync(f, await buildBundle({ m: path, ttp: "src/render/text-to-path.ts" }, { ...o, lazy: undefined })); lazy[`bin:${name}`] = f; }
  for (const abs of lazyFound) { const f = join(dir, `lazy${n++}.cjs`); writeFileSync(f, await buildBundle({ m: abs }, { ...o, lazy: undefined })); lazy[abs] = f; }
  writeFileSync(join(dir, "lazy.json"), JSON.stringify(lazy));
  return { dir, file, dispose: () => { if (existsSync(dir)) rmSync(dir, { recursive: true, force: true }); } };
}
export { repoRequire };

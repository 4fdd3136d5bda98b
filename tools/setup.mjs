// Nothing to build ahead of time: each check bundles /repo's working tree itself.
import { createRequire } from "node:module";
const major = Number(process.versions.node.split(".")[0]);
if (major < 20) { console.error("node >= 20 needed"); process.exit(1); }
try { createRequire("/repo/package.json")("esbuild"); } catch { createRequire("/opt/veriftools/node/package.json")("esbuild"); }
console.log("ok");

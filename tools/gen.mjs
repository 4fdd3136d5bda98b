import { writeFileSync } from "node:fs";
import { dirname, join } from "node:path"; import { fileURLToPath } from "node:url";
import { props, notApplicable, TECH } from "./defs.mjs";
const root = join(dirname(fileURLToPath(import.meta.url)), "..");
const clean = ({ note, ...p }) => p;
writeFileSync(join(root, "properties.jsonl"), [...props, ...notApplicable.map(({ reason, ...p }) => p)].map((p) => JSON.stringify(clean(p))).join("\n") + "\n");
for (const p of [...props, ...notApplicable]) { if (p.title.length > 80) throw new Error(`${p.id} title ${p.title.length}`); const n = p.statement.split(/(?<=[.])\s+(?=[A-Z])/).length; if (n > 3) throw new Error(`${p.id} has ${n} sentences`); }
writeFileSync(join(root, "MANIFEST.json"), JSON.stringify({
  version: 1, setup_cmd: "node tools/setup.mjs",
  checks: props.map((p) => ({ property: p.id, quick_cmd: `node sim/check.mjs ${p.id} --tier quick`, thorough_cmd: `node sim/check.mjs ${p.id} --tier thorough`, technique: TECH, level: "exploration", level_note: `${p.note} Samples schedules and fault sequences by seed; no exhaustiveness. A reported violation is an exact, replayable execution of the real code; the modelled environment (listed in the evidence as stubs) is trusted.` })),
  not_applicable: notApplicable.map((p) => ({ property: p.id, reason: p.reason })),
}, null, 1) + "\n");

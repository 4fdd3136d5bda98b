#!/usr/bin/env node
// node sim/check.mjs <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--one INDEX] [--runs N]
import { main } from "./core/runner.mjs";
main(process.argv.slice(2));

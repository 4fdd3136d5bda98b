From 71c197198d049d73af0376d4e7aee31e7fe4e4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 01/61] fix: keep the remote-image timeout armed while the
 response body is read

---
 src/capture/embed.ts | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/capture/embed.ts b/src/capture/embed.ts
index 00dcdc1..299102b 100644
--- a/src/capture/embed.ts
+++ b/src/capture/embed.ts
@@ -313,7 +313,7 @@ export async function embedRemoteImages(
     for (let attempt = 0; attempt <= retries; attempt++) {
       if (attempt > 0) await delay(retryBackoffMs);
       try {
-        const res = await fetchWithTimeout(url, timeoutMs);
+        const { res, buf } = await fetchWithTimeout(url, timeoutMs);
         if (!res.ok) {
           // 4xx is deterministic — retrying won't help, so bail immediately.
           if (res.status < 500) {
@@ -323,7 +323,6 @@ export async function embedRemoteImages(
           lastFailure = { kind: "status", status: res.status };
           continue;
         }
-        const buf = Buffer.from(await res.arrayBuffer());
         // Prefer Content-Type, fall back to URL-suffix sniff. NYT-style URLs
         // often carry a `?format=pjpg&...` suffix that would defeat extension
         // sniffing on its own.
@@ -352,16 +351,20 @@ function delay(ms: number): Promise<void> {
 }
 
 /**
- * DM-528: wrap `fetch` with `AbortController` so a stalled host can't hang
- * the capture indefinitely. AbortError thrown on timeout is normalized to a
+ * DM-528: wrap `fetch` (headers AND body) with `AbortController` so a stalled
+ * host can't hang the capture indefinitely. AbortError thrown on timeout is normalized to a
  * named `RemoteImageTimeoutError` so the warning detail tells consumers
  * "this URL didn't respond in time" rather than the generic AbortError.
  */
-async function fetchWithTimeout(url: string, timeoutMs: number): Promise<Response> {
+async function fetchWithTimeout(url: string, timeoutMs: number): Promise<{ res: Response; buf: Buffer }> {
   const controller = new AbortController();
   const timer = setTimeout(() => controller.abort(), timeoutMs);
   try {
-    return await fetch(url, { signal: controller.signal });
+    const res = await fetch(url, { signal: controller.signal });
+    // The body is read under the same deadline: a host that sends headers and
+    // then stalls mid-body must time out like one that never answers.
+    const buf = res.ok ? Buffer.from(await res.arrayBuffer()) : Buffer.alloc(0);
+    return { res, buf };
   } catch (err) {
     if (err instanceof Error && err.name === "AbortError") {
       const e = new Error(`timed out after ${timeoutMs}ms`);
-- 
2.43.0


From 18fe953e755d7c069050b3697d8ca1de5fd0cac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:49 +0000
Subject: [PATCH 02/61] fix: discard ffmpeg's stderr in quiet mode instead of
 piping it to nobody

A quiet export piped ffmpeg's stderr without reading it; once the pipe was
full ffmpeg blocked, stopped reading frames, and the export hung.
---
 src/cli/svg-to-video-core.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index df7a864..171ba86 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -773,7 +773,9 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
     });
 
     log(`ffmpeg ${ffArgs.join(" ")}`);
-    const ff = spawn(ffmpeg, ffArgs, { stdio: ["pipe", "inherit", opts.quiet ? "pipe" : "inherit"] });
+    // Quiet discards ffmpeg's stderr. A pipe nobody reads would fill up on a long
+    // encode (ffmpeg reports progress continuously) and block ffmpeg for good.
+    const ff = spawn(ffmpeg, ffArgs, { stdio: ["pipe", "inherit", opts.quiet ? "ignore" : "inherit"] });
     const ffStdin = ff.stdin;
     if (!ffStdin) throw new Error("ffmpeg stdin pipe unavailable");
     const ffDone = new Promise<void>((resolve, reject) => {
-- 
2.43.0


From 7d7d44c0954b5bcad9cb121068afbad86c1e6951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 03/61] fix: survive an encoder that dies mid-export, and stop
 it when the export fails

A broken stdin pipe or an early exit of ffmpeg raised an unhandled 'error' /
rejection that took the whole process down, and a failed export (page crash,
unwritable frames dir) left ffmpeg running, waiting for more frames.
---
 src/cli/svg-to-video-core.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/cli/svg-to-video-core.ts b/src/cli/svg-to-video-core.ts
index 171ba86..7519a6c 100644
--- a/src/cli/svg-to-video-core.ts
+++ b/src/cli/svg-to-video-core.ts
@@ -18,7 +18,7 @@
  * `checkDiskSpace`) that are unit-tested without spawning Chromium/ffmpeg.
  */
 
-import { spawn, spawnSync } from "node:child_process";
+import { type ChildProcess, spawn, spawnSync } from "node:child_process";
 import { existsSync, mkdirSync, statfsSync, writeFileSync } from "node:fs";
 import path from "node:path";
 import { readFile } from "node:fs/promises";
@@ -635,6 +635,7 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
   }
 
   const browser = await opts.launchBrowser();
+  let encoder: ChildProcess | undefined;
   try {
     // Supersample by rendering the context at deviceScaleFactor = scale, then
     // letting ffmpeg downscale to the target size (crisper edges / text in the
@@ -776,12 +777,18 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
     // Quiet discards ffmpeg's stderr. A pipe nobody reads would fill up on a long
     // encode (ffmpeg reports progress continuously) and block ffmpeg for good.
     const ff = spawn(ffmpeg, ffArgs, { stdio: ["pipe", "inherit", opts.quiet ? "ignore" : "inherit"] });
+    encoder = ff;
     const ffStdin = ff.stdin;
     if (!ffStdin) throw new Error("ffmpeg stdin pipe unavailable");
     const ffDone = new Promise<void>((resolve, reject) => {
       ff.on("error", reject);
       ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}`))));
     });
+    // ffmpeg may die before the frame loop gets to awaiting it: the failure then
+    // surfaces through the frame write, so neither the early rejection nor the
+    // broken pipe's 'error' event may take the whole process down.
+    ffDone.catch(() => {});
+    ffStdin.on("error", () => {});
 
     const writeFrame = (buf: Buffer): Promise<void> =>
       new Promise((resolve, reject) => {
@@ -805,8 +812,11 @@ export async function runSvgToVideo(opts: SvgToVideoOptions): Promise<void> {
 
     ffStdin.end();
     await ffDone;
+    encoder = undefined;
     log(`wrote ${opts.output}`);
   } finally {
+    // On failure, don't leave the encoder waiting for frames that will never come.
+    encoder?.kill("SIGKILL");
     await browser.close();
   }
 }
-- 
2.43.0


From 90036d1b3f1b1a385336fa066a4a5b65041b20b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:09 +0000
Subject: [PATCH 04/61] fix: svg-scrubber recovers after opening its Chromium
 page fails

---
 src/scrubber/server.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 2f0f0cb..2bb5a3d 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -350,7 +350,11 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
   const getPage = async (): Promise<Page> => {
     if (browser == null) browser = await inputs.launchBrowser();
     if (pagePromise == null) {
-      pagePromise = browser.newContext({ deviceScaleFactor: 1 }).then((ctx) => ctx.newPage());
+      const opening = browser.newContext({ deviceScaleFactor: 1 }).then((ctx) => ctx.newPage());
+      // Never keep a failed page: whatever made it fail, the next request must
+      // get a new attempt rather than the same rejection forever.
+      opening.catch(() => { if (pagePromise === opening) pagePromise = null; });
+      pagePromise = opening;
     }
     return pagePromise;
   };
-- 
2.43.0


From a7e50011d4486168d47dec0aae3393a5d96b1406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:09 +0000
Subject: [PATCH 05/61] fix: svg-scrubber closes the browser it replaces

---
 src/scrubber/server.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 2bb5a3d..311b12e 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -370,7 +370,13 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
       const msg = String(err instanceof Error ? err.message : err);
       if (/\b(closed|crashed|disconnected|Target (?:page|closed)|browser has been closed)\b/i.test(msg)) {
         pagePromise = null;
-        if (/browser/i.test(msg)) browser = null;
+        // Playwright's "Target page, context or browser has been closed" does not
+        // say which of them it was, so close the browser being dropped: if it is
+        // still alive nothing else would ever close it.
+        if (/browser/i.test(msg) && browser != null) {
+          void browser.close().catch(() => {});
+          browser = null;
+        }
       }
     });
     return run;
-- 
2.43.0


From bf4149ac6fb7473927b25a638b05e4b763beeed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:13 +0000
Subject: [PATCH 06/61] fix: svg-scrubber survives a failing video encoder and
 stops it when an export fails

---
 src/scrubber/server.ts | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 311b12e..da47e8d 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -158,6 +158,11 @@ async function renderRangeVideo(page: Page, svg: string, t0: number, t1: number,
     ff.on("error", reject);
     ff.on("close", (code) => (code === 0 ? resolve() : reject(new Error(`ffmpeg exited ${code}: ${ffErr.slice(-400)}`))));
   });
+  // ffmpeg may die while frames are still being rendered. The failure then
+  // surfaces through the frame write, so neither the early rejection nor the
+  // broken pipe's 'error' event may take the whole server down.
+  ffDone.catch(() => {});
+  ff.stdin!.on("error", () => {});
   const writeFrame = (buf: Buffer): Promise<void> =>
     new Promise((res, rej) => ff.stdin!.write(buf, (err) => (err ? rej(err) : res())));
   try {
@@ -172,6 +177,7 @@ async function renderRangeVideo(page: Page, svg: string, t0: number, t1: number,
     await ffDone;
     return readFileSync(outPath);
   } finally {
+    ff.kill("SIGKILL"); // a failed export must not leave ffmpeg waiting for frames (no-op once it exited)
     rmSync(dir, { recursive: true, force: true });
   }
 }
-- 
2.43.0


From 116f3bd76eb4dcda7d98ec878d5246499e74df3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:30 +0000
Subject: [PATCH 07/61] fix: svg-scrubber no longer launches a browser after it
 was closed

---
 src/scrubber/server.ts | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index da47e8d..0bac579 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -350,11 +350,21 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
   const log = inputs.log ?? (() => {});
   let browser: Browser | null = null;
   let pagePromise: Promise<Page> | null = null;
+  let closed = false;
   // Serialize Chromium work — one reused page, one request at a time.
   let queue: Promise<unknown> = Promise.resolve();
 
   const getPage = async (): Promise<Page> => {
-    if (browser == null) browser = await inputs.launchBrowser();
+    // Work queued by a client that has since gone may still run after close().
+    if (closed) throw new HttpError(503, "server is shutting down");
+    if (browser == null) {
+      const launched = await inputs.launchBrowser();
+      if (closed) {
+        await launched.close().catch(() => {});
+        throw new HttpError(503, "server is shutting down");
+      }
+      browser = launched;
+    }
     if (pagePromise == null) {
       const opening = browser.newContext({ deviceScaleFactor: 1 }).then((ctx) => ctx.newPage());
       // Never keep a failed page: whatever made it fail, the next request must
@@ -523,6 +533,7 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
     port: local.port,
     close: async () => {
       await local.close();
+      closed = true;
       if (browser != null) { await browser.close().catch(() => {}); browser = null; }
     },
   };
-- 
2.43.0


From f15e6f286c10d8d105bdded2ed95bb35927590eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:30 +0000
Subject: [PATCH 08/61] fix: svg-scrubber review tickets never overwrite each
 other

---
 src/scrubber/server.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/scrubber/server.ts b/src/scrubber/server.ts
index 0bac579..b62342b 100644
--- a/src/scrubber/server.ts
+++ b/src/scrubber/server.ts
@@ -22,7 +22,7 @@
 import type { IncomingMessage, ServerResponse } from "node:http";
 import { startLocalServer } from "../utils/local-server.js";
 import { spawn } from "node:child_process";
-import { mkdtempSync, readFileSync, rmSync, writeFileSync } from "node:fs";
+import { existsSync, mkdtempSync, readFileSync, rmSync, writeFileSync } from "node:fs";
 import { tmpdir } from "node:os";
 import { join } from "node:path";
 import { z } from "zod";
@@ -407,6 +407,7 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
   const shellHtml = SHELL(bootstrap);
   // DM-1445: review mode writes `.ticket` files here (the launch cwd).
   const ticketDir = inputs.ticketDir ?? process.cwd();
+  const usedTicketNames = new Set<string>();
 
   const handler = async (req: IncomingMessage, res: ServerResponse): Promise<void> => {
     const url = (req.url ?? "/").split("?")[0];
@@ -477,8 +478,12 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
         // launch cwd and return its absolute path (also logged).
         if (inputs.review !== true) throw new HttpError(404, "review mode is not enabled (run svg-scrubber --review)");
         const body = await parseBody(req, TICKET_BODY);
-        const stamp = Date.now();
         const slug = ticketSlug(body.svgName);
+        // Two reports in the same millisecond (or after the clock stepped back)
+        // must not share a file: the later one would overwrite the earlier.
+        let stamp = Date.now();
+        while (usedTicketNames.has(`${slug}-${stamp}`) || existsSync(join(ticketDir, `${slug}-${stamp}.ticket`))) stamp++;
+        usedTicketNames.add(`${slug}-${stamp}`);
         // DM-1449: optionally render the current frame to a sibling PNG (the
         // whole frame at `frameTimeMs`, so it carries context for any number of
         // regions). Reuses the same seek+screenshot path as /export-frame.
@@ -510,7 +515,7 @@ export async function startScrubberServer(inputs: ScrubberServerInputs): Promise
           framePng,
         });
         const outPath = join(ticketDir, filename);
-        writeFileSync(outPath, content, "utf-8");
+        writeFileSync(outPath, content, { encoding: "utf-8", flag: "wx" });
         log(`📝 wrote ticket: ${outPath}`);
         sendJson(res, 200, { path: outPath, filename, title: ticket.title, framePng });
         return;
-- 
2.43.0


From 42b33553e517db3b92ecca6608bf41809f0e505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 09/61] fix: a hanging one-shot glyph helper no longer blocks
 the render forever

---
 src/render/glyph-helper.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/render/glyph-helper.ts b/src/render/glyph-helper.ts
index 8749422..ba2c780 100644
--- a/src/render/glyph-helper.ts
+++ b/src/render/glyph-helper.ts
@@ -702,7 +702,10 @@ function callHelper(request: HelperRequest): HelperResponse {
   const proc = spawnSync(bin, [], {
     input: JSON.stringify(request),
     encoding: "utf-8",
-    maxBuffer: 64 * 1024 * 1024
+    maxBuffer: 64 * 1024 * 1024,
+    // The persistent channel above gives up after 30 s; without a limit here the
+    // same stuck helper would then block the caller forever.
+    timeout: 60_000
   });
   profAccum("helper-spawnSync", profNow() - _t0);
   if (proc.status !== 0) {
-- 
2.43.0


From fdf13e6e5d22331e2ecea644bae82d8a02f88bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 10/61] fix: glyph helper answers keep characters that a read
 splits

---
 src/render/glyph-helper.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/render/glyph-helper.ts b/src/render/glyph-helper.ts
index ba2c780..52833d9 100644
--- a/src/render/glyph-helper.ts
+++ b/src/render/glyph-helper.ts
@@ -27,6 +27,7 @@
 import { spawn, spawnSync, type ChildProcess } from "node:child_process";
 import { hostPlatform } from "./host-platform.js";
 import { existsSync, openSync, readSync, writeSync } from "node:fs";
+import { StringDecoder } from "node:string_decoder";
 import path from "node:path";
 import { fileURLToPath } from "node:url";
 import { acquireGlyphHelperSync } from "./helper-acquire.js";
@@ -625,6 +626,9 @@ function callHelperPersistent(request: HelperRequest, bin: string): HelperRespon
     const _r0 = profNow();
     let bytesIn = 0;
     const tmp = Buffer.allocUnsafe(1 << 20);
+    // One read can end in the middle of a multi-byte character (a full pipe does);
+    // the decoder holds such a partial character back until the rest arrives.
+    const decoder = new StringDecoder("utf8");
     const rDeadline = Date.now() + 30_000;
     while (!serverLeftover.includes("\n")) {
       let n: number;
@@ -637,7 +641,7 @@ function callHelperPersistent(request: HelperRequest, bin: string): HelperRespon
         }
         throw e;
       }
-      if (n > 0) { serverLeftover += tmp.toString("utf-8", 0, n); bytesIn += n; }
+      if (n > 0) { serverLeftover += decoder.write(tmp.subarray(0, n)); bytesIn += n; }
       else if (n === 0) throw new Error("helper closed stdout"); // EOF
     }
     if (renderProfileEnabled) {
-- 
2.43.0


From 3832a0173619b66fc9454794130f7abb48ac83e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 11/61] fix: a glyph helper that cannot be spawned no longer
 crashes the process

---
 src/render/glyph-helper.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/render/glyph-helper.ts b/src/render/glyph-helper.ts
index 52833d9..af0ca89 100644
--- a/src/render/glyph-helper.ts
+++ b/src/render/glyph-helper.ts
@@ -469,6 +469,9 @@ function startPersistentViaPipe(bin: string): boolean {
     persistentDisabled = true;
     return false;
   }
+  // A spawn can also fail by event, later. Unheard, that event ends the process —
+  // including when this function has already given up on the channel below.
+  proc.on("error", () => { serverProc = null; });
 
   const deadline = Date.now() + 10_000;
   let fd: number | undefined;
@@ -502,7 +505,6 @@ function startPersistentViaPipe(bin: string): boolean {
   serverInFd = fd;
   serverOutFd = fd;
   serverLeftover = "";
-  proc.on("error", () => { serverProc = null; });
   proc.on("exit", () => { serverProc = null; });
   if (!_persistentExitHookInstalled) {
     _persistentExitHookInstalled = true;
@@ -550,6 +552,7 @@ function startPersistent(bin: string): boolean {
   if (hostPlatform() === "win32") return startPersistentViaPipe(bin);
   try {
     const proc = spawn(bin, ["--serve"], { stdio: ["pipe", "pipe", "inherit"] });
+    proc.on("error", () => { serverProc = null; });
     const inFd = fdOf(proc.stdin);
     const outFd = fdOf(proc.stdout);
     // DM-1421: a Windows spawned pipe exposes fd `-1` (no real OS fd), so the
@@ -576,7 +579,6 @@ function startPersistent(bin: string): boolean {
     serverInFd = inFd;
     serverOutFd = outFd;
     serverLeftover = "";
-    proc.on("error", () => { serverProc = null; });
     proc.on("exit", () => { serverProc = null; });
     if (!_persistentExitHookInstalled) {
       _persistentExitHookInstalled = true;
-- 
2.43.0


From 94aafb6292dd7bc60da88bad8b14d96173ff611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:46 +0000
Subject: [PATCH 12/61] fix: the late exit of a dead glyph helper no longer
 orphans its successor

---
 src/render/glyph-helper.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/render/glyph-helper.ts b/src/render/glyph-helper.ts
index af0ca89..0604f0b 100644
--- a/src/render/glyph-helper.ts
+++ b/src/render/glyph-helper.ts
@@ -471,7 +471,7 @@ function startPersistentViaPipe(bin: string): boolean {
   }
   // A spawn can also fail by event, later. Unheard, that event ends the process —
   // including when this function has already given up on the channel below.
-  proc.on("error", () => { serverProc = null; });
+  proc.on("error", () => { if (serverProc === proc) serverProc = null; });
 
   const deadline = Date.now() + 10_000;
   let fd: number | undefined;
@@ -505,7 +505,9 @@ function startPersistentViaPipe(bin: string): boolean {
   serverInFd = fd;
   serverOutFd = fd;
   serverLeftover = "";
-  proc.on("exit", () => { serverProc = null; });
+  // Arrives late — the channel blocks the event loop — so by then another helper
+  // may have taken this one's place; only forget the helper that ended.
+  proc.on("exit", () => { if (serverProc === proc) serverProc = null; });
   if (!_persistentExitHookInstalled) {
     _persistentExitHookInstalled = true;
     process.once("exit", () => { try { serverProc?.kill(); } catch { /* ignore */ } });
@@ -552,7 +554,7 @@ function startPersistent(bin: string): boolean {
   if (hostPlatform() === "win32") return startPersistentViaPipe(bin);
   try {
     const proc = spawn(bin, ["--serve"], { stdio: ["pipe", "pipe", "inherit"] });
-    proc.on("error", () => { serverProc = null; });
+    proc.on("error", () => { if (serverProc === proc) serverProc = null; });
     const inFd = fdOf(proc.stdin);
     const outFd = fdOf(proc.stdout);
     // DM-1421: a Windows spawned pipe exposes fd `-1` (no real OS fd), so the
@@ -579,7 +581,7 @@ function startPersistent(bin: string): boolean {
     serverInFd = inFd;
     serverOutFd = outFd;
     serverLeftover = "";
-    proc.on("exit", () => { serverProc = null; });
+    proc.on("exit", () => { if (serverProc === proc) serverProc = null; });
     if (!_persistentExitHookInstalled) {
       _persistentExitHookInstalled = true;
       process.once("exit", () => { try { serverProc?.kill(); } catch { /* ignore */ } });
-- 
2.43.0


From 11c8a0dcf86b7d0f62ad9f48eeab2fcb60a1b77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:42 +0000
Subject: [PATCH 13/61] fix: a full ICU memo no longer drops rows the current
 query asked for

---
 src/render/icu-helper.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/render/icu-helper.ts b/src/render/icu-helper.ts
index 1c746d1..48ecfba 100644
--- a/src/render/icu-helper.ts
+++ b/src/render/icu-helper.ts
@@ -115,7 +115,6 @@ export function queryIcuCodepoints(codepoints: readonly number[]): Map<number, I
         const response = JSON.parse(proc.stdout) as IcuResponse;
         if (response.protocolVersion === "1" && response.icuVersion === "78.2") {
           for (const row of response.properties) memo.set(row.cp, row);
-          while (memo.size > MAX_MEMO_ROWS) memo.delete(memo.keys().next().value!);
         }
       } catch { /* helper-absent mode is deliberately non-fatal */ }
     }
@@ -125,6 +124,9 @@ export function queryIcuCodepoints(codepoints: readonly number[]): Map<number, I
     const row = memo.get(cp);
     if (row != null) result.set(cp, row);
   }
+  // Evict only once this call's rows are collected, so neither a large batch
+  // nor a page added to a full memo can drop a row the caller asked for.
+  while (memo.size > MAX_MEMO_ROWS) memo.delete(memo.keys().next().value!);
   return result;
 }
 
-- 
2.43.0


From 14f8b1269f02e76f95012815db35aa6ae211d237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 14/61] fix: a glyph helper install survives power loss whole
 and leaves no temp file when it fails

---
 src/render/helper-acquire.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/render/helper-acquire.ts b/src/render/helper-acquire.ts
index 9097579..db7951d 100644
--- a/src/render/helper-acquire.ts
+++ b/src/render/helper-acquire.ts
@@ -26,7 +26,7 @@
 import { spawnSync } from "node:child_process";
 import { hostPlatform } from "./host-platform.js";
 import { createHash } from "node:crypto";
-import { chmodSync, existsSync, mkdirSync, renameSync, writeFileSync } from "node:fs";
+import { chmodSync, existsSync, mkdirSync, renameSync, rmSync, writeFileSync } from "node:fs";
 import { homedir } from "node:os";
 import path from "node:path";
 import { createRequire } from "node:module";
@@ -129,9 +129,16 @@ export async function downloadAndInstall(assetUrl: string, shaUrl: string, dest:
   if (expected.length === 0 || sha256Hex(buf) !== expected) return false;
   mkdirSync(path.dirname(dest), { recursive: true });
   const tmp = `${dest}.tmp-${process.pid}`;
-  writeFileSync(tmp, buf);
-  chmodSync(tmp, 0o755);
-  renameSync(tmp, dest); // atomic — avoids a torn binary if two processes race
+  try {
+    // Flushed before the rename: the cached binary is trusted by its presence
+    // alone, so a power loss must not leave an empty file under its name.
+    writeFileSync(tmp, buf, { flush: true });
+    chmodSync(tmp, 0o755);
+    renameSync(tmp, dest); // atomic — avoids a torn binary if two processes race
+  } catch (e) {
+    rmSync(tmp, { force: true });
+    throw e;
+  }
   return true;
 }
 
-- 
2.43.0


From 1d17876f240f3b218d3b50dc9c6f74f742ad2905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 15/61] fix: an installed glyph helper is used even when this
 process's own download failed

---
 src/render/helper-acquire.ts | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/render/helper-acquire.ts b/src/render/helper-acquire.ts
index db7951d..fd3c56a 100644
--- a/src/render/helper-acquire.ts
+++ b/src/render/helper-acquire.ts
@@ -170,7 +170,9 @@ export function acquireGlyphHelperSync(opts: AcquireOptions = {}): string | unde
     [fileURLToPath(import.meta.url), target.dest, target.assetUrl, target.shaUrl],
     { timeout: DOWNLOAD_TIMEOUT_MS, encoding: "utf-8" }
   );
-  if (proc.status === 0 && existsSync(target.dest)) return target.dest;
+  // Presence decides, not our worker's own outcome: a concurrent process may have
+  // installed the (verified) helper while this attempt failed.
+  if (existsSync(target.dest)) return target.dest;
 
   syncFailedThisProcess = true;
   // The helper owns more than outline extraction: it also supplies the live
@@ -192,11 +194,11 @@ export async function acquireGlyphHelper(opts: AcquireOptions = {}): Promise<str
   if (target == null) return null;
   if (existsSync(target.dest)) return target.dest;
   try {
-    const ok = await downloadAndInstall(target.assetUrl, target.shaUrl, target.dest);
-    return ok ? target.dest : null;
+    await downloadAndInstall(target.assetUrl, target.shaUrl, target.dest);
   } catch {
-    return null;
+    // fall through — a concurrent process may still have installed it
   }
+  return existsSync(target.dest) ? target.dest : null;
 }
 
 /** Test-only: reset the per-process "sync download already failed" latch. */
-- 
2.43.0


From 09b2b81afeadb3ea4096e74f8571addf43da53ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:57 +0000
Subject: [PATCH 16/61] fix: an ICU companion install is flushed, cleans up
 after failure and is used whoever completed it

---
 src/render/icu-helper-acquire.ts | 54 ++++++++++++++++++++------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/render/icu-helper-acquire.ts b/src/render/icu-helper-acquire.ts
index 117b32f..4af5536 100644
--- a/src/render/icu-helper-acquire.ts
+++ b/src/render/icu-helper-acquire.ts
@@ -1,7 +1,7 @@
 /** On-demand acquisition for the independently versioned ICU companion. */
 import { spawnSync } from "node:child_process";
 import { createHash } from "node:crypto";
-import { chmodSync, existsSync, mkdirSync, renameSync, writeFileSync } from "node:fs";
+import { chmodSync, existsSync, mkdirSync, renameSync, rmSync, writeFileSync } from "node:fs";
 import { homedir } from "node:os";
 import path from "node:path";
 import { fileURLToPath } from "node:url";
@@ -95,29 +95,42 @@ export async function downloadIcuCompanion(target: IcuCompanionTarget): Promise<
   const nonce = `${process.pid}-${Date.now()}`;
   const executableTmp = `${target.executablePath}.tmp-${nonce}`;
   const dataTmp = `${target.dataPath}.tmp-${nonce}`;
-  writeFileSync(executableTmp, executable);
-  chmodSync(executableTmp, 0o755);
-  writeFileSync(dataTmp, data);
-  // Install data first. A concurrent process can never observe a new helper
-  // without its matching data; rename is atomic within the cache directory.
-  renameSync(dataTmp, target.dataPath);
-  for (let i = 0; i < target.runtimeAssets.length; ++i) {
-    const item = target.runtimeAssets[i];
-    const tmp = `${item.path}.tmp-${nonce}`;
-    writeFileSync(tmp, runtime[i]!);
-    renameSync(tmp, item.path);
+  const temps = [executableTmp, dataTmp];
+  try {
+    // Flushed before the renames: the installed files are trusted by their
+    // presence alone, so a power loss must not leave them empty.
+    writeFileSync(executableTmp, executable, { flush: true });
+    chmodSync(executableTmp, 0o755);
+    writeFileSync(dataTmp, data, { flush: true });
+    // Install data first. A concurrent process can never observe a new helper
+    // without its matching data; rename is atomic within the cache directory.
+    renameSync(dataTmp, target.dataPath);
+    for (let i = 0; i < target.runtimeAssets.length; ++i) {
+      const item = target.runtimeAssets[i];
+      const tmp = `${item.path}.tmp-${nonce}`;
+      temps.push(tmp);
+      writeFileSync(tmp, runtime[i]!, { flush: true });
+      renameSync(tmp, item.path);
+    }
+    renameSync(executableTmp, target.executablePath);
+  } catch (e) {
+    for (const tmp of temps) rmSync(tmp, { force: true });
+    throw e;
   }
-  renameSync(executableTmp, target.executablePath);
   return true;
 }
 
+function isInstalled(target: IcuCompanionTarget): boolean {
+  return existsSync(target.executablePath) && existsSync(target.dataPath) && target.runtimeAssets.every(item => existsSync(item.path));
+}
+
 let failed = false;
 export function acquireIcuCompanionSync(opts: IcuAcquireOptions = {}): string | undefined {
   if (process.env.DOMOTION_ICU_HELPER_PATH) return process.env.DOMOTION_ICU_HELPER_PATH;
   if (process.env.DOMOTION_DISABLE_ICU_HELPER === "1") return undefined;
   const target = resolveIcuCompanionTarget(opts);
   if (target == null) return undefined;
-  if (existsSync(target.executablePath) && existsSync(target.dataPath) && target.runtimeAssets.every(item => existsSync(item.path))) return target.executablePath;
+  if (isInstalled(target)) return target.executablePath;
   if (failed) return undefined;
   const workerPath = fileURLToPath(import.meta.url);
   // Source-checkout commands run this module through tsx.  A child launched as
@@ -130,9 +143,9 @@ export function acquireIcuCompanionSync(opts: IcuAcquireOptions = {}): string |
     timeout: DOWNLOAD_TIMEOUT_MS,
     encoding: "utf8",
   });
-  if (proc.status === 0 && existsSync(target.executablePath) && existsSync(target.dataPath) && target.runtimeAssets.every(item => existsSync(item.path))) {
-    return target.executablePath;
-  }
+  // Presence decides, not our worker's own outcome: a concurrent process may have
+  // installed the (verified) companion while this attempt failed.
+  if (isInstalled(target)) return target.executablePath;
   failed = true;
   process.stderr.write(
     "domotion: WARNING: Chromium-matched ICU companion is unavailable; continuing with best-effort JavaScript Unicode classification. Font routing and shaping may differ from Chromium.\n"
@@ -144,12 +157,13 @@ export async function acquireIcuCompanion(opts: IcuAcquireOptions = {}): Promise
   if (process.env.DOMOTION_ICU_HELPER_PATH) return process.env.DOMOTION_ICU_HELPER_PATH;
   const target = resolveIcuCompanionTarget(opts);
   if (target == null) return null;
-  if (existsSync(target.executablePath) && existsSync(target.dataPath) && target.runtimeAssets.every(item => existsSync(item.path))) return target.executablePath;
+  if (isInstalled(target)) return target.executablePath;
   try {
-    return await downloadIcuCompanion(target) ? target.executablePath : null;
+    await downloadIcuCompanion(target);
   } catch {
-    return null;
+    // fall through — a concurrent process may still have installed it
   }
+  return isInstalled(target) ? target.executablePath : null;
 }
 
 export function __resetIcuAcquireState(): void { failed = false; }
-- 
2.43.0


From fb530a91b8ef9cdd335a1f4a1a696c7b76de88d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 17/61] fix: a horizontal scroll capture plays horizontally

---
 src/scroll/composer.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index 13f692b..9da9fa9 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -55,7 +55,8 @@ export interface ScrollComposerOptions {
   viewportW: number;
   /** Visible viewport height (output SVG height). */
   viewportH: number;
-  /** Which axis the scroll moves along. Default `"y"`. */
+  /** Which axis the scroll moves along. Default: the axis the segments move
+   *  along — `"x"` when they only move horizontally, else `"y"`. */
   axis?: "x" | "y";
   /** DM-1488: accessible name → `role="img"` + `<title>` on the root `<svg>`
    *  (for inline-`<svg>` embedding). Omit to leave the output unchanged. */
@@ -158,6 +159,12 @@ function buildStickyOverlays(
   return { markup, cullCss };
 }
 
+/** The axis a capture scrolled along: `x` only when nothing moved vertically. */
+function scrollAxisOf(segments: ScrollSegmentCapture[]): "x" | "y" {
+  const moved = (k: "scrollX" | "scrollY"): boolean => segments.some((s) => s[k] !== segments[0][k]);
+  return moved("scrollX") && !moved("scrollY") ? "x" : "y";
+}
+
 /**
  * Compose a sequence of segment-captures into one animated SVG. The output
  * starts at the first capture's content (segment 0 anchor) and animates
@@ -171,7 +178,7 @@ export function composeScrollSvg(
   if (segments.length === 0) {
     throw new Error("composeScrollSvg: at least one segment capture required");
   }
-  const axis = opts.axis ?? "y";
+  const axis = opts.axis ?? scrollAxisOf(segments);
   const W = opts.viewportW;
   const VH = opts.viewportH;
   // DM-894: paint the canvas background from the captured page's ROOT
-- 
2.43.0


From b5fb355aaadaf5c56dc78369a3e68395c9def6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 18/61] fix: a scroll segment stays visible until the view last
 leaves it, in either direction

---
 src/scroll/composer.ts | 49 ++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index 9da9fa9..96f2c24 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -228,9 +228,9 @@ export function composeScrollSvg(
  * Per-segment visibility-window math (DM-642), extracted from
  * `composeScrollSvgBody` (DM-1458). Builds the cycle's `(time-percent,
  * position-offset)` stops and returns a resolver that linearly interpolates them
- * to find the cycle-percent at which the composite's scroll position crosses a
- * target offset — `"first"` for the entering crossing, `"last"` for the leaving
- * crossing, both clamped to `[0, 100]`. `cycleStops` is returned too because the
+ * to find the cycle-percents between which the composite's scroll position comes
+ * within reach of a target offset — first arrival to last departure, both clamped
+ * to `[0, 100]`. `cycleStops` is returned too because the
  * keyframe `stops` derive from the same data (DM-1436).
  */
 function buildScrollVisibility(
@@ -239,7 +239,7 @@ function buildScrollVisibility(
   totalMs: number,
 ): {
   cycleStops: Array<{ pct: number; offset: number }>;
-  pctAtScrollY: (targetY: number, mode: "first" | "last") => number;
+  windowAround: (target: number, reach: number) => { enterPct: number; leavePct: number };
 } {
   const cycleStops: Array<{ pct: number; offset: number }> = [];
   cycleStops.push({ pct: 0, offset: segOffsets[0] });
@@ -247,27 +247,31 @@ function buildScrollVisibility(
     const endPct = (segments[i].segmentEndMs / totalMs) * 100;
     cycleStops.push({ pct: endPct, offset: segOffsets[i] });
   }
-  function pctAtScrollY(targetY: number, mode: "first" | "last"): number {
-    // Linear interpolation across cycleStops to find when scroll-y crosses
-    // targetY. With monotonic ascending scroll-y, "first" returns the first
-    // crossing (entering); "last" returns the last crossing (leaving).
-    // Out-of-range clamps to 0 / 100.
-    let hit = mode === "first" ? Number.POSITIVE_INFINITY : Number.NEGATIVE_INFINITY;
+  function windowAround(target: number, reach: number): { enterPct: number; leavePct: number } {
+    // Linear interpolation across cycleStops: clip each interval to the part
+    // whose position is within reach; the window spans the first to the last
+    // such part, in whichever direction the scroll passes the target.
+    let enterPct = Number.POSITIVE_INFINITY, leavePct = Number.NEGATIVE_INFINITY;
     for (let s = 0; s + 1 < cycleStops.length; s++) {
       const a = cycleStops[s], b = cycleStops[s + 1];
-      const lo = Math.min(a.offset, b.offset);
-      const hi = Math.max(a.offset, b.offset);
-      if (targetY < lo - 0.001 || targetY > hi + 0.001) continue;
       const span = b.offset - a.offset;
-      const t = span === 0 ? 0 : (targetY - a.offset) / span;
-      const pct = a.pct + (b.pct - a.pct) * t;
-      if (mode === "first" && pct < hit) hit = pct;
-      if (mode === "last" && pct > hit) hit = pct;
+      let from = 0, to = 1;
+      if (span === 0) {
+        if (Math.abs(a.offset - target) > reach + 0.001) continue;
+      } else {
+        const t1 = (target - reach - a.offset) / span;
+        const t2 = (target + reach - a.offset) / span;
+        from = Math.max(0, Math.min(t1, t2));
+        to = Math.min(1, Math.max(t1, t2));
+        if (from > to) continue;
+      }
+      enterPct = Math.min(enterPct, a.pct + (b.pct - a.pct) * from);
+      leavePct = Math.max(leavePct, a.pct + (b.pct - a.pct) * to);
     }
-    if (!isFinite(hit)) return mode === "first" ? 0 : 100;
-    return Math.max(0, Math.min(100, hit));
+    if (!isFinite(enterPct)) return { enterPct: 0, leavePct: 100 };
+    return { enterPct: Math.max(0, enterPct), leavePct: Math.min(100, leavePct) };
   }
-  return { cycleStops, pctAtScrollY };
+  return { cycleStops, windowAround };
 }
 
 /**
@@ -348,7 +352,7 @@ function composeScrollSvgBody(
   const segOffsets: number[] = segments.map((s) =>
     (axis === "y" ? s.scrollY : s.scrollX) - minPos,
   );
-  const { cycleStops, pctAtScrollY } = buildScrollVisibility(segments, segOffsets, totalMs);
+  const { cycleStops, windowAround } = buildScrollVisibility(segments, segOffsets, totalMs);
 
   // ── Render each capture's content at its position offset ──
   const captureGroups: string[] = [];
@@ -383,8 +387,7 @@ function composeScrollSvgBody(
     // acceptable on every device we've profiled.
     const dim = axis === "y" ? VH : W;
     const rasterBuffer = dim;
-    const enterPct = pctAtScrollY(offset - dim - rasterBuffer, "first");
-    const leavePct = pctAtScrollY(offset + dim + rasterBuffer, "last");
+    const { enterPct, leavePct } = windowAround(offset, dim + rasterBuffer);
     const fullyVisible = enterPct <= 0 && leavePct >= 100;
     if (fullyVisible) {
       captureGroups.push(
-- 
2.43.0


From 988aa479ba0a480e1d88e8d867b926e064a5ad53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:33 +0000
Subject: [PATCH 19/61] fix: a scroll animation rests during the pattern's
 pauses and keeps every action's easing

---
 src/scroll/composer.ts | 44 ++++++++++++++++++++++++++++--------------
 src/scroll/executor.ts |  6 ++++++
 2 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index 96f2c24..9789abd 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -141,7 +141,7 @@ function buildStickyOverlays(
   for (let i = 0; i < stickyOverlays.length; i++) {
     const o: StickyOverlay = stickyOverlays[i];
     const visStartPct = (segments[o.firstSegmentIdx].segmentStartMs / totalMs) * 100;
-    const visEndPct = (segments[o.lastSegmentIdx].segmentEndMs / totalMs) * 100;
+    const visEndPct = (segmentHoldEndMs(segments, o.lastSegmentIdx) / totalMs) * 100;
     const alwaysVisible = visStartPct <= 0 && visEndPct >= 100;
     const inner = elementTreeToSvgInner([o.subtree], W, VH, `stk${i}-`, true, hiDPIFactor, false);
     if (alwaysVisible) {
@@ -165,6 +165,16 @@ function scrollAxisOf(segments: ScrollSegmentCapture[]): "x" | "y" {
   return moved("scrollX") && !moved("scrollY") ? "x" : "y";
 }
 
+/**
+ * Scene-time (ms) until which the view rests at segment `i`'s position: the
+ * start of the next segment's motion, or the recorded hold after the last one.
+ * Equals `segmentEndMs` when nothing pauses there.
+ */
+function segmentHoldEndMs(segments: ScrollSegmentCapture[], i: number): number {
+  const seg = segments[i];
+  return Math.max(seg.segmentEndMs, i + 1 < segments.length ? segments[i + 1].segmentStartMs : seg.holdUntilMs ?? 0);
+}
+
 /**
  * Compose a sequence of segment-captures into one animated SVG. The output
  * starts at the first capture's content (segment 0 anchor) and animates
@@ -238,14 +248,19 @@ function buildScrollVisibility(
   segOffsets: number[],
   totalMs: number,
 ): {
-  cycleStops: Array<{ pct: number; offset: number }>;
+  cycleStops: Array<{ pct: number; offset: number; motionInto: number }>;
   windowAround: (target: number, reach: number) => { enterPct: number; leavePct: number };
 } {
-  const cycleStops: Array<{ pct: number; offset: number }> = [];
-  cycleStops.push({ pct: 0, offset: segOffsets[0] });
+  const cycleStops: Array<{ pct: number; offset: number; motionInto: number }> = [];
+  cycleStops.push({ pct: 0, offset: segOffsets[0], motionInto: 0 });
   for (let i = 0; i < segments.length; i++) {
     const endPct = (segments[i].segmentEndMs / totalMs) * 100;
-    cycleStops.push({ pct: endPct, offset: segOffsets[i] });
+    cycleStops.push({ pct: endPct, offset: segOffsets[i], motionInto: i + 1 });
+    // A pause after this segment: the view rests here until the next motion begins.
+    const holdEnd = segmentHoldEndMs(segments, i);
+    if (holdEnd > segments[i].segmentEndMs) {
+      cycleStops.push({ pct: (holdEnd / totalMs) * 100, offset: segOffsets[i], motionInto: i + 1 });
+    }
   }
   function windowAround(target: number, reach: number): { enterPct: number; leavePct: number } {
     // Linear interpolation across cycleStops: clip each interval to the part
@@ -291,7 +306,7 @@ function composeScrollSvgBody(
   // The last segment's endMs is the cycle length. For a single-segment input,
   // the scene is effectively static — emit a 1 s loop so the SVG renders
   // sensibly without a degenerate 0 s animation.
-  const totalMs = Math.max(segments[segments.length - 1].segmentEndMs, 1);
+  const totalMs = Math.max(segmentHoldEndMs(segments, segments.length - 1), 1);
   const totalSec = totalMs / 1000;
 
   // ── Compute composite dimensions ──
@@ -441,16 +456,17 @@ function composeScrollSvgBody(
   // DM-1436: every stop's pct + offset is identical to `cycleStops` (built above
   // for the visibility interpolation) — both walk the segments with the same
   // `segmentEndMs/totalMs` pct and the same `scrollY/X - minPos` offset. The only
-  // extra here is the per-stop timing-function: `stops[k]` carries the easing of
-  // the interval that STARTS at it, i.e. `segments[k]` (the initial stop k=0 takes
-  // segments[0]; the trailing stop takes the absent segments[n] → null). So derive
+  // extra here is the per-stop timing-function: a stop carries the easing of the
+  // motion that STARTS at it, i.e. into `segments[motionInto]` (the initial stop
+  // takes segments[0]; the trailing stop takes the absent segments[n] → null; a
+  // pause stop repeats the next motion's, moot while the view rests). So derive
   // `stops` from `cycleStops` rather than rebuilding the same per-segment loop.
   const stops: Array<{ pct: number; offset: number; tf: string | null }> =
-    cycleStops.map((s, k) => ({ ...s, tf: cssTimingFunction(segments[k]?.easing) }));
-  // Dedupe trivially equal stops to keep CSS small (pct + offset only — a stop
-  // with the same position/time as its predecessor is a zero-motion interval
-  // whose timing-function is moot).
-  const dedupedStops = stops.filter((s, i, arr) => i === 0 || !(s.pct === arr[i - 1].pct && s.offset === arr[i - 1].offset));
+    cycleStops.map((s) => ({ pct: s.pct, offset: s.offset, tf: cssTimingFunction(segments[s.motionInto]?.easing) }));
+  // Dedupe trivially equal stops to keep CSS small (pct + offset only). Between
+  // two equal stops nothing moves, so the timing-function of the FIRST is moot;
+  // the last one starts the next real motion and is the one to keep.
+  const dedupedStops = stops.filter((s, i, arr) => i === arr.length - 1 || !(s.pct === arr[i + 1].pct && s.offset === arr[i + 1].offset));
   const translateFn = axis === "x" ? "X" : "Y";
   const keyframes = dedupedStops
     .map((s) =>
diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 47692bc..fb38e08 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -79,6 +79,10 @@ export interface ScrollSegmentCapture {
   segmentStartMs: number;
   /** Cumulative scene-time (ms) when this segment ends. */
   segmentEndMs: number;
+  /** Cumulative scene-time (ms) until which the view rests here after
+   *  `segmentEndMs` — set when a pause that changed nothing followed this
+   *  capture. Absent → until the next segment begins. */
+  holdUntilMs?: number;
   /** Captured element tree at this scroll position. */
   tree: CapturedElement[];
   /** Diff from the previous segment's capture. Null for the very first. */
@@ -389,6 +393,8 @@ export async function executeScrollPattern(
         });
         prevTree = nextTree;
         log(`  captured frame ${captures.length} (DOM changed during pause)`);
+      } else {
+        captures[captures.length - 1].holdUntilMs = sceneTime;
       }
       return;
     }
-- 
2.43.0


From f7c542c3d699cdebdcb1eda9d8b2a7281f644323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 20/61] fix: a long scroll is bounded by the scroll time budget

---
 src/scroll/executor.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index fb38e08..7b94832 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -424,6 +424,7 @@ export async function executeScrollPattern(
     const numChunks = Math.max(1, Math.ceil(Math.abs(totalDelta) / viewportSize));
     const dir = totalDelta >= 0 ? 1 : -1;
     for (let ci = 1; ci <= numChunks; ci++) {
+      checkTimeout();
       // Advance by exactly `viewportSize` per chunk so adjacent segments
       // tile contiguously (no overlap, no gap) in the composer. The final
       // chunk clamps to op.destX/op.destY so the scroll completes at the
-- 
2.43.0


From 78c649c1be9b4dce471a83891ee2ffc5784b7a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 21/61] fix: a scroll's viewport-sized steps sum to its
 duration

---
 src/scroll/executor.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 7b94832..b335737 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -438,9 +438,9 @@ export async function executeScrollPattern(
       const chunkDestY = op.axis === "y"
         ? (isLast ? op.destY : snap0.scrollY + dir * ci * viewportSize)
         : op.destY;
-      const chunkDur = isLast
-        ? op.durationMs - Math.round(op.durationMs * (ci - 1) / numChunks)
-        : Math.round(op.durationMs / numChunks);
+      // Cumulative rounding: the chunks sum to exactly op.durationMs.
+      const chunkDur = (isLast ? op.durationMs : Math.round(op.durationMs * ci / numChunks))
+        - Math.round(op.durationMs * (ci - 1) / numChunks);
       const segStart = sceneTime;
       await scrollTo(page, selector, chunkDestX, chunkDestY, chunkDur);
       sceneTime += chunkDur;
-- 
2.43.0


From 6778d353045ab5826aad367b8daea929547e442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 22/61] fix: an until loop that scrolls up or left stops at its
 target

---
 src/scroll/executor.ts | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index b335737..7fba57d 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -493,13 +493,13 @@ async function walkSegment(
   log: (msg: string) => void,
 ): Promise<void> {
   if (seg.kind === "bracketed") {
-    await runWithMaybeUntil(seg.until, async (bodyRunOp) => {
+    await runWithMaybeUntil(seg.until, seg, async (bodyRunOp) => {
       await walkPattern(seg.pattern, pageQuery, defaultSpeed, bodyRunOp, checkTimeout, log);
     }, pageQuery, defaultSpeed, runOp, checkTimeout, log);
     return;
   }
   // Flat segment.
-  await runWithMaybeUntil(seg.until, async (bodyRunOp) => {
+  await runWithMaybeUntil(seg.until, seg, async (bodyRunOp) => {
     for (const a of (seg as FlatSegment).actions) {
       await runAction(a, pageQuery, defaultSpeed, bodyRunOp);
     }
@@ -508,6 +508,7 @@ async function walkSegment(
 
 async function runWithMaybeUntil(
   until: UntilClause | undefined,
+  body: ScrollPatternSegment,
   bodyOnce: (runOp: (op: ResolvedOp) => Promise<void>) => Promise<void>,
   pageQuery: PageQuery,
   defaultSpeed: number,
@@ -532,12 +533,13 @@ async function runWithMaybeUntil(
   // op on the until axis that would otherwise pass it, so `until bottom - 1000px`
   // stops precisely 1000px from the bottom instead of one action-magnitude past
   // the target. (The resolver's page-bounds clamp still applies underneath.)
+  const backward = bodyMovesBackward(body, untilAxis(until));
   let prevSnap: PageStateSnapshot | null = null;
   const MAX_ITER = 1000;   // hard upper bound on `until <position>` loops
   for (let i = 0; i < MAX_ITER; i++) {
     checkTimeout();
     const snap = await pageQuery.snapshot();
-    if (await isUntilConditionMet(until, snap, pageQuery)) break;
+    if (await isUntilConditionMet(until, snap, pageQuery, backward)) break;
     if (prevSnap != null && snap.scrollX === prevSnap.scrollX && snap.scrollY === prevSnap.scrollY) {
       // No progress between iterations — bail to avoid an infinite loop. Unlike
       // the timeout path (which throws), an `until` that can't make progress is
@@ -590,19 +592,37 @@ function untilAxis(until: PositionUntil): ScrollAxis {
   return "y";
 }
 
+/** Whether every scroll in the loop body is an explicit delta toward the start
+ *  (`up` / `left`, or a negative length) on `axis` — a loop that approaches its
+ *  target from beyond it. */
+function bodyMovesBackward(seg: ScrollPatternSegment, axis: ScrollAxis): boolean {
+  const signs: number[] = [];
+  const collect = (s: ScrollPatternSegment): void => {
+    if (s.kind === "bracketed") { s.pattern.segments.forEach(collect); return; }
+    for (const a of s.actions) {
+      if (a.kind !== "scroll" || axisOfScroll(a) !== axis) continue;
+      signs.push(a.target.kind === "delta" ? (directionSign(a) ?? 1) * a.target.signedLength.sign : 0);
+    }
+  };
+  collect(seg);
+  return signs.length > 0 && signs.every((s) => s < 0);
+}
+
 async function isUntilConditionMet(
   until: UntilClause,
   snap: PageStateSnapshot,
   pageQuery: PageQuery,
+  backward: boolean,
 ): Promise<boolean> {
   if (until.kind === "count") return false;   // handled separately
   const axis = untilAxis(until);
   const target = await resolveAbsoluteTarget(until.target, axis, pageQuery, snap);
   const cur = axis === "x" ? snap.scrollX : snap.scrollY;
   // Condition is "we've reached or passed the target in the natural direction
-  // of motion". Inferring the natural direction: positive if target > cur at
-  // the loop's start. For the common case (scroll down until bottom), this
-  // means cur >= target stops the loop.
+  // of motion". For the common case (scroll down until bottom), this means
+  // cur >= target stops the loop; a body that moves up / left reaches its
+  // target from the other side.
+  if (backward) return cur < target + 0.5;
   return Math.abs(cur - target) < 0.5 || (target > 0 && cur >= target) || (target < 0 && cur <= target);
 }
 
-- 
2.43.0


From fb62e198fb1709867a12430b9a730be97a4947a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 23/61] fix: captures on pages with smooth scrolling are taken
 at their final scroll position

---
 src/scroll/executor.ts | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 7fba57d..31f4553 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -678,15 +678,17 @@ function realPageQuery(page: Page, selector: string | null): PageQuery {
 
 async function scrollTo(page: Page, selector: string | null, destX: number, destY: number, durationMs: number): Promise<void> {
   if (selector == null) {
-    await page.evaluate(({ x, y }) => window.scrollTo(x, y), { x: destX, y: destY });
+    await page.evaluate(({ x, y }) => window.scrollTo({ left: x, top: y, behavior: "instant" }), { x: destX, y: destY });
   } else {
     await page.evaluate(({ sel, x, y }) => {
       const el = document.querySelector(sel);
-      if (el instanceof HTMLElement) { el.scrollLeft = x; el.scrollTop = y; }
+      if (el instanceof HTMLElement) el.scrollTo({ left: x, top: y, behavior: "instant" });
     }, { sel: selector, x: destX, y: destY });
   }
   // DM-1213: settle layout, but cap the wait so it can't scale with the
   // chunk's visual duration (the scroll is instant; only a short settle is
+// `behavior: "instant"` throughout: under the page's own `scroll-behavior: smooth`
+// a plain scroll would still be moving when the capture is taken.
   // needed). Decouples capture-time drift from the visual cadence — see
   // CAPTURE_SETTLE_CAP_MS.
   await page.waitForTimeout(Math.min(durationMs, CAPTURE_SETTLE_CAP_MS) + 50);
@@ -695,19 +697,19 @@ async function scrollTo(page: Page, selector: string | null, destX: number, dest
 async function runPrescroll(page: Page, selector: string | null): Promise<void> {
   // Scroll to bottom, settle, then back to top, settle.
   if (selector == null) {
-    await page.evaluate(() => window.scrollTo(0, document.documentElement.scrollHeight));
+    await page.evaluate(() => window.scrollTo({ left: 0, top: document.documentElement.scrollHeight, behavior: "instant" }));
     await page.waitForTimeout(PRESCROLL_BOTTOM_WAIT_MS);
-    await page.evaluate(() => window.scrollTo(0, 0));
+    await page.evaluate(() => window.scrollTo({ left: 0, top: 0, behavior: "instant" }));
     await page.waitForTimeout(PRESCROLL_TOP_WAIT_MS);
   } else {
     await page.evaluate((sel) => {
       const el = document.querySelector(sel);
-      if (el instanceof HTMLElement) el.scrollTop = el.scrollHeight;
+      if (el instanceof HTMLElement) el.scrollTo({ top: el.scrollHeight, behavior: "instant" });
     }, selector);
     await page.waitForTimeout(PRESCROLL_BOTTOM_WAIT_MS);
     await page.evaluate((sel) => {
       const el = document.querySelector(sel);
-      if (el instanceof HTMLElement) el.scrollTop = 0;
+      if (el instanceof HTMLElement) el.scrollTo({ top: 0, behavior: "instant" });
     }, selector);
     await page.waitForTimeout(PRESCROLL_TOP_WAIT_MS);
   }
-- 
2.43.0


From 0c9cc2d874cbdb822f180a5152e3bc0ce70e561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 24/61] fix: selector() positions inside an inner scroller use
 the scroller's coordinates

---
 src/scroll/executor.ts | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/scroll/executor.ts b/src/scroll/executor.ts
index 31f4553..1d4bc63 100644
--- a/src/scroll/executor.ts
+++ b/src/scroll/executor.ts
@@ -174,7 +174,7 @@ export interface SelectorBbox {
 export interface PageQuery {
   /** Snapshot the current scroll position + maximum scrollable extents. */
   snapshot(): Promise<PageStateSnapshot>;
-  /** Bbox of an element matching the CSS selector, in document coordinates. */
+  /** Bbox of an element matching the CSS selector, in the scrolled box's coordinates. */
   selectorBbox(css: string): Promise<SelectorBbox | null>;
 }
 
@@ -666,16 +666,29 @@ function realPageQuery(page: Page, selector: string | null): PageQuery {
       }, selector);
     },
     async selectorBbox(css: string): Promise<SelectorBbox | null> {
-      return page.evaluate((sel) => {
+      return page.evaluate(({ sel, scrollerSel }) => {
         const el = document.querySelector(sel);
         if (el == null) return null;
         const r = el.getBoundingClientRect();
+        // Content inside the inner scroller is positioned in the scroller's own
+        // scroll coordinates, not the window's.
+        const scroller = scrollerSel != null ? document.querySelector(scrollerSel) : null;
+        if (scroller != null && scroller.contains(el)) {
+          const s = scroller.getBoundingClientRect();
+          return {
+            x: r.left - s.left - scroller.clientLeft + scroller.scrollLeft,
+            y: r.top - s.top - scroller.clientTop + scroller.scrollTop,
+            width: r.width, height: r.height,
+          };
+        }
         return { x: r.left + window.scrollX, y: r.top + window.scrollY, width: r.width, height: r.height };
-      }, css);
+      }, { sel: css, scrollerSel: selector });
     },
   };
 }
 
+// `behavior: "instant"` throughout: under the page's own `scroll-behavior: smooth`
+// a plain scroll would still be moving when the capture is taken.
 async function scrollTo(page: Page, selector: string | null, destX: number, destY: number, durationMs: number): Promise<void> {
   if (selector == null) {
     await page.evaluate(({ x, y }) => window.scrollTo({ left: x, top: y, behavior: "instant" }), { x: destX, y: destY });
@@ -687,8 +700,6 @@ async function scrollTo(page: Page, selector: string | null, destX: number, dest
   }
   // DM-1213: settle layout, but cap the wait so it can't scale with the
   // chunk's visual duration (the scroll is instant; only a short settle is
-// `behavior: "instant"` throughout: under the page's own `scroll-behavior: smooth`
-// a plain scroll would still be moving when the capture is taken.
   // needed). Decouples capture-time drift from the visual cadence — see
   // CAPTURE_SETTLE_CAP_MS.
   await page.waitForTimeout(Math.min(durationMs, CAPTURE_SETTLE_CAP_MS) + 50);
-- 
2.43.0


From 353d14c3b5b1bcfd477e2b99740a0f89efdb7cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 25/61] fix: a wide character takes two terminal cells, not
 three

---
 src/terminal/emulator.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/terminal/emulator.ts b/src/terminal/emulator.ts
index b5afec6..b1b1156 100644
--- a/src/terminal/emulator.ts
+++ b/src/terminal/emulator.ts
@@ -124,7 +124,9 @@ export class TerminalEmulator {
         }
         const chars = cell.getChars();
         row.push({
-          char: chars === "" ? " " : chars,
+          // A wide character owns two cells; the second (width 0) carries no text
+          // of its own. A space there would push the rest of the row one cell right.
+          char: chars !== "" ? chars : cell.getWidth() === 0 ? "" : " ",
           fg: this.resolveColor(cell.getFgColor(), cell.isFgRGB(), cell.isFgPalette()),
           bg: this.resolveColor(cell.getBgColor(), cell.isBgRGB(), cell.isBgPalette()),
           bold: cell.isBold() !== 0,
-- 
2.43.0


From dec51a17447db0b53cbe096656462156fa9419ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 26/61] fix: live capture forwards characters split across
 stdin reads intact

---
 src/terminal/pty.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/terminal/pty.ts b/src/terminal/pty.ts
index 189c0c6..ae5398b 100644
--- a/src/terminal/pty.ts
+++ b/src/terminal/pty.ts
@@ -25,6 +25,7 @@
 import { createRequire } from "node:module";
 import { chmodSync, existsSync, statSync } from "node:fs";
 import { dirname, join } from "node:path";
+import { StringDecoder } from "node:string_decoder";
 
 /** Minimal shape of the bits of `node-pty` we use (avoids a type dep). */
 interface PtyProcess {
@@ -163,7 +164,13 @@ export async function recordPtySession(
   // when the controlling terminal resizes.
   const stdin = input as (NodeJS.ReadStream & { setRawMode?: (m: boolean) => void }) | null;
   const wasRaw = stdin?.isRaw ?? false;
-  const onStdin = (d: Buffer): void => term.write(d.toString("utf8"));
+  // A read can end inside a multi-byte character: hold its first bytes back
+  // until the rest arrives.
+  const decoder = new StringDecoder("utf8");
+  const onStdin = (d: Buffer): void => {
+    const text = decoder.write(d);
+    if (text !== "") term.write(text);
+  };
   const onResize = (): void => {
     const c = process.stdout.columns || cols;
     const r = process.stdout.rows || rows;
-- 
2.43.0


From 7cbefb77b1a8ea58aae84d06ae5862b451a5d289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:52 +0000
Subject: [PATCH 27/61] fix: terminal cursor visibility follows the parsed
 DECTCEM sequences

---
 src/terminal/emulator.ts | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/terminal/emulator.ts b/src/terminal/emulator.ts
index b1b1156..819e237 100644
--- a/src/terminal/emulator.ts
+++ b/src/terminal/emulator.ts
@@ -54,7 +54,8 @@ export class TerminalEmulator {
   rows: number;
   private theme: TerminalTheme;
   // `@xterm/headless` has no public cursor-visibility getter, so track DECTCEM
-  // (`\x1b[?25h` show / `\x1b[?25l` hide) off the byte stream ourselves.
+  // (`\x1b[?25h` show / `\x1b[?25l` hide) ourselves, from the parsed sequences:
+  // the raw chunks may split one anywhere, or combine it with other modes.
   private cursorVisible = true;
 
   constructor(cols: number, rows: number, theme: TerminalTheme = THEMES.catppuccin) {
@@ -62,13 +63,21 @@ export class TerminalEmulator {
     this.rows = rows;
     this.theme = theme;
     this.term = new Terminal({ cols, rows, allowProposedApi: true, scrollback: 0 });
+    const { parser } = this.term;
+    const setVisible = (visible: boolean) => (params: (number | number[])[]): boolean => {
+      if (params.includes(25)) this.cursorVisible = visible;
+      return false; // xterm still handles the sequence itself
+    };
+    parser.registerCsiHandler({ prefix: "?", final: "h" }, setVisible(true));
+    parser.registerCsiHandler({ prefix: "?", final: "l" }, setVisible(false));
+    // Both resets (DECSTR `\x1b[!p`, RIS `\x1bc`) show the cursor again.
+    const onReset = (): boolean => { this.cursorVisible = true; return false; };
+    parser.registerCsiHandler({ intermediates: "!", final: "p" }, onReset);
+    parser.registerEscHandler({ final: "c" }, onReset);
   }
 
   /** Feed raw output bytes; resolves once xterm has parsed them. */
   write(data: string): Promise<void> {
-    // Track the LAST cursor show/hide toggle in this chunk (DECTCEM).
-    const m = data.match(/\x1b\[\?25([hl])(?![\s\S]*\x1b\[\?25[hl])/);
-    if (m != null) this.cursorVisible = m[1] === "h";
     return new Promise((resolve) => this.term.write(data, resolve));
   }
 
-- 
2.43.0


From d1d3bf2d26e869fd1c923a37bd493562c977c905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:55 +0000
Subject: [PATCH 28/61] fix: live terminal capture records resizes with the
 output they apply to

---
 src/terminal/pty.ts | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/terminal/pty.ts b/src/terminal/pty.ts
index ae5398b..816faa6 100644
--- a/src/terminal/pty.ts
+++ b/src/terminal/pty.ts
@@ -127,7 +127,7 @@ async function loadNodePty(): Promise<PtyModule> {
 
 /**
  * Run `command` in a pseudo-terminal, streaming its output live while recording
- * every chunk as a timestamped `"o"` event, and return an asciinema v2 cast once
+ * every chunk as a timestamped `"o"` event (and every resize as an `"r"` event), and return an asciinema v2 cast once
  * the child exits. stdin is forwarded (raw) for interactive programs and SIGWINCH
  * keeps the pty sized to the controlling TTY.
  */
@@ -153,7 +153,7 @@ export async function recordPtySession(
     env: { ...process.env, ...opts.env },
   });
 
-  const events: Array<[number, "o", string]> = [];
+  const events: CastEvent[] = [];
   const start = nowMs();
   term.onData((data) => {
     events.push([(nowMs() - start) / 1000, "o", data]);
@@ -174,7 +174,9 @@ export async function recordPtySession(
   const onResize = (): void => {
     const c = process.stdout.columns || cols;
     const r = process.stdout.rows || rows;
-    try { term.resize(c, r); } catch { /* pty may have exited */ }
+    try { term.resize(c, r); } catch { return; /* pty may have exited */ }
+    // Recorded too: the program's later output is laid out for the new size.
+    events.push([(nowMs() - start) / 1000, "r", `${c}x${r}`]);
   };
   if (stdin != null) {
     if (stdin.isTTY && stdin.setRawMode != null) stdin.setRawMode(true);
@@ -196,16 +198,19 @@ export async function recordPtySession(
   }
 
   const durationS = (nowMs() - start) / 1000;
-  opts.log?.(`term: captured ${events.length} output event(s), ${durationS.toFixed(1)}s, exit ${exitCode}`);
+  opts.log?.(`term: captured ${events.filter((e) => e[1] === "o").length} output event(s), ${durationS.toFixed(1)}s, exit ${exitCode}`);
   return { cast: buildCastText(cols, rows, command, events), exitCode, cols, rows };
 }
 
+/** A recorded event: output bytes (`"o"`) or a terminal resize (`"r"`, `"<cols>x<rows>"`). */
+type CastEvent = [time: number, code: "o" | "r", data: string];
+
 /** asciinema v2 cast string from captured events — identical to what `parseCast` consumes. */
 export function buildCastText(
   cols: number,
   rows: number,
   command: string[],
-  events: Array<[number, "o", string]>,
+  events: CastEvent[],
 ): string {
   const header = JSON.stringify({ version: 2, width: cols, height: rows, command: command.join(" ") });
   const lines = [header, ...events.map((e) => JSON.stringify(e))];
-- 
2.43.0


From 3e009fa5cd08e08a90106e652e2fe93916bae6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:55 +0000
Subject: [PATCH 29/61] fix: the terminal caret stays on its cell when the
 session grows wider

---
 src/terminal/incremental.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/terminal/incremental.ts b/src/terminal/incremental.ts
index ff024a3..7e9c7c8 100644
--- a/src/terminal/incremental.ts
+++ b/src/terminal/incremental.ts
@@ -402,9 +402,10 @@ export async function composeIncrementalTermSvg(
   }
 
   // Blinking caret that follows the recorded cursor (incremental mode). charW is
-  // the monospace cell advance, recovered from the measured content width.
+  // the monospace cell advance, recovered from the measured content width (which
+  // is that of the largest grid, not the initial one).
   const shape = opts.cursor ?? "block";
-  const charW = cols > 0 ? (width - 2 * padding) / cols : fontSize * MONO_ADVANCE_RATIO;
+  const charW = maxCols > 0 ? (width - 2 * padding) / maxCols : fontSize * MONO_ADVANCE_RATIO;
   const cursor = shape === "none" ? null : buildCursor(frames, totalMs, charW, linePx, padding, shape, opts.cursorColor ?? theme.fg);
 
   const fontFaceCss = manageFonts ? getEmbeddedFontFaceCss() : "";
-- 
2.43.0


From c388bea61c2fb253d3fd86dc7df5ff3a3bdb5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 30/61] fix: nested animations loop on the container's written
 loop length, so they no longer drift from it loop by loop

---
 src/animation/animator.ts       |  1 +
 src/animation/embed-timeline.ts | 18 ++++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index f3a4ddb..3484102 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1427,6 +1427,7 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
           periodMs: f.embeddedAnimationPeriodMs,
           startMs,
           masterMs: totalDuration,
+          masterDurationSec: String(Number(totalSec.toFixed(2))),
         }),
       };
     });
diff --git a/src/animation/embed-timeline.ts b/src/animation/embed-timeline.ts
index 67db620..748fdd6 100644
--- a/src/animation/embed-timeline.ts
+++ b/src/animation/embed-timeline.ts
@@ -64,6 +64,14 @@ export interface OffsetTimelineOptions {
   startMs: number;
   /** The master loop's total period (ms). */
   masterMs: number;
+  /**
+   * The master loop's `animation-duration` as the container itself writes it
+   * (seconds, e.g. `"12.35"`), when it rounds. The embedded content must loop on
+   * exactly that period: a finer-grained duration here would drift a little
+   * further from the container's own animations on every loop. Defaults to
+   * `masterMs` written out in full.
+   */
+  masterDurationSec?: string;
   /**
    * Timeline mode (default `"hold"`). See {@link EmbeddedTimelineMode}.
    */
@@ -172,7 +180,7 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
   if (masterMs <= 0 || periodMs <= 0) return svg;
   const mode: EmbeddedTimelineMode = opts.mode ?? "hold";
   const periodSec = periodMs / 1000;
-  const masterSec = masterMs / 1000;
+  const masterDurationSec = opts.masterDurationSec ?? fmt(masterMs / 1000);
   const startSec = startMs / 1000;
   // `hold` plays at the natural rate (window = period); `stretch` time-scales the
   // content to fill `windowMs`. Both share the keyframe-remap path; only the
@@ -204,8 +212,10 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
       .replace(/style="([^"]*animation:[^"]*)"/g, (_full, css: string) => `style="${delayCss(css)}"`);
   }
 
-  // Nothing to do: content already starts at the origin and fills the loop.
-  if (offsetPct <= 1e-6 && Math.abs(scale - 1) <= 1e-6) return svg;
+  // Nothing to do: content already starts at the origin and fills the loop (and
+  // the container's written loop length doesn't round the content's own away).
+  const exactLoop = Math.abs(Number(masterDurationSec) * 1000 - masterMs) <= 1e-6;
+  if (exactLoop && offsetPct <= 1e-6 && Math.abs(scale - 1) <= 1e-6) return svg;
 
   // Pass 1: retime matching animations + collect the keyframe names they drive.
   // Untouched declarations (e.g. a fixed-period cursor blink) are returned
@@ -225,7 +235,7 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
             const name = tokens.find((t) => parseTimeSec(t) == null && /^[A-Za-z_-][\w-]*$/.test(t) && !ANIM_KEYWORDS.has(t));
             if (name != null) {
               retimed.add(name);
-              tokens[i] = `${fmt(masterSec)}s`;
+              tokens[i] = `${masterDurationSec}s`;
               changed = true;
             }
           }
-- 
2.43.0


From cbefc63bbdd52f4f8f2509eb4a98d2a94fc6bc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 31/61] fix: a scroll frame of an animation no longer discards
 the fonts of the frames around it

---
 src/cli/animate.ts     |  6 ++++--
 src/scroll/composer.ts | 21 ++++++++++++++++++---
 src/scroll/index.ts    |  2 +-
 3 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index c0833ce..7b724d1 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -69,7 +69,7 @@ import { clearEmbeddedFonts, clearGlyphDefs, clearWebfonts, elementTreeToSvgInne
 // animator does). Brackets each per-region trial compose so its PUA / dmfN
 // addressing leaves no trace in the real output.
 import { snapshotGeneration, restoreGeneration } from "../render/font-resolution.js";
-import { composeScrollSvg, executeScrollPattern, parseScrollPattern } from "../scroll/index.js";
+import { composeScrollSvg, executeScrollPattern, parseScrollPattern, scrollPeriodMs } from "../scroll/index.js";
 import { annotateAnimatedProperties, cullElementsOutsideViewBox } from "../tree-ops/index.js";
 import { compressEmbeddedFontsToWoff2, optimizeSvg } from "../post-processing/index.js";
 import { frameAdvanceMs } from "../animation/frame-timeline.js";
@@ -1754,7 +1754,9 @@ async function buildCapturedFrame(
       cullElementsOutsideViewBox(seg.tree, scrollClip[2], scrollClip[3], undefined, 0, 1);
     }
     rootBg = segments[0]?.tree?.[0]?.styles?.rootBgComputed;
-    const composed = composeScrollSvg(segments, { viewportW: scrollClip[2], viewportH: scrollClip[3] });
+    // The scene owns the shared embedded-font builder (one @font-face block for
+    // every frame), so the nested composition must neither reset nor emit it.
+    const composed = composeScrollSvg(segments, { viewportW: scrollClip[2], viewportH: scrollClip[3], manageFonts: false });
     // The composer emits a full `<?xml ...><svg>...</svg>` document. The
     // outer animator wraps `svgContent` in a `<g class="f f-N">`, which
     // happily contains a nested `<svg>` element — strip just the XML
diff --git a/src/scroll/composer.ts b/src/scroll/composer.ts
index 9789abd..188b4e5 100644
--- a/src/scroll/composer.ts
+++ b/src/scroll/composer.ts
@@ -103,6 +103,15 @@ export interface ScrollComposerOptions {
    * this flag (MVP scope).
    */
   renderText?: RenderTextMode;
+  /**
+   * Own the module-global embedded-font builder (default `true`): reset it
+   * before rendering and emit its `@font-face` block into this composition. Set
+   * `false` when the composition is nested inside a larger scene whose caller
+   * owns the builder and emits one shared block, as `domotion animate` does for a
+   * `scroll` frame: resetting it here would drop the faces already registered by
+   * the scene's earlier frames.
+   */
+  manageFonts?: boolean;
 }
 
 /**
@@ -175,6 +184,11 @@ function segmentHoldEndMs(segments: ScrollSegmentCapture[], i: number): number {
   return Math.max(seg.segmentEndMs, i + 1 < segments.length ? segments[i + 1].segmentStartMs : seg.holdUntilMs ?? 0);
 }
 
+/** Length (ms) of one loop of the SVG {@link composeScrollSvg} makes of `segments`. */
+export function scrollPeriodMs(segments: ScrollSegmentCapture[]): number {
+  return Math.max(segmentHoldEndMs(segments, segments.length - 1), 1);
+}
+
 /**
  * Compose a sequence of segment-captures into one animated SVG. The output
  * starts at the first capture's content (segment 0 anchor) and animates
@@ -215,7 +229,8 @@ export function composeScrollSvg(
   // the same `@font-face` registry; we collect everything into one
   // top-level <style> block at the bottom of this function.
   const renderTextMode: RenderTextMode = opts.renderText ?? "embedded-font";
-  resetGeneration(); // DM-1338/DM-1435: reset the embedded-font + paths-mode glyph registries per generation
+  // DM-1338/DM-1435: reset the embedded-font + paths-mode glyph registries per generation
+  if (opts.manageFonts !== false) resetGeneration();
   // DM-1078/DM-1435: the whole body renders in the chosen mode (module-global);
   // `withRenderTextMode` restores it on ANY exit — incl. a mid-segment
   // elementTreeToSvgInner throw — so the mode can't leak to the next caller.
@@ -306,7 +321,7 @@ function composeScrollSvgBody(
   // The last segment's endMs is the cycle length. For a single-segment input,
   // the scene is effectively static — emit a 1 s loop so the SVG renders
   // sensibly without a degenerate 0 s animation.
-  const totalMs = Math.max(segmentHoldEndMs(segments, segments.length - 1), 1);
+  const totalMs = scrollPeriodMs(segments);
   const totalSec = totalMs / 1000;
 
   // ── Compute composite dimensions ──
@@ -497,7 +512,7 @@ function composeScrollSvgBody(
   // per (family, weight, italic)) — segments referencing the same font
   // collapse onto one rule. Restore the default render mode now that
   // all per-segment rendering has finished.
-  const fontFaceCss = getEmbeddedFontFaceCss();
+  const fontFaceCss = opts.manageFonts !== false ? getEmbeddedFontFaceCss() : "";
 
   // ── Compose final SVG ──
   // Share each raster payload across the segments that show it (the `<image>`
diff --git a/src/scroll/index.ts b/src/scroll/index.ts
index 4416343..66df8c8 100644
--- a/src/scroll/index.ts
+++ b/src/scroll/index.ts
@@ -32,5 +32,5 @@ export type {
   PageQuery,
 } from "./executor.js";
 
-export { composeScrollSvg } from "./composer.js";
+export { composeScrollSvg, scrollPeriodMs } from "./composer.js";
 export type { ScrollComposerOptions } from "./composer.js";
-- 
2.43.0


From e7c82b92241d801c0cafaaffc4f019d07a84351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 32/61] fix: a scroll frame starts at its own place on the
 timeline and keeps its ids and keyframes apart from other scroll frames

---
 src/cli/animate.ts | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 7b724d1..b141c1e 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -1730,10 +1730,9 @@ async function buildCapturedFrame(
     // DM-612: scroll-demo block. Run the executor against the loaded
     // page, cull each segment's tree (DM-603), compose into one
     // animated SVG, and use as this frame's svgContent. The composed
-    // SVG carries its own internal keyframes loop (animation-duration =
-    // pattern's total scroll time) — caller is expected to size the
-    // frame's `duration` to match so the outer scene cycle aligns with
-    // the inner scroll loop.
+    // SVG carries its own internal keyframes timeline (pattern's total scroll
+    // time), which the animator re-anchors to this frame's slot — caller is
+    // expected to size the frame's `duration` to match so the whole scroll plays.
     log(`  scroll pattern: ${fc.scroll.pattern}`);
     const scrollPattern = parseScrollPattern(fc.scroll.pattern);
     const scrollClip = fc.scroll.clip ?? [0, 0, cfg.width, cfg.height];
@@ -1761,8 +1760,16 @@ async function buildCapturedFrame(
     // outer animator wraps `svgContent` in a `<g class="f f-N">`, which
     // happily contains a nested `<svg>` element — strip just the XML
     // prolog so we don't end up with `<?xml ...>` inside a `<g>`.
-    svgContent = composed.replace(/^<\?xml[^>]*\?>\s*/, "");
+    // Its ids / classes / @keyframes are namespaced like every other nested
+    // composition's (two scroll frames would otherwise share one animation), and
+    // its timeline is anchored to this frame's place in the scene, so it starts
+    // at its first position every time the frame comes on, in every loop.
+    svgContent = namespaceEmbeddedAnimatedSvg(composed, `sf${i}_`, { namespaceFonts: false }).replace(/^<\?xml[^>]*\?>\s*/, "");
     frameCullCss = "";
+    embeddedAnimationPeriodMs = scrollPeriodMs(segments);
+    if (fc.duration < embeddedAnimationPeriodMs) {
+      log(`  note: frame duration ${fc.duration}ms < scroll play time ${embeddedAnimationPeriodMs}ms — the scroll will be cut off; size duration to ≈ ${embeddedAnimationPeriodMs}ms`);
+    }
   } else {
     // Self-contained capture (capture + inline remote image bytes). `animate`
     // doesn't go through `Capturer`, which is where the embed step used to live
-- 
2.43.0


From c1c3b10bcc2f119cbebcca3deda07201617c101b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:26 +0000
Subject: [PATCH 33/61] fix: the states of a collapsed run of frames get the
 readiness wait and web-font discovery they get as frames

---
 src/cli/animate.ts | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index b141c1e..1c90949 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -1511,6 +1511,9 @@ interface CapturedFrameContext {
   textTracks: ResolvedTextTrack[];
 }
 
+/** Default readiness wait (ms) before a captured frame's own actions run. */
+const FRAME_READY_WAIT_MS = 200;
+
 /**
  * Build a captured/default frame (DM-1379): the loop's main fall-through path —
  * continue-vs-load → readyWaits → webfont discovery → scrollTo → cursor
@@ -1551,7 +1554,7 @@ async function buildCapturedFrame(
     await timed(log, `  loaded`, () => loadInputIntoPage(page, input));
   }
   await applyReadyWaits(page, {
-    wait: fc.wait ?? 200,
+    wait: fc.wait ?? FRAME_READY_WAIT_MS,
     waitFor: fc.waitFor,
     fontsReady: true,
     frameIndex: i,
@@ -1715,7 +1718,7 @@ async function buildCapturedFrame(
     // that becomes this frame's content — the typeResample/cast nesting
     // precedent, so the animator needs zero changes. No single captured tree
     // (magic-move to/from it falls back to crossfade).
-    const res = await buildStatesRunContent(page, fc, i, cfg, log);
+    const res = await buildStatesRunContent(page, fc, i, cfg, log, tracker);
     svgContent = res.svgContent;
     frameCullCss = "";
     rootBg = res.rootBg;
@@ -2025,6 +2028,7 @@ async function buildStatesRunContent(
   i: number,
   cfg: AnimateConfig,
   log: (msg: string) => void,
+  tracker: ReturnType<typeof attachWebfontTracker>,
 ): Promise<{ svgContent: string; periodMs: number; rootBg: string | undefined; overlays?: OverlayInput[] }> {
   const stateCfgs = fc.states!;
 
@@ -2195,6 +2199,13 @@ async function buildStatesRunContent(
     log(`  states: capturing ${stateCfgs.length} editing state${stateCfgs.length === 1 ? "" : "s"} for the compressed run…`);
     for (let j = 0; j < stateCfgs.length; j++) {
       const st = stateCfgs[j];
+      // Each later state of a run collapsed from sibling frames settles before
+      // its actions as the frame it came from would have: the readiness wait and
+      // webfont discovery of `buildCapturedFrame` (state 0's already ran there).
+      if (j > 0 && COLLAPSED_RUNS.has(fc)) {
+        await applyReadyWaits(page, { wait: FRAME_READY_WAIT_MS, fontsReady: true });
+        await discoverAndRegisterWebfonts(page, tracker.urls);
+      }
       // State 0 is the frame's own post-`actions` state; each state's own
       // actions (if any) run before its capture.
       if (st.actions != null && st.actions.length > 0) await runActions(page, st.actions, log);
@@ -2538,6 +2549,15 @@ export function configTextTrackSpec(tt: TextTrackInput, frameIdx: number, trackI
  */
 const AUTO_COLLAPSED_RUNS = new WeakSet<AnimateFrameCfg>();
 
+/**
+ * The `states` frames EITHER collapse pass (automatic or `compress: true`)
+ * synthesized out of sibling frames. A collapsed run must show what those frames
+ * would have shown, so each of its states gets the default per-frame readiness
+ * wait; a hand-authored `states:` block has no per-state wait. Same provenance
+ * reasoning as {@link AUTO_COLLAPSED_RUNS}.
+ */
+const COLLAPSED_RUNS = new WeakSet<AnimateFrameCfg>();
+
 /** Whether this `states` frame was synthesized by the automatic collapse pass
  *  (rather than authored). Exported for unit tests. */
 export function wasAutoCollapsed(frame: AnimateFrameCfg): boolean {
@@ -2677,6 +2697,7 @@ function collapseCompressibleRuns(
     };
     // Only the automatic pass's runs are guard-eligible (see AUTO_COLLAPSED_RUNS).
     if (!strict) AUTO_COLLAPSED_RUNS.add(collapsed);
+    COLLAPSED_RUNS.add(collapsed);
     const collapsedIdx = newFrames.length;
     newFrames.push(collapsed);
     for (let k = start; k <= end; k++) newIndexForOld[k] = collapsedIdx;
-- 
2.43.0


From 6183266309b380270c3ec08bfd189bb7729c2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:21 +0000
Subject: [PATCH 34/61] fix: nested animations stay on their last shown state
 after they end, instead of the state they wrap to

---
 src/animation/embed-timeline.ts | 52 ++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/animation/embed-timeline.ts b/src/animation/embed-timeline.ts
index 748fdd6..9315f2d 100644
--- a/src/animation/embed-timeline.ts
+++ b/src/animation/embed-timeline.ts
@@ -134,38 +134,46 @@ function tokenizeEntry(entry: string): string[] {
  * Remap a single `@keyframes` block's stop percentages into the sub-window and
  * add the leading / trailing hold stops. `inner` is the block body (the stops);
  * returns the rewritten body.
+ *
+ * `stepEnd` says the animation holds each stop until the next one: its 100% stop
+ * is then only reached as the loop wraps and never shown, so the state held after
+ * the sub-window is that of the stop before it.
  */
-function remapKeyframeBody(inner: string, offsetPct: number, scale: number): string {
+function remapKeyframeBody(inner: string, offsetPct: number, scale: number, stepEnd: boolean): string {
   const stopRe = /(from|to|[\d.]+%(?:\s*,\s*[\d.]+%)*)\s*\{([^{}]*)\}/g;
-  const remapped: string[] = [];
+  const stops = [...inner.matchAll(stopRe)].map((m) => ({
+    offsets: m[1].split(",").map((sel) => {
+      const s = sel.trim();
+      return s === "from" ? 0 : s === "to" ? 100 : parseFloat(s);
+    }),
+    decls: m[2].trim(),
+  }));
   let firstDecls: string | null = null;
   let lastDecls: string | null = null;
   let minOrig = Infinity;
   let maxOrig = -Infinity;
-  let m: RegExpExecArray | null;
-  while ((m = stopRe.exec(inner)) != null) {
-    const selector = m[1];
-    const decls = m[2].trim();
-    const newSelectors: string[] = [];
-    for (const sel of selector.split(",")) {
-      const s = sel.trim();
-      const orig = s === "from" ? 0 : s === "to" ? 100 : parseFloat(s);
+  for (const { offsets, decls } of stops) {
+    for (const orig of offsets) {
       if (orig < minOrig) {
         minOrig = orig;
         firstDecls = decls;
       }
-      if (orig > maxOrig) {
+      if (orig >= maxOrig && !(stepEnd && orig >= 100)) {
         maxOrig = orig;
         lastDecls = decls;
       }
-      newSelectors.push(`${fmt(clampPct(offsetPct + orig * scale))}%`);
     }
-    remapped.push(`${newSelectors.join(", ")} { ${decls} }`);
   }
+  lastDecls ??= firstDecls;
   if (firstDecls == null || lastDecls == null) return inner; // nothing parsed — leave as-is
-  const head = `0% { ${firstDecls} }`;
-  const tail = `100% { ${lastDecls} }`;
-  return `${head} ${remapped.join(" ")} ${tail}`;
+  const at = (offsets: number[]): string => offsets.map((orig) => `${fmt(clampPct(offsetPct + orig * scale))}%`).join(", ");
+  const remapped: string[] = [];
+  for (const { offsets, decls } of stops) {
+    const shown = stepEnd ? offsets.filter((orig) => orig < 100) : offsets;
+    if (shown.length > 0) remapped.push(`${at(shown)} { ${decls} }`);
+  }
+  if (stepEnd) remapped.push(`${at([100])} { ${lastDecls} }`);
+  return `0% { ${firstDecls} } ${remapped.join(" ")} 100% { ${lastDecls} }`;
 }
 
 /**
@@ -219,10 +227,10 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
 
   // Pass 1: retime matching animations + collect the keyframe names they drive.
   // Untouched declarations (e.g. a fixed-period cursor blink) are returned
-  // byte-for-byte so only the retimed lines change. The set is shared across
+  // byte-for-byte so only the retimed lines change. The map is shared across
   // every `<style>` block AND inline `style` attribute — the caret track's
   // shorthands live inline while its `@keyframes` live in its local `<style>`.
-  const retimed = new Set<string>();
+  const retimed = new Map<string, { stepEnd: boolean }>();
   const retimeCss = (css: string): string =>
     css.replace(/animation:\s*([^;}"]+)/g, (full: string, value: string) => {
       let changed = false;
@@ -234,7 +242,7 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
           if (Math.abs(sec - periodSec) <= tol) {
             const name = tokens.find((t) => parseTimeSec(t) == null && /^[A-Za-z_-][\w-]*$/.test(t) && !ANIM_KEYWORDS.has(t));
             if (name != null) {
-              retimed.add(name);
+              retimed.set(name, { stepEnd: tokens.includes("step-end") });
               tokens[i] = `${masterDurationSec}s`;
               changed = true;
             }
@@ -251,8 +259,10 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
   // Pass 2: remap the keyframes those animations drive.
   out = out.replace(
     /@keyframes\s+([\w-]+)\s*\{((?:[^{}]*\{[^{}]*\})*[^{}]*)\}/g,
-    (full: string, name: string, inner: string) =>
-      retimed.has(name) ? `@keyframes ${name} { ${remapKeyframeBody(inner, offsetPct, scale)} }` : full,
+    (full: string, name: string, inner: string) => {
+      const anim = retimed.get(name);
+      return anim != null ? `@keyframes ${name} { ${remapKeyframeBody(inner, offsetPct, scale, anim.stepEnd)} }` : full;
+    },
   );
   return out;
 }
-- 
2.43.0


From 59a25aed39332d4f25934fbf188db3924ce98abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:33 +0000
Subject: [PATCH 35/61] fix: a transition of no duration is a cut and a
 magic-move without a bridge a crossfade, on both sides of the boundary

---
 src/animation/animator.ts | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 3484102..3f04ae4 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -1393,6 +1393,23 @@ export function generateAnimatedSvg(config: AnimationConfig): string {
   }
 }
 
+/**
+ * The transition a frame actually plays, for its own exit and for the next
+ * frame's entrance alike: a `magic-move` without a bridge (there was nothing to
+ * diff, or no next frame) is the documented fallback, a crossfade; a transition
+ * of no duration is a cut, whatever its type (the start and end of its effect
+ * would otherwise be keyframes at the same offset, of which only the end counts,
+ * and the effect would spread over the frame's hold).
+ */
+function playedTransition(frame: AnimationFrame): NonNullable<AnimationFrame["transition"]> {
+  if (frame.transition == null) return { type: "crossfade", duration: DEFAULT_TRANSITION_MS };
+  if (transitionDurationMs(frame) === 0) return { type: "cut", duration: 0 };
+  if (frame.transition.type === "magic-move" && frame.magicMove == null) {
+    return { type: "crossfade", duration: transitionDurationMs(frame) };
+  }
+  return frame.transition;
+}
+
 function generateAnimatedSvgBody(config: AnimationConfig): string {
   const { width, height } = config;
   // DM-1557: snapshot the glyph-defs registry so we can emit ONLY the glyphs the
@@ -1470,16 +1487,18 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
   for (let i = 0; i < frames.length; i++) {
     const frame = frames[i];
     const transDur = transitionDurationMs(frame);
-    const transType = frame.transition?.type ?? "crossfade";
-    const transitionPlan = normalizeTransition(frame.transition ?? { type: "crossfade", duration: DEFAULT_TRANSITION_MS });
+    const transition = playedTransition(frame);
+    const transType = transition.type;
+    const transitionPlan = normalizeTransition(transition);
 
     const startPct = pct(timeOffset, totalDuration);
     const holdEndPct = pct(timeOffset + frame.duration, totalDuration);
     const transEndPct = pct(timeOffset + frame.duration + transDur, totalDuration);
 
     const prevFrame = i > 0 ? frames[i - 1] : null;
-    const prevType = prevFrame?.transition?.type;
-    const prevPlan = prevFrame == null ? undefined : normalizeTransition(prevFrame.transition ?? { type: "crossfade", duration: DEFAULT_TRANSITION_MS });
+    const prevTransition = prevFrame == null ? undefined : playedTransition(prevFrame);
+    const prevType = prevTransition?.type;
+    const prevPlan = prevTransition == null ? undefined : normalizeTransition(prevTransition);
     // DM-1414: a frame's ENTRANCE is driven by the PREVIOUS frame's transition
     // type (how it hands off TO this frame), independently of this frame's OWN
     // type (how it exits TO the next). So a push/scroll frame entered from a
-- 
2.43.0


From fc91c8600a632907820781e4921fe721b7ce20e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:33 +0000
Subject: [PATCH 36/61] fix: a frame that leaves by a cut or magic-move keeps
 its entrance, instead of popping in over an empty view

---
 src/animation/animator.ts | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/animation/animator.ts b/src/animation/animator.ts
index 3f04ae4..08e89a7 100644
--- a/src/animation/animator.ts
+++ b/src/animation/animator.ts
@@ -171,6 +171,9 @@ function emitMagicMoveFrame(
   holdEndPct: string,
   transEndPct: string,
   totalSec: number,
+  /** The frame's own track when its entrance was composed separately; it must
+   *  hard-cut out at `holdEndPct` just like the default one. */
+  composed: { group: string; keyframe: string } | null = null,
 ): { groups: string[]; keyframes: string[] } {
   const groups: string[] = [];
   const keyframes: string[] = [];
@@ -186,8 +189,12 @@ function emitMagicMoveFrame(
   // DM-1511: opacity does the cut; a SEPARATE wide-overlap `fd-` `visibility`
   // track handles paint-culling so Firefox can't flash a transparent gap at the
   // hand-off (it composites `visibility` off the opacity clock).
-  groups.push(`  <g class="f f-${i}">\n${frame.svgContent}\n  </g>`);
-  keyframes.push(`
+  if (composed != null) {
+    groups.push(composed.group);
+    keyframes.push(composed.keyframe);
+  } else {
+    groups.push(`  <g class="f f-${i}">\n${frame.svgContent}\n  </g>`);
+    keyframes.push(`
     @keyframes fv-${i} {
       0% { opacity: 0; }
       ${beforeS}% { opacity: 0; }
@@ -197,6 +204,7 @@ function emitMagicMoveFrame(
       100% { opacity: 0; }
     }${buildDisplayKeyframes(`fd-${i}`, startPct, holdEndPct, totalSec)}
     .f-${i} { animation: fv-${i} ${totalSec.toFixed(2)}s step-end infinite, fd-${i} ${totalSec.toFixed(2)}s step-end infinite; }`);
+  }
 
   // Bridge composite: visible during the transition window only.
   groups.push(`  <g class="f mm-${i}">\n${mm.compositeSvg}\n  </g>`);
@@ -832,7 +840,7 @@ ${midStops}
 /** How the current frame ENTERS, derived from the PREVIOUS frame's transition. */
 type EntranceKind = "fade" | "dolly" | "slide" | "reveal" | "cut";
 /** How the current frame EXITS, derived from its OWN transition. `magic` is the
- *  special-cased magic-move exit — never composed here. */
+ *  magic-move exit, whose bridge takes over at the hold end. */
 type ExitKind = "fade" | "slide" | "hold" | "cut" | "magic";
 
 interface ComposedEntrance {
@@ -945,6 +953,11 @@ function composedBoundaryNeeded(entrance: EntranceKind, exit: ExitKind): boolean
   // A dolly ENTRANCE composed with a slide EXIT: zoom → push/scroll. The old
   // slide branch faded (dropping the scale dolly).
   if (entrance === "dolly" && exit === "slide") return true;
+  // An animated ENTRANCE composed with a hard-cut EXIT: e.g. crossfade → cut,
+  // push → magic-move. The old cut / magic-move branches dropped the entrance, so
+  // the predecessor left over an empty view and this frame popped in afterwards.
+  if ((entrance === "fade" || entrance === "dolly" || entrance === "slide") && (exit === "cut" || exit === "magic")) return true;
+  if (entrance === "reveal" && exit === "magic") return true;
   return false;
 }
 
@@ -1558,13 +1571,22 @@ function generateAnimatedSvgBody(config: AnimationConfig): string {
       // (from ownType) as independent tracks. The entrance overlaps the
       // predecessor's transition window, opening at `timeOffset - prevTransDur`.
       const composedEnterStartPct = pct(Math.max(0, timeOffset - prevTransDur), totalDuration);
+      // A magic-move exit hands over to its bridge at the hold end.
+      const bridge = composedExit.kind === "magic" ? frame.magicMove : undefined;
       const r = emitComposedFrame(
         i, frame.svgContent, composedEntrance, composedExit, { width, height },
-        { enterStartPct: composedEnterStartPct, startPct, holdEndPct, transEndPct }, totalSec, holdLastFrame,
+        { enterStartPct: composedEnterStartPct, startPct, holdEndPct, transEndPct: bridge != null ? holdEndPct : transEndPct },
+        totalSec, holdLastFrame && bridge == null,
         transitionPlan.custom?.reducedMotion ?? prevPlan?.custom?.reducedMotion ?? "crossfade",
       );
-      frameGroups.push(r.group);
-      keyframes.push(r.keyframe);
+      if (bridge != null) {
+        const mm = emitMagicMoveFrame(i, frame, bridge, startPct, holdEndPct, transEndPct, totalSec, r);
+        frameGroups.push(...mm.groups);
+        keyframes.push(...mm.keyframes);
+      } else {
+        frameGroups.push(r.group);
+        keyframes.push(r.keyframe);
+      }
       // A `shine` EXIT still sweeps its gradient highlight over the handoff window
       // on top of the composed dissolve (same helper as the crossfade branch).
       if (transitionPlan.overlay === "shine") {
-- 
2.43.0


From bf113f21cf62458b84afdb1d26661aee8a5cb85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:19 +0000
Subject: [PATCH 37/61] fix: namespacing an embedded SVG renames its names
 only, quoted, minified or nested

Optimised documents lost their fonts (the @font-face of a minified style has an
unquoted or entity-quoted family), fonts of twice-nested documents collided, #id
selectors were missed, and text content holding a class, id or keyframe name was
rewritten along with the names.
---
 src/animation/embed-namespace.ts | 245 ++++++++++++++++++++++++-------
 1 file changed, 192 insertions(+), 53 deletions(-)

diff --git a/src/animation/embed-namespace.ts b/src/animation/embed-namespace.ts
index b20aeca..771c2b7 100644
--- a/src/animation/embed-namespace.ts
+++ b/src/animation/embed-namespace.ts
@@ -29,9 +29,6 @@
  * namespaced after the fact instead.
  */
 
-const escapeRe = (s: string): string => s.replace(/[.*+?^${}()|[\]\\]/g, "\\$&");
-const byLengthDesc = (a: string, b: string): number => b.length - a.length;
-
 /** Options for {@link namespaceEmbeddedAnimatedSvg}. */
 export interface NamespaceEmbedOptions {
   /**
@@ -49,64 +46,206 @@ export interface NamespaceEmbedOptions {
   namespaceFonts?: boolean;
 }
 
-/**
- * Prefix every document-global name in a complete animated-SVG document with
- * `token` (e.g. `"e1_"`). Returns the rewritten SVG string; the input is assumed
- * to be a single `<svg>…</svg>` document as produced by `generateAnimatedSvg`.
- */
-export function namespaceEmbeddedAnimatedSvg(svg: string, token: string, opts: NamespaceEmbedOptions = {}): string {
-  let out = svg;
-
-  // 1. Element ids + every reference (url(#id) / (xlink:)href="#id"). Longest
-  //    name first so an id that is a textual prefix of another can't partial-match.
-  const ids = new Set<string>();
-  for (const m of out.matchAll(/\sid="([^"]+)"/g)) ids.add(m[1]);
-  for (const id of [...ids].sort(byLengthDesc)) {
-    const e = escapeRe(id);
-    out = out
-      .replace(new RegExp(`(\\sid=")${e}(")`, "g"), `$1${token}${id}$2`)
-      .replace(new RegExp(`url\\(#${e}\\)`, "g"), `url(#${token}${id})`)
-      .replace(new RegExp(`((?:xlink:)?href=")#${e}(")`, "g"), `$1#${token}${id}$2`);
+/** The document-global names one document declares (or uses, for classes). */
+interface DocumentNames {
+  ids: Set<string>;
+  classes: Set<string>;
+  keyframes: Set<string>;
+  /** Empty when fonts are left alone. */
+  families: Set<string>;
+}
+
+/** One piece of a CSS text: what precedes a `{` is a prelude, what precedes a
+ *  `;` or `}` (or the end) is a declaration; comments are passed through. */
+interface CssPiece {
+  kind: "prelude" | "declaration";
+  text: string;
+  /** The delimiter that ended the piece (`{`, `}`, `;` or nothing at the end). */
+  end: string;
+}
+
+/** Index just past the string / comment / `url(…)` starting at `at`, or `at`
+ *  when none starts there. */
+function skipCssToken(css: string, at: number): number {
+  const ch = css[at];
+  if (ch === '"' || ch === "'") {
+    let i = at + 1;
+    while (i < css.length && css[i] !== ch) i += css[i] === "\\" ? 2 : 1;
+    return Math.min(i + 1, css.length);
+  }
+  if (ch === "/" && css[at + 1] === "*") {
+    const close = css.indexOf("*/", at + 2);
+    return close < 0 ? css.length : close + 2;
+  }
+  if (ch === "(" && /url$/i.test(css.slice(Math.max(0, at - 3), at))) {
+    let i = at + 1;
+    while (i < css.length && css[i] !== ")") {
+      const next = css[i] === '"' || css[i] === "'" ? skipCssToken(css, i) : i + 1;
+      i = next;
+    }
+    return Math.min(i + 1, css.length);
+  }
+  // A `&quot;` inside a style attribute ends in a `;` that is no delimiter.
+  if (ch === "&") {
+    const entity = /^&(?:#?\w+);/.exec(css.slice(at, at + 12));
+    if (entity != null) return at + entity[0].length;
   }
+  return at;
+}
 
-  // 2. Embedded-font families (`dmfN`). Only the `@font-face` declaration and the
-  //    `font-family` attr/decl contexts — never a bare global replace, since the
-  //    base64 `src` payload could contain the same byte sequence. Skipped when the
-  //    fonts are deferred to a shared outer builder (see NamespaceEmbedOptions).
-  if (opts.namespaceFonts !== false) {
-    out = out
-      .replace(/(font-family:\s*")(dmf\d+)(")/g, `$1${token}$2$3`)
-      .replace(/(font-family=")(dmf\d+)(")/g, `$1${token}$2$3`);
+function cssPieces(css: string): CssPiece[] {
+  const pieces: CssPiece[] = [];
+  let start = 0;
+  let i = 0;
+  while (i < css.length) {
+    const skipped = skipCssToken(css, i);
+    if (skipped > i) {
+      i = skipped;
+      continue;
+    }
+    const ch = css[i];
+    if (ch === "{" || ch === "}" || ch === ";") {
+      pieces.push({ kind: ch === "{" ? "prelude" : "declaration", text: css.slice(start, i), end: ch });
+      start = i + 1;
+    }
+    i++;
   }
+  if (start < css.length) pieces.push({ kind: "declaration", text: css.slice(start), end: "" });
+  return pieces;
+}
 
-  // 3. `@keyframes` names + their `animation:` references. A keyframe name is a
-  //    domotion-generated token (`fv-0`, `f0-f0a0-0`, …) that never appears as an
-  //    id, class, or inside the (hyphen-free) base64 font data, so a word-boundary
-  //    replace across the whole doc is safe. Longest-first for prefix safety.
-  const keyframes = new Set<string>();
-  for (const m of out.matchAll(/@keyframes\s+([A-Za-z0-9_-]+)/g)) keyframes.add(m[1]);
-  for (const name of [...keyframes].sort(byLengthDesc)) {
-    out = out.replace(new RegExp(`\\b${escapeRe(name)}\\b`, "g"), `${token}${name}`);
+/** Apply `fn` to the stretches of `css` outside strings, comments and `url(…)`. */
+function outsideCssTokens(css: string, fn: (plain: string) => string): string {
+  let out = "";
+  let start = 0;
+  let i = 0;
+  while (i < css.length) {
+    const skipped = skipCssToken(css, i);
+    if (skipped === i) {
+      i++;
+      continue;
+    }
+    out += fn(css.slice(start, i)) + css.slice(i, skipped);
+    start = i = skipped;
   }
+  return out + fn(css.slice(start));
+}
+
+/** Rename the whole identifiers in `plain` that `names` holds. */
+function prefixIdents(plain: string, names: ReadonlySet<string>, token: string): string {
+  return plain.replace(/-?[A-Za-z_][\w-]*/g, (ident) => (names.has(ident) ? token + ident : ident));
+}
+
+const KEYFRAMES_PRELUDE = /^(\s*@(?:-\w+-)?keyframes\s+)(["']?)([\w-]+)(["']?)/i;
+/** `property : value`, the property possibly behind a comment or a blank. */
+const DECLARATION = /^((?:\s|\/\*[\s\S]*?\*\/)*)([\w-]+)(\s*:)([\s\S]*)$/;
+const FAMILY = /("|'|&quot;|&apos;|^|,)(\s*)([^"'&,]+?)(?=\s*(?:"|'|&quot;|&apos;|,|!|$))/g;
 
-  // 4. Classes. Collect the names from `class="…"` attrs (every token is renderer-
-  //    generated), then (a) prefix each token in every class attr, and (b) prefix
-  //    each known name where it appears as a `.name` selector. The selector pass is
-  //    boundary-guarded (`(?![\w-])`) and limited to the collected names so it can
-  //    never touch a decimal like `0.22` / `22.500%` in the CSS.
-  const classes = new Set<string>();
-  for (const m of out.matchAll(/\sclass="([^"]+)"/g)) {
-    for (const t of m[1].split(/\s+/)) if (t !== "") classes.add(t);
+function renameFamilies(list: string, names: DocumentNames, token: string): string {
+  if (names.families.size === 0) return list;
+  return list.replace(FAMILY, (full, open: string, blank: string, family: string) =>
+    names.families.has(family) ? `${open}${blank}${token}${family}` : full);
+}
+
+function renameUrlRefs(value: string, names: DocumentNames, token: string): string {
+  return value.replace(/(url\(\s*(?:"|'|&quot;|&apos;)?#)([^)"'&]+)/g, (full, open: string, id: string) =>
+    names.ids.has(id) ? `${open}${token}${id}` : full);
+}
+
+function renameCss(css: string, names: DocumentNames, token: string): string {
+  return cssPieces(css).map(({ kind, text, end }) => {
+    if (kind === "prelude") {
+      if (KEYFRAMES_PRELUDE.test(text)) {
+        return text.replace(KEYFRAMES_PRELUDE, (_full, head: string, open: string, name: string, close: string) =>
+          `${head}${open}${token}${name}${close}`) + end;
+      }
+      if (/^\s*@/.test(text)) return text + end;
+      return outsideCssTokens(text, (plain) => plain.replace(/([.#])(-?[A-Za-z_][\w-]*)/g, (full, sigil: string, name: string) =>
+        (sigil === "." ? names.classes : names.ids).has(name) ? `${sigil}${token}${name}` : full)) + end;
+    }
+    const declaration = DECLARATION.exec(text);
+    if (declaration == null) return text + end;
+    const [, lead, property, colon, rest] = declaration;
+    let value = rest;
+    if (/^(?:-\w+-)?animation(?:-name)?$/i.test(property)) {
+      value = outsideCssTokens(value, (plain) => prefixIdents(plain, names.keyframes, token));
+    } else if (/^font(?:-family)?$/i.test(property)) {
+      value = renameFamilies(value, names, token);
+    }
+    return `${lead}${property}${colon}${renameUrlRefs(value, names, token)}${end}`;
+  }).join("");
+}
+
+/** Font families declared by the `@font-face` rules of a CSS text. */
+function declaredFamilies(css: string): string[] {
+  const families: string[] = [];
+  let inFace = false;
+  for (const { kind, text, end } of cssPieces(css)) {
+    if (kind === "prelude") inFace = /^\s*@font-face\s*$/i.test(text);
+    const m = inFace ? /^\s*font-family\s*:\s*(?:"|'|&quot;|&apos;)?([^"'&]+?)(?:"|'|&quot;|&apos;)?\s*$/i.exec(text) : null;
+    if (m != null) families.push(m[1]);
+    if (end === "}") inFace = false;
   }
-  out = out.replace(/(\sclass=")([^"]+)(")/g, (_full, a: string, cls: string, c: string) =>
-    a + cls.split(/\s+/).map((t) => (t !== "" ? token + t : t)).join(" ") + c,
-  );
-  for (const name of [...classes].sort(byLengthDesc)) {
-    out = out.replace(new RegExp(`\\.${escapeRe(name)}(?![\\w-])`, "g"), `.${token}${name}`);
+  return families;
+}
+
+/** The document's markup: comments and character data are passed through, tags
+ *  and `<style>` contents go through the given rewriters. */
+const MARKUP = /(<!--[\s\S]*?-->|<!\[CDATA\[[\s\S]*?\]\]>)|(<style\b[^>]*[^/>]>|<style>)([\s\S]*?)(?=<\/style>)|(<[A-Za-z](?:[^>"']|"[^"]*"|'[^']*')*>)/g;
+const ATTRIBUTE = /(\s)([\w:.-]+)(\s*=\s*)("[^"]*"|'[^']*')/g;
+
+/**
+ * Prefix every document-global name in a complete animated-SVG document with
+ * `token` (e.g. `"e1_"`). Returns the rewritten SVG string; the input is assumed
+ * to be a single `<svg>…</svg>` document as produced by `generateAnimatedSvg`,
+ * as composed or after `optimizeSvg` (which minifies its styles).
+ *
+ * Only names are rewritten: text content, labels and data URIs may contain any of
+ * the same words and stay as they are.
+ */
+export function namespaceEmbeddedAnimatedSvg(svg: string, token: string, opts: NamespaceEmbedOptions = {}): string {
+  const names: DocumentNames = { ids: new Set(), classes: new Set(), keyframes: new Set(), families: new Set() };
+  const collectCss = (css: string): void => {
+    for (const { kind, text } of cssPieces(css)) {
+      const m = kind === "prelude" ? KEYFRAMES_PRELUDE.exec(text) : null;
+      if (m != null) names.keyframes.add(m[3]);
+    }
+    if (opts.namespaceFonts !== false) for (const family of declaredFamilies(css)) names.families.add(family);
+  };
+  for (const [, , openStyle, css, tag] of svg.matchAll(MARKUP)) {
+    if (css != null) collectCss(css);
+    for (const [, , attr, , quoted] of (tag ?? openStyle ?? "").matchAll(ATTRIBUTE)) {
+      const value = quoted.slice(1, -1);
+      if (attr === "id") names.ids.add(value);
+      if (attr === "class") for (const name of value.split(/\s+/)) names.classes.add(name);
+      // Renderer families count even where the document leaves their rule to others.
+      if (attr === "font-family" && opts.namespaceFonts !== false && /^dmf\d+$/.test(value)) names.families.add(value);
+    }
   }
 
-  // 5. The `--scene-dur` custom property (declaration on `:root` + any `var()`).
-  out = out.replace(/--scene-dur\b/g, `--scene-dur-${token}`);
+  const renameAttribute = (attr: string, value: string): string => {
+    if (attr === "id") return token + value;
+    if (attr === "class") return value.split(/\s+/).map((t) => (t !== "" ? token + t : t)).join(" ");
+    if (attr === "href" || attr === "xlink:href") {
+      return value.startsWith("#") && names.ids.has(value.slice(1)) ? `#${token}${value.slice(1)}` : value;
+    }
+    if (attr === "font-family") return renameFamilies(value, names, token);
+    if (attr === "style") return renameCss(value, names, token);
+    if (attr === "aria-labelledby" || attr === "aria-describedby") {
+      return value.replace(/\S+/g, (id) => (names.ids.has(id) ? token + id : id));
+    }
+    // Labels are prose; every other attribute may refer to an id.
+    return attr === "aria-label" || attr.startsWith("data-") ? value : renameUrlRefs(value, names, token);
+  };
+  const renameTag = (tag: string): string =>
+    tag.replace(ATTRIBUTE, (_full, blank: string, attr: string, eq: string, quoted: string) =>
+      `${blank}${attr}${eq}${quoted[0]}${renameAttribute(attr, quoted.slice(1, -1))}${quoted[0]}`);
+  // `--scene-dur` (declaration on `:root` + any `var()`), wherever CSS stands.
+  const renameSceneDur = (css: string): string => css.replace(/--scene-dur\b/g, `--scene-dur-${token}`);
 
-  return out;
+  return svg.replace(MARKUP, (full, _passed, openStyle?: string, css?: string, tag?: string) => {
+    if (openStyle != null) return renameTag(openStyle) + renameSceneDur(renameCss(css ?? "", names, token));
+    if (tag != null) return renameSceneDur(renameTag(tag));
+    return full;
+  });
 }
-- 
2.43.0


From 6cbf722951c5f60b2c1af024a18ca705776821e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:19 +0000
Subject: [PATCH 38/61] fix: optimising an SVG does not reorder its animation
 longhands

csso's restructuring moved a loop layer's animation-delay before another rule's
animation shorthand, which reset it.
---
 src/post-processing/optimize.ts | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/post-processing/optimize.ts b/src/post-processing/optimize.ts
index 9332fe8..2ac7e5c 100644
--- a/src/post-processing/optimize.ts
+++ b/src/post-processing/optimize.ts
@@ -25,14 +25,12 @@ export function optimizeSvg(svg: string): string {
       makeArcs: false,
     } } as PluginConfig,
     "convertTransform",
-    // DM-1454: `minifyStyles` (csso) restructures/reorders CSS declarations and
-    // can factor a common longhand out across rules. So animation CSS we emit
-    // MUST be order-independent: the timing function belongs INSIDE the
-    // `animation:` shorthand (`animation: name 2s step-end infinite`), never as a
-    // separate `animation-timing-function: step-end` after the shorthand — csso
-    // would move the shorthand after it and reset the timing to `ease`, turning
-    // a hard cut into a full-duration fade. Keep new emitters self-contained.
-    "minifyStyles",
+    // DM-1454: csso's structural optimization merges and reorders rules, factoring
+    // common longhands out across them. It doesn't know that `animation` resets
+    // `animation-delay` / `-fill-mode` / `-timing-function`, so a longhand that
+    // follows its shorthand (a `loop` layer's start delay) could end up before
+    // another rule's shorthand and be reset by it. Minify without restructuring.
+    { name: "minifyStyles", params: { restructure: false } },
     "removeComments",
     "removeEmptyAttrs",
   ];
-- 
2.43.0


From 642e7894bb33079ed0d81011cd436a6347aa5d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:19 +0000
Subject: [PATCH 39/61] fix: all of a composite layer's animations play

A second transform (or a later animation of the same property) replaced the first,
and only the first clipScale of each axis ran, both at the timing of one.
---
 src/animation/composite.ts | 168 ++++++++++++++++++++++++++-----------
 1 file changed, 120 insertions(+), 48 deletions(-)

diff --git a/src/animation/composite.ts b/src/animation/composite.ts
index 538abf4..33762c5 100644
--- a/src/animation/composite.ts
+++ b/src/animation/composite.ts
@@ -181,6 +181,46 @@ function renderAnimValue(property: "scale" | "translateX" | "translateY" | "opac
   }
 }
 
+/** One of a layer's animations with its position in the layer's list. */
+interface IndexedAnimation {
+  animation: CompositeLayerAnimation;
+  index: number;
+}
+
+/** The `@keyframes` body of one property's animations and the timing function
+ *  its `animation:` shorthand takes. */
+interface LayerTrack {
+  stops: string;
+  easing: string;
+}
+
+/**
+ * Put one property's animations on one timeline of `master` ms: each runs over its
+ * own window, and the value holds before the first, between them and after the
+ * last. One that starts while another still runs takes over from it.
+ */
+function layerTrack(
+  animations: readonly CompositeLayerAnimation[],
+  master: number,
+  declare: (value: string | number, index: number, end: "from" | "to") => string,
+): LayerTrack {
+  const pct = (ms: number): string => `${fmt(clampPct((ms / master) * 100))}%`;
+  const windows = animations
+    .map((a, index) => ({ a, index, start: a.start ?? 0, end: (a.start ?? 0) + (a.duration ?? master) }))
+    .sort((p, q) => p.start - q.start);
+  const easings = windows.map(({ a }) => a.easing ?? "ease");
+  const oneEasing = new Set(easings).size === 1;
+  const stops = windows.map(({ a, index, start, end }, k) => {
+    const next = windows[k + 1];
+    const until = next != null && next.start < end ? next.start : end;
+    const timing = oneEasing ? "" : `;animation-timing-function:${easings[k]}`;
+    const lead = k === 0 ? "0%," : "";
+    const tail = next == null ? ",100%" : "";
+    return `${lead}${pct(start)}{${declare(a.from, index, "from")}${timing}}${pct(until)}${tail}{${declare(a.to, index, "to")}}`;
+  });
+  return { stops: stops.join(""), easing: oneEasing ? easings[0] : "linear" };
+}
+
 /**
  * Stack `layers` (z-ordered, first = bottom) into one self-contained animated SVG.
  */
@@ -268,59 +308,91 @@ export function composeAnimatedLayers(layers: CompositeLayer[], opts: ComposeLay
     }
 
     // 4. Layer-level animations, each held before its start and after its end so
-    //    it sits still outside its window. Transform / opacity animations go on
-    //    the layer's wrapping `<g>` (accumulated into one `animation:` decl, the
-    //    magic-move rule pattern, so several don't override each other).
-    const groupDecls: string[] = [];
-    let transformOrigin: string | null = null;
-    const clipScales: CompositeLayerAnimation[] = [];
-    (r.layer.animations ?? []).forEach((a, ai) => {
-      if (a.property === "clipScaleX" || a.property === "clipScaleY") { clipScales.push(a); return; }
-      const name = `${token}a${ai}`;
-      const sPct = clampPct(((a.start ?? 0) / master) * 100);
-      const ePct = clampPct((((a.start ?? 0) + (a.duration ?? master)) / master) * 100);
-      const prop = a.property === "opacity" ? "opacity" : "transform";
-      const from = renderAnimValue(a.property, a.from);
-      const to = renderAnimValue(a.property, a.to);
-      styleParts.push(`@keyframes ${name}{0%,${fmt(sPct)}%{${prop}:${from}}${fmt(ePct)}%,100%{${prop}:${to}}}`);
-      groupDecls.push(`${name} ${fmt(masterSec)}s ${a.easing ?? "ease"} infinite`);
-      if (a.property !== "opacity" && transformOrigin == null) transformOrigin = a.transformOrigin ?? "0 0";
+    //    it sits still outside its window. Those of one property follow each other
+    //    on one track; the opacity track shares the layer's wrapping `<g>` with the
+    //    first transform track (one `animation:` decl, the magic-move rule pattern)
+    //    and every further transform track gets a `<g>` of its own inside it —
+    //    a second `transform` animation on the same element would replace the first.
+    const tracks = new Map<CompositeLayerAnimation["property"], IndexedAnimation[]>();
+    (r.layer.animations ?? []).forEach((animation, index) => {
+      const track = tracks.get(animation.property);
+      if (track != null) track.push({ animation, index });
+      else tracks.set(animation.property, [{ animation, index }]);
     });
-    const groupStyle = groupDecls.length > 0
-      ? ` style="${transformOrigin != null ? `transform-box:fill-box;transform-origin:${transformOrigin};` : ""}animation:${groupDecls.join(",")}"`
-      : "";
+    const wrappers: { decls: string[]; transformOrigin: string | null }[] = [{ decls: [], transformOrigin: null }];
+    for (const [property, track] of tracks) {
+      if (property === "clipScaleX" || property === "clipScaleY") continue;
+      const name = `${token}a${track[0].index}`;
+      const { stops, easing } = layerTrack(track.map((t) => t.animation), master, (v) =>
+        `${property === "opacity" ? "opacity" : "transform"}:${renderAnimValue(property, v)}`);
+      styleParts.push(`@keyframes ${name}{${stops}}`);
+      const decl = `${name} ${fmt(masterSec)}s ${easing} infinite`;
+      if (property === "opacity") {
+        wrappers[0].decls.push(decl);
+        continue;
+      }
+      const transformOrigin = track[0].animation.transformOrigin ?? "0 0";
+      if (wrappers[0].transformOrigin == null) {
+        wrappers[0].decls.push(decl);
+        wrappers[0].transformOrigin = transformOrigin;
+      } else {
+        wrappers.push({ decls: [decl], transformOrigin });
+      }
+    }
+    const groupStyles = wrappers.map(({ decls, transformOrigin }) => decls.length > 0
+      ? ` style="${transformOrigin != null ? `transform-box:fill-box;transform-origin:${transformOrigin};` : ""}animation:${decls.join(",")}"`
+      : "");
+    const groupStyle = groupStyles[0];
 
     // 5. clipScaleX/Y — resize the layer's visible BOX (not its contents) by
     //    transform-scaling a clip-rect. Robust across nested-SVG content (unlike
-    //    animating `clip-path: inset()` directly). All clip-scale anims on a layer
-    //    share one clip-rect + one transform animation (scale(sx,sy)).
+    //    animating `clip-path: inset()` directly). Both axes share one clip-rect +
+    //    one transform animation (scale(sx,sy)) when they move together; axes that
+    //    run at different times clip one inside the other.
+    const axisX = (tracks.get("clipScaleX") ?? []).map((t) => t.animation);
+    const axisY = (tracks.get("clipScaleY") ?? []).map((t) => t.animation);
+    // Origin: shrink from the left/top edge by default (a window's fixed corner).
+    // DM-1529: resolve the origin to an EXPLICIT userspace point (px in the SVG
+    // coordinate system) rather than `transform-box:fill-box` + a keyword.
+    // Firefox does NOT honor `transform-box:fill-box` on a `<clipPath>`'s child
+    // `<rect>` — it pivots the scale about the SVG viewport origin (0,0) instead
+    // of the rect's own box, so the clip shrank toward (0,0) and its right/bottom
+    // edge pulled inward (content clipped too narrow). Chromium/WebKit honored
+    // fill-box, so it only broke in Firefox. Computing the origin in userspace
+    // (relative to the rect's real x/y/w/h) needs no fill-box and is identical
+    // across engines.
+    const ox = resolveClipOriginPx(axisX[0]?.transformOrigin ?? "left", r.x, r.w);
+    const oy = resolveClipOriginPx(axisY[0]?.transformOrigin ?? "top", r.y, r.h);
+    const rad = r.layer.clipRadius != null ? ` rx="${fmt(r.layer.clipRadius)}"` : "";
+    const clipBy = (suffix: string, { stops, easing }: LayerTrack): string => {
+      const name = `${token}clipa${suffix}`;
+      const clipId = `${token}rclip${suffix}`;
+      const clipper = `${token}clipper${suffix}`;
+      defsParts.push(`<clipPath id="${clipId}" clipPathUnits="userSpaceOnUse"><rect class="${clipper}" x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}"${rad}/></clipPath>`);
+      styleParts.push(`@keyframes ${name}{${stops}} .${clipper}{transform-origin:${fmt(ox)}px ${fmt(oy)}px;animation:${name} ${fmt(masterSec)}s ${easing} infinite}`);
+      return ` clip-path="url(#${clipId})"`;
+    };
     let clipAttr = "";
-    if (clipScales.length > 0) {
-      const sx = clipScales.find((a) => a.property === "clipScaleX");
-      const sy = clipScales.find((a) => a.property === "clipScaleY");
-      const anchor = clipScales[0];
-      const name = `${token}clipa`;
-      const clipId = `${token}rclip`;
-      const sPct = clampPct(((anchor.start ?? 0) / master) * 100);
-      const ePct = clampPct((((anchor.start ?? 0) + (anchor.duration ?? master)) / master) * 100);
-      const fromT = `scale(${Number(sx?.from ?? 1)},${Number(sy?.from ?? 1)})`;
-      const toT = `scale(${Number(sx?.to ?? 1)},${Number(sy?.to ?? 1)})`;
-      // Origin: shrink from the left/top edge by default (a window's fixed corner).
-      // DM-1529: resolve the origin to an EXPLICIT userspace point (px in the SVG
-      // coordinate system) rather than `transform-box:fill-box` + a keyword.
-      // Firefox does NOT honor `transform-box:fill-box` on a `<clipPath>`'s child
-      // `<rect>` — it pivots the scale about the SVG viewport origin (0,0) instead
-      // of the rect's own box, so the clip shrank toward (0,0) and its right/bottom
-      // edge pulled inward (content clipped too narrow). Chromium/WebKit honored
-      // fill-box, so it only broke in Firefox. Computing the origin in userspace
-      // (relative to the rect's real x/y/w/h) needs no fill-box and is identical
-      // across engines.
-      const ox = resolveClipOriginPx(sx?.transformOrigin ?? "left", r.x, r.w);
-      const oy = resolveClipOriginPx(sy?.transformOrigin ?? "top", r.y, r.h);
-      const rad = r.layer.clipRadius != null ? ` rx="${fmt(r.layer.clipRadius)}"` : "";
-      defsParts.push(`<clipPath id="${clipId}" clipPathUnits="userSpaceOnUse"><rect class="${token}clipper" x="${fmt(r.x)}" y="${fmt(r.y)}" width="${fmt(r.w)}" height="${fmt(r.h)}"${rad}/></clipPath>`);
-      styleParts.push(`@keyframes ${name}{0%,${fmt(sPct)}%{transform:${fromT}}${fmt(ePct)}%,100%{transform:${toT}}} .${token}clipper{transform-origin:${fmt(ox)}px ${fmt(oy)}px;animation:${name} ${fmt(masterSec)}s ${anchor.easing ?? "ease"} infinite}`);
-      clipAttr = ` clip-path="url(#${clipId})"`;
+    if (axisX.length > 0 && axisY.length > 0) {
+      const together = axisX.length === axisY.length && axisX.every((a, k) =>
+        a.start === axisY[k].start && a.duration === axisY[k].duration && a.easing === axisY[k].easing);
+      if (together) {
+        clipAttr = clipBy("", layerTrack(axisX, master, (v, k, end) => `transform:scale(${Number(v)},${Number(axisY[k][end])})`));
+      } else {
+        clipAttr = clipBy("", layerTrack(axisX, master, (v) => `transform:scale(${Number(v)},1)`));
+        nested = `<g${clipBy("y", layerTrack(axisY, master, (v) => `transform:scale(1,${Number(v)})`))}>${nested}</g>`;
+      }
+    } else if (axisX.length > 0) {
+      clipAttr = clipBy("", layerTrack(axisX, master, (v) => `transform:scale(${Number(v)},1)`));
+    } else if (axisY.length > 0) {
+      clipAttr = clipBy("", layerTrack(axisY, master, (v) => `transform:scale(1,${Number(v)})`));
+    }
+
+    // The clip moves with the layer, so it goes inside every transform.
+    if (groupStyles.length > 1) {
+      if (clipAttr !== "") nested = `<g${clipAttr}>${nested}</g>`;
+      clipAttr = "";
+      for (const style of groupStyles.slice(1).reverse()) nested = `<g${style}>${nested}</g>`;
     }
 
     groups.push(`<g class="${token}layer"${clipAttr}${groupStyle}>${nested}</g>`);
-- 
2.43.0


From b0d6ef0f7590b9d9c7bbdcc03f42087d466b908a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:19 +0000
Subject: [PATCH 40/61] fix: embedded timelines keep minified stops and fill
 their window exactly

Stops like '0%,to' were torn apart when remapped, content stretched to the whole
loop kept its own pace, and content whose written length is rounded drifted
against the loop it fills.
---
 src/animation/embed-timeline.ts | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/animation/embed-timeline.ts b/src/animation/embed-timeline.ts
index 9315f2d..21692ae 100644
--- a/src/animation/embed-timeline.ts
+++ b/src/animation/embed-timeline.ts
@@ -140,7 +140,7 @@ function tokenizeEntry(entry: string): string[] {
  * the sub-window is that of the stop before it.
  */
 function remapKeyframeBody(inner: string, offsetPct: number, scale: number, stepEnd: boolean): string {
-  const stopRe = /(from|to|[\d.]+%(?:\s*,\s*[\d.]+%)*)\s*\{([^{}]*)\}/g;
+  const stopRe = /((?:from|to|[\d.]+%)(?:\s*,\s*(?:from|to|[\d.]+%))*)\s*\{([^{}]*)\}/g;
   const stops = [...inner.matchAll(stopRe)].map((m) => ({
     offsets: m[1].split(",").map((sel) => {
       const s = sel.trim();
@@ -181,7 +181,7 @@ function remapKeyframeBody(inner: string, offsetPct: number, scale: number, step
  * `[startMs, startMs + periodMs]` window of the master loop and holds outside
  * it. See the module header for the full rationale. Returns the rewritten SVG;
  * a no-op (returns the input) when there is nothing to shift (the embedded
- * content already starts at the origin and fills the whole loop).
+ * content already starts at the origin and fills the whole loop exactly).
  */
 export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimelineOptions): string {
   const { periodMs, startMs, masterMs } = opts;
@@ -220,10 +220,9 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
       .replace(/style="([^"]*animation:[^"]*)"/g, (_full, css: string) => `style="${delayCss(css)}"`);
   }
 
-  // Nothing to do: content already starts at the origin and fills the loop (and
-  // the container's written loop length doesn't round the content's own away).
-  const exactLoop = Math.abs(Number(masterDurationSec) * 1000 - masterMs) <= 1e-6;
-  if (exactLoop && offsetPct <= 1e-6 && Math.abs(scale - 1) <= 1e-6) return svg;
+  // Content that starts at the origin and fills the loop keeps its keyframes; all
+  // it may need is the container's exact loop length (its own may be rounded).
+  const identity = offsetPct <= 1e-6 && Math.abs(scale - 1) <= 1e-6;
 
   // Pass 1: retime matching animations + collect the keyframe names they drive.
   // Untouched declarations (e.g. a fixed-period cursor blink) are returned
@@ -241,8 +240,8 @@ export function offsetEmbeddedAnimatedSvgTimeline(svg: string, opts: OffsetTimel
           if (sec == null) continue;
           if (Math.abs(sec - periodSec) <= tol) {
             const name = tokens.find((t) => parseTimeSec(t) == null && /^[A-Za-z_-][\w-]*$/.test(t) && !ANIM_KEYWORDS.has(t));
-            if (name != null) {
-              retimed.set(name, { stepEnd: tokens.includes("step-end") });
+            if (name != null && !(identity && Math.abs(sec - Number(masterDurationSec)) <= 1e-9)) {
+              if (!identity) retimed.set(name, { stepEnd: tokens.includes("step-end") });
               tokens[i] = `${masterDurationSec}s`;
               changed = true;
             }
-- 
2.43.0


From 207cb03a3e3813fb0d4ecd225d8b28d5a896c52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:35 +0000
Subject: [PATCH 41/61] fix: a box that reappears in a compressed run shows
 only the content it has then, not every content it ever had

---
 src/animation/compressed-run.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/animation/compressed-run.ts b/src/animation/compressed-run.ts
index 5a3de25..c9f4e1e 100644
--- a/src/animation/compressed-run.ts
+++ b/src/animation/compressed-run.ts
@@ -1210,6 +1210,9 @@ function mergeLevel(unionList: UnionNode[], nextEls: CapturedElement[], s: numbe
       else {
         lastWindow(hit.node).end = s + 1;
         mergeLevel(hit.node.children, nextEls[b].children, s);
+        // The subtree may have just gained a variant: a key remembered from an
+        // earlier reopen scan would let it reopen with every variant showing.
+        fullDeepKeyCache.delete(hit.node);
       }
       cursor = unionList.indexOf(hit.node) + 1;
     } else {
-- 
2.43.0


From 3e4c9d5fbe7fa9a62fd19bb6040388928113bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:29 +0000
Subject: [PATCH 42/61] fix: a continued frame does not replay an earlier
 frame's animation over its own content

---
 src/cli/animate.ts | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 1c90949..becca02 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -1514,6 +1514,22 @@ interface CapturedFrameContext {
 /** Default readiness wait (ms) before a captured frame's own actions run. */
 const FRAME_READY_WAIT_MS = 200;
 
+/**
+ * Strip the `data-domotion-anim` ids earlier frames stamped on a continued live
+ * page. A stamp left in place would be captured again by this frame, which would
+ * then replay the earlier frame's animation over its own content. Only ids this
+ * module generates are removed: an author's own `data-domotion-anim` stays.
+ */
+async function clearFrameAnimStamps(page: Page): Promise<void> {
+  await page.evaluate(() => {
+    document.querySelectorAll("[data-domotion-anim]").forEach((el) => {
+      if (el instanceof HTMLElement && /^(?:jr0|f\d+(?:a|tt|rg|ova)\d+(?:e\d+)?)$/.test(el.dataset.domotionAnim ?? "")) {
+        delete el.dataset.domotionAnim;
+      }
+    });
+  });
+}
+
 /**
  * Build a captured/default frame (DM-1379): the loop's main fall-through path —
  * continue-vs-load → readyWaits → webfont discovery → scrollTo → cursor
@@ -1546,6 +1562,7 @@ async function buildCapturedFrame(
   const isContinue = i > 0 && (fc.continue === true || fc.input == null);
   if (isContinue) {
     log(`Frame ${i + 1}/${cfg.frames.length}: continuing live page…`);
+    await clearFrameAnimStamps(page);
   } else {
     const inputStr = fc.input;
     if (inputStr == null) throw new Error(`animate: frames[${i}] has no input and is not a continue frame`);
-- 
2.43.0


From e9cc0770dfde0c7b6b5722ea26960eb59dd7de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:29 +0000
Subject: [PATCH 43/61] fix: the hovered half of a hover reveal captures the
 frame's own selector

---
 src/cli/animate.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index becca02..790e875 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -3363,6 +3363,7 @@ export function expandHoverReveal(cfg: AnimateConfig, log: (msg: string) => void
     const hoverFrame: AnimateFrameCfg = {
       continue: true,
       duration: hr.hoverMs ?? f.duration,
+      ...(f.selector != null ? { selector: f.selector } : {}),
       forceState: [{ selector: hr.selector, states: hr.states ?? ["hover"] }],
       ...(origTransition != null ? { transition: origTransition } : {}),
     };
@@ -3510,6 +3511,7 @@ async function expandHoverDetect(
       const hoverFrame: AnimateFrameCfg = {
         continue: true,
         duration: hd.hoverMs ?? f.duration,
+        ...(f.selector != null ? { selector: f.selector } : {}),
         forceState: [{ selector: hd.selector, states }],
         ...(origTransition != null ? { transition: origTransition } : {}),
       };
-- 
2.43.0


From aacb5596bafdd085acf61b51a5d53f0e2d8324e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:15 +0000
Subject: [PATCH 44/61] fix: a region-only typing frame does not show the
 field's empty state through its later ones

---
 src/cli/type-resample.ts | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/cli/type-resample.ts b/src/cli/type-resample.ts
index 1802f70..4b8f1f7 100644
--- a/src/cli/type-resample.ts
+++ b/src/cli/type-resample.ts
@@ -30,6 +30,7 @@ import type { BlinkOverlay } from "../animation/overlay-schema.js";
 import { generateAnimatedSvg } from "../animation/index.js";
 import { caretShapeRect, firstLineBaseline, type CaretShape } from "../animation/caret-metrics.js";
 import { captureElementTreeSelfContained } from "../capture/index.js";
+import type { CapturedElement } from "../capture/types.js";
 import { elementTreeToSvgInner } from "../render/index.js";
 import { namespaceEmbeddedAnimatedSvg } from "../animation/embed-namespace.js";
 import { cullElementsOutsideViewBox } from "../tree-ops/index.js";
@@ -254,6 +255,29 @@ function caretOverlay(m: CaretMeasurement | null): AnimationOverlay[] | undefine
   return [overlay];
 }
 
+/** Transient `data-domotion-anim` id marking the field in the `regionOnly` base capture. */
+const BASE_FIELD_ID = "tr-base-field";
+
+/** Set (or, with `null`, remove) the target's `data-domotion-anim`; returns its previous value. */
+async function stampAnimId(page: Page, selector: string, id: string | null): Promise<string | null> {
+  return page.evaluate(({ sel, id }: { sel: string; id: string | null }) => {
+    const el = document.querySelector(sel);
+    if (!(el instanceof HTMLElement)) return null;
+    const prior = el.dataset.domotionAnim ?? null;
+    if (id == null) delete el.dataset.domotionAnim;
+    else el.dataset.domotionAnim = id;
+    return prior;
+  }, { sel: selector, id });
+}
+
+/** Remove the subtrees captured under `id` from `tree`, in place. */
+function dropByAnimId(tree: CapturedElement[], id: string): void {
+  for (let i = tree.length - 1; i >= 0; i--) {
+    if (tree[i].animId === id) tree.splice(i, 1);
+    else if (tree[i].children != null) dropByAnimId(tree[i].children, id);
+  }
+}
+
 /**
  * Drive `spec.selector` one keystroke at a time, re-capturing the page after each
  * keystroke, and compose the per-keystroke captures into one nested animated SVG.
@@ -300,7 +324,13 @@ export async function buildTypeResampleAnimation(
     }
     if (spec.regionOnly && j === 0) {
       // Capture the full page ONCE (empty state) as the static base backdrop.
+      // The field itself is left out of it: the flipbook paints the field in every
+      // state, and a field with a transparent background would otherwise show the
+      // empty state's text or placeholder through each later one.
+      const priorId = await stampAnimId(page, spec.selector, BASE_FIELD_ID);
       const baseTree = await captureElementTreeSelfContained(page, "body", { x: 0, y: 0, width, height });
+      await stampAnimId(page, spec.selector, priorId);
+      dropByAnimId(baseTree, BASE_FIELD_ID);
       cullElementsOutsideViewBox(baseTree, width, height, undefined, 0, 1);
       rootBg = baseTree[0]?.styles?.rootBgComputed;
       baseInner = elementTreeToSvgInner(baseTree, width, height, `${framePrefix}base-`, true, 2, false);
-- 
2.43.0


From f786c8b21ac95d865ef6c94932cd0f0d47056a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:15 +0000
Subject: [PATCH 45/61] fix: a reveal that changes more than the target, or
 shows and hides, is not reduced to a tween

---
 src/cli/hover-detect.ts    |  2 ++
 src/cli/mutation-detect.ts | 10 ++++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/cli/hover-detect.ts b/src/cli/hover-detect.ts
index 526f1cb..241e6c5 100644
--- a/src/cli/hover-detect.ts
+++ b/src/cli/hover-detect.ts
@@ -40,6 +40,8 @@ export const HOVER_PAINT_PROPERTIES = [
   "boxShadow",
   "outlineColor",
   "outlineWidth",
+  "display",
+  "visibility",
 ] as const;
 
 /** Computed-style properties that map to a cross-engine intra-frame keyframe. */
diff --git a/src/cli/mutation-detect.ts b/src/cli/mutation-detect.ts
index 06f2af3..5748b99 100644
--- a/src/cli/mutation-detect.ts
+++ b/src/cli/mutation-detect.ts
@@ -129,6 +129,9 @@ export interface MutationSummary {
   changed: boolean;
   /** True if the feedback added or removed DOM nodes (→ crossfade is the right synthesis). */
   structural: boolean;
+  /** True if anything but an attribute of the target itself was mutated: the change
+   *  then reaches beyond what a tween of the target alone can show. */
+  beyondTarget: boolean;
 }
 
 /**
@@ -152,6 +155,7 @@ export async function detectJsMutations(page: Page, spec: JsRevealSpec): Promise
       let removedNodes = 0;
       let attributes = 0;
       let characterData = 0;
+      let beyondTarget = false;
 
       let settle: (reason: "settled") => void;
       const settled = new Promise<"settled">((r) => { settle = r; });
@@ -163,6 +167,7 @@ export async function detectJsMutations(page: Page, spec: JsRevealSpec): Promise
 
       const obs = new MutationObserver((records) => {
         for (const rec of records) {
+          if (rec.type !== "attributes" || rec.target !== target) beyondTarget = true;
           if (rec.type === "childList") {
             addedNodes += rec.addedNodes.length;
             removedNodes += rec.removedNodes.length;
@@ -200,7 +205,7 @@ export async function detectJsMutations(page: Page, spec: JsRevealSpec): Promise
 
       const changed = addedNodes + removedNodes + attributes + characterData > 0;
       const structural = addedNodes + removedNodes > 0;
-      return { notFound: false, addedNodes, removedNodes, attributes, characterData, reason, changed, structural };
+      return { notFound: false, addedNodes, removedNodes, attributes, characterData, reason, changed, structural, beyondTarget };
     },
     { selector: spec.selector, event: spec.event, settleMs: spec.settleMs, debounceMs: spec.debounceMs },
   );
@@ -216,6 +221,7 @@ export async function detectJsMutations(page: Page, spec: JsRevealSpec): Promise
     reason: summary.reason,
     changed: summary.changed,
     structural: summary.structural,
+    beyondTarget: summary.beyondTarget,
   };
 }
 
@@ -278,7 +284,7 @@ export async function buildJsRevealAnimation(
     // settled computed styles (the same engine `hoverDetect` uses); a `motion`
     // classification → an intra-frame tween on the tagged element.
     let tweened = false;
-    if (!summary.structural && restSnap != null) {
+    if (!summary.beyondTarget && restSnap != null) {
       const afterSnap = await captureStyleSnapshot(page, spec.selector, HOVER_DIFF_PROPERTIES).catch(() => null);
       const diff = afterSnap != null ? diffHoverSnapshots(restSnap, afterSnap) : null;
       if (diff != null && classifyHoverTransition(diff) === "motion") {
-- 
2.43.0


From 024d4556c743e23b5f1776afea0d950e79e86252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:15 +0000
Subject: [PATCH 46/61] fix: hover detection waits as long for a slow page as
 its frame does

---
 src/cli/animate.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 790e875..f6121b8 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -3460,6 +3460,10 @@ async function expandHoverDetect(
     let diff: HoverDiff;
     try {
       const page = await ctx.newPage();
+      // Same budget as the frame loop's page: a wait that is fine there must not
+      // fail here.
+      page.setDefaultTimeout(90_000);
+      page.setDefaultNavigationTimeout(90_000);
       const input = resolveFrameInput(f.input!, configDir);
       log(`Frame ${oldIdx + 1}/${cfg.frames.length}: hoverDetect probing "${hd.selector}" (${input})…`);
       await loadInputIntoPage(page, input);
-- 
2.43.0


From d2a24db4a9952248f45e36b2b03e611bef3fdf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:15 +0000
Subject: [PATCH 47/61] fix: the browser context is closed when brand variables
 cannot be injected

---
 src/cli/animate.ts | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index f6121b8..8f0bb3d 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -2900,13 +2900,13 @@ export async function composeAnimateFrames(
     ...(cfg.mobile === true ? { userAgent: "Mozilla/5.0 (iPhone; CPU iPhone OS 17_0 like Mac OS X)" } : {}),
     ...(cfg.colorScheme != null ? { colorScheme: cfg.colorScheme } : {}),
   });
-  // DM-1540 (docs/92): inject the brand's CSS custom properties onto every
-  // captured frame's `:root` before it paints. On the context, so it applies to
-  // each frame's navigation. Template/cast frames render before this loop and
-  // carry their own theming (template frames via their brand defaults, DM-1543).
-  // `runBrand` is `--brand` or the config's `brand` key (DM-1544).
-  if (runBrand != null) await injectBrandVariables(ctx, runBrand);
   try {
+    // DM-1540 (docs/92): inject the brand's CSS custom properties onto every
+    // captured frame's `:root` before it paints. On the context, so it applies to
+    // each frame's navigation. Template/cast frames render before this loop and
+    // carry their own theming (template frames via their brand defaults, DM-1543).
+    // `runBrand` is `--brand` or the config's `brand` key (DM-1544).
+    if (runBrand != null) await injectBrandVariables(ctx, runBrand);
     const page = await ctx.newPage();
     // DM-479: 90 s instead of Playwright's 30 s default.
     page.setDefaultTimeout(90_000);
-- 
2.43.0


From f72cc5680ab70bcf9b212ab06cb965fafa77f47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:29:00 +0000
Subject: [PATCH 48/61] fix: magic-move keeps the previous copy of an element
 that a newly added box swallows

---
 src/animation/magic-move.ts | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/animation/magic-move.ts b/src/animation/magic-move.ts
index b43e12e..df09689 100644
--- a/src/animation/magic-move.ts
+++ b/src/animation/magic-move.ts
@@ -234,6 +234,17 @@ export function buildMagicMove(
   const removed = entriesOfKind(diff, "removed")
     .filter((e) => e.prevPath == null || !keyedPrevPaths.has(e.prevPath.join(",")));
 
+  // A matched element whose NEXT position sits inside an `added` subtree only
+  // has the copy that fades in with that subtree, so its PREV appearance would
+  // vanish at the window start (the whole frame blanks when a new wrapper
+  // swallows the page). Fade its prev copy out alongside the removed ones.
+  const addedPaths = added.map((e) => e.nextPath).filter((p): p is number[] => p != null);
+  const swallowed = entriesOfKind(diff, "static", "translated", "modified")
+    .filter((e) => e.nextPath != null && e.prevPath != null
+      && !keyedPrevPaths.has(e.prevPath.join(","))
+      && addedPaths.some((p) => isAncestorPath(p, e.nextPath!)));
+  const leaving = [...removed, ...swallowed];
+
   if (rootMovers.length === 0 && added.length === 0 && removed.length === 0) {
     return null; // nothing to magic-move → caller uses crossfade
   }
@@ -294,9 +305,9 @@ export function buildMagicMove(
   // their prev coordinates) so they render where the prev frame had them, and
   // fade them out. Skip a removed entry nested inside another removed subtree
   // (its ancestor already carries it).
-  const removedPaths = removed.map((e) => e.prevPath).filter((p): p is number[] => p != null);
+  const removedPaths = leaving.map((e) => e.prevPath).filter((p): p is number[] => p != null);
   let o = 0;
-  for (const e of removed) {
+  for (const e of leaving) {
     if (e.prevPath == null || e.prev == null) continue;
     if (removedPaths.some((p) => isAncestorPath(p, e.prevPath!))) continue;
     const clone = structuredClone(e.prev);
-- 
2.43.0


From 55cf6fef85c95fe86dca71138e5813c36963d1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:20 +0000
Subject: [PATCH 49/61] fix: closing a local server drops connections that
 never sent a request

---
 src/utils/local-server.ts | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/utils/local-server.ts b/src/utils/local-server.ts
index e10c865..34f57fc 100644
--- a/src/utils/local-server.ts
+++ b/src/utils/local-server.ts
@@ -1,14 +1,17 @@
 import { createServer, type IncomingMessage, type ServerResponse, type Server } from "node:http";
+import type { Socket } from "node:net";
 
 export interface LocalServer {
   server: Server;
   url: string;
   port: number;
   /**
-   * Stop accepting connections and drop idle keep-alive sockets so `close()`
+   * Stop accepting connections and drop sockets with no request in flight so `close()`
    * fires promptly on Ctrl-C instead of waiting out a pooled client's keep-alive
    * timeout (DM-1074 — Node's `fetch`/undici pools a socket that can delay
-   * `server.close()` by tens of seconds).
+   * `server.close()` by tens of seconds). That includes sockets that never sent
+   * a request: browsers preconnect speculatively, `closeIdleConnections()` does
+   * not count those as idle, and a closed server no longer times them out.
    */
   close: () => Promise<void>;
 }
@@ -24,7 +27,21 @@ export async function startLocalServer(
   handler: (req: IncomingMessage, res: ServerResponse) => void | Promise<void>,
   port = 0,
 ): Promise<LocalServer> {
-  const server = createServer((req, res) => { void handler(req, res); });
+  const sockets = new Set<Socket>();
+  const busy = new Map<Socket, number>(); // requests in flight per socket
+  const server = createServer((req, res) => {
+    const { socket } = req;
+    busy.set(socket, (busy.get(socket) ?? 0) + 1);
+    res.once("close", () => {
+      const left = (busy.get(socket) ?? 1) - 1;
+      if (left > 0) busy.set(socket, left); else busy.delete(socket);
+    });
+    void handler(req, res);
+  });
+  server.on("connection", (socket) => {
+    sockets.add(socket);
+    socket.once("close", () => { sockets.delete(socket); });
+  });
   const boundPort = await new Promise<number>((resolve, reject) => {
     server.once("error", reject);
     server.listen(port, "127.0.0.1", () => {
@@ -36,7 +53,11 @@ export async function startLocalServer(
     server,
     url: `http://127.0.0.1:${boundPort}/`,
     port: boundPort,
-    close: () => new Promise<void>((resolve) => { server.close(() => resolve()); server.closeIdleConnections(); }),
+    close: () => new Promise<void>((resolve) => {
+      server.close(() => resolve());
+      server.closeIdleConnections();
+      for (const socket of sockets) if (!busy.has(socket)) socket.destroy();
+    }),
   };
 }
 
-- 
2.43.0


From 629f95f40041aae44657a8b4ede64727dfa10656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:00 +0000
Subject: [PATCH 50/61] fix: rendering a template closes its browser when its
 temp directory cannot be made or removed

---
 src/templates/render.ts | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/templates/render.ts b/src/templates/render.ts
index bd5202a..f67641c 100644
--- a/src/templates/render.ts
+++ b/src/templates/render.ts
@@ -114,20 +114,24 @@ export async function renderTemplateToSvg<P>(
   const log = opts.log ?? ((): void => {});
   const ownsBrowser = opts.browser == null;
   const browser = opts.browser ?? (await launchChromium());
-  const workDir = mkdtempSync(join(tmpdir(), `domotion-tmpl-${template.name}-`));
   try {
-    const ctx: TemplateRenderContext = {
-      browser,
-      workDir,
-      log,
-      ...(opts.safeInset != null ? { safeInset: opts.safeInset } : {}),
-      runAnimateConfig: (cfg: AnimateConfig, configDir?: string): Promise<string> =>
-        composeAnimateConfig(browser, cfg, configDir ?? workDir, log),
-      captureToSvg: (p: CaptureToSvgParams): Promise<TemplateOutput> => captureToSvg(browser, p, log),
-    };
-    return await template.render(params, ctx);
+    const workDir = mkdtempSync(join(tmpdir(), `domotion-tmpl-${template.name}-`));
+    try {
+      const ctx: TemplateRenderContext = {
+        browser,
+        workDir,
+        log,
+        ...(opts.safeInset != null ? { safeInset: opts.safeInset } : {}),
+        runAnimateConfig: (cfg: AnimateConfig, configDir?: string): Promise<string> =>
+          composeAnimateConfig(browser, cfg, configDir ?? workDir, log),
+        captureToSvg: (p: CaptureToSvgParams): Promise<TemplateOutput> => captureToSvg(browser, p, log),
+      };
+      return await template.render(params, ctx);
+    } finally {
+      rmSync(workDir, { recursive: true, force: true });
+    }
   } finally {
-    rmSync(workDir, { recursive: true, force: true });
+    // Outermost, so a failing temp-dir create / cleanup can't leak the browser.
     if (ownsBrowser) await browser.close();
   }
 }
-- 
2.43.0


From bbb45557103a7dff29e220ba49040e2210e3c613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:19 +0000
Subject: [PATCH 51/61] fix: capture scrolls the page where --scroll-to asks

---
 src/cli/capture.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cli/capture.ts b/src/cli/capture.ts
index a271728..e6b0420 100644
--- a/src/cli/capture.ts
+++ b/src/cli/capture.ts
@@ -293,6 +293,9 @@ export async function runCapture(args: string[], help: string): Promise<void> {
       await timed(log, "  loaded", () => loadInputIntoPage(page, input, { networkIdle: flags.networkIdle }));
     }
     await timed(log, "  page settled", () => applyReadyWaits(page, flags));
+    if (flags.scroll != null) {
+      await page.evaluate((coords: number[]) => window.scrollTo(coords[0], coords[1]), flags.scroll);
+    }
 
     // Webfont discovery: now that document.fonts.ready resolved, walk the
     // page's @font-face rules, fetch the actual bytes via the browser's
-- 
2.43.0


From 99e36faf3e27c6638910155fde68374816b94512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:39 +0000
Subject: [PATCH 52/61] fix: capture refuses to write its default output over
 its own input

---
 src/cli/capture.ts | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/cli/capture.ts b/src/cli/capture.ts
index e6b0420..08e8021 100644
--- a/src/cli/capture.ts
+++ b/src/cli/capture.ts
@@ -229,6 +229,11 @@ export async function runCapture(args: string[], help: string): Promise<void> {
     crossOriginFrames: values["cross-origin-frames"],
   };
 
+  // A local `.svg` input's default output path is the input itself.
+  if (flags.output == null && resolveOutputPath(undefined, input, ".svg") === resolve(input)) {
+    throw new Error(`capture: the default output would overwrite the input "${input}" — pass -o <path> (or "-o -" for stdout)`);
+  }
+
   const log = makeLogger(values.quiet === true);
   const { debug, debugDir } = await setupDebugBundle(values.debug, values["debug-dir"], flags.output, log);
   // DM-1442: opt-in cross-origin iframe recursion launches Chromium with web
-- 
2.43.0


From a0948da8d4c8924a44db1322439afcaa9b81174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:11 +0000
Subject: [PATCH 53/61] fix: the pointer jumps on an instant move, can be
 interrupted mid-slide, and stays put at the loop end

---
 src/animation/cursor-overlay.ts | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/src/animation/cursor-overlay.ts b/src/animation/cursor-overlay.ts
index 45e1d83..4b90df2 100644
--- a/src/animation/cursor-overlay.ts
+++ b/src/animation/cursor-overlay.ts
@@ -161,12 +161,28 @@ export function resolveCursorScript(
 
   const positions: KeyframePoint[] = [];
   const clicks: ResolvedClick[] = [];
-  let curX = 0;
-  let curY = 0;
 
   const pushKey = (t: number, x: number, y: number, vis: boolean, cursor?: string): void => {
     positions.push({ t, x, y, visible: vis, cursor });
-    curX = x; curY = y;
+  };
+
+  /** Drop what was scheduled after `t` (the rest of a slide that the next event
+   *  interrupts) and pin the pointer where it is at that moment. */
+  const pinAt = (t: number): void => {
+    const here = positions.length > 0 ? stateAtTime(positions, t) : null;
+    while (positions.length > 0 && positions[positions.length - 1].t > t) positions.pop();
+    if (here != null && positions.length > 0 && positions[positions.length - 1].t < t) {
+      pushKey(t, here.x, here.y, here.visible, here.cursor);
+    }
+  };
+
+  // An instant move still needs a keyframe just before it, or the linear position
+  // track would creep towards the target all the way from the previous keyframe.
+  // Wide enough that the two keyframes stay apart in `pct`'s precision.
+  const jumpMs = Math.max(1, totalDurationMs * 2e-6);
+  const jumpTo = (t: number, x: number, y: number, cursor?: string): void => {
+    pinAt(t - jumpMs);
+    pushKey(t, x, y, true, cursor);
   };
 
   const frameForT = (t: number): number => {
@@ -179,9 +195,11 @@ export function resolveCursorScript(
   };
 
   for (const ev of events) {
+    const { x: curX, y: curY } = positions.length > 0 ? stateAtTime(positions, ev.t) : { x: 0, y: 0 };
     if (ev.type === "show") {
-      pushKey(ev.t, ev.x, ev.y, true, ev.cursor);
+      jumpTo(ev.t, ev.x, ev.y, ev.cursor);
     } else if (ev.type === "hide") {
+      pinAt(ev.t);
       pushKey(ev.t, curX, curY, false);
     } else if (ev.type === "move") {
       const dur = ev.duration ?? 0;
@@ -193,10 +211,11 @@ export function resolveCursorScript(
         // in mid-frame. (Both the first-positioning and subsequent-move cases
         // emit the same start keyframe — DM-1073 collapsed a no-op branch here.)
         // The `cursor` override (if any) rides the whole slide.
+        pinAt(ev.t);
         pushKey(ev.t, curX, curY, true, ev.cursor);
         pushKey(ev.t + dur, target.x, target.y, true, ev.cursor);
       } else {
-        pushKey(ev.t, target.x, target.y, true, ev.cursor);
+        jumpTo(ev.t, target.x, target.y, ev.cursor);
       }
     } else if (ev.type === "click") {
       const button = ev.button ?? "primary";
@@ -211,6 +230,9 @@ export function resolveCursorScript(
   if (positions.length === 0 || positions[0].t > 0) {
     positions.unshift({ t: 0, x: positions[0]?.x ?? 0, y: positions[0]?.y ?? 0, visible: false });
   }
+  // A slide (or event) that runs past the loop end is cut there: keyframes beyond
+  // 100% are invalid CSS and would be dropped.
+  pinAt(totalDurationMs);
   // Anchor a final keyframe at totalDurationMs so animateTransform interpolates
   // through the whole loop.
   if (positions[positions.length - 1].t < totalDurationMs) {
-- 
2.43.0


From 18b89ea7d3d98f98a451d6f55e784039b003f61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:11 +0000
Subject: [PATCH 54/61] fix: the cursor overlay loops on the frames' period

---
 src/animation/cursor-overlay.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/animation/cursor-overlay.ts b/src/animation/cursor-overlay.ts
index 4b90df2..6da678a 100644
--- a/src/animation/cursor-overlay.ts
+++ b/src/animation/cursor-overlay.ts
@@ -378,7 +378,8 @@ export function cursorOverlayMarkup(
   cursorTimeline: CursorTimelineEntry[] | null = null,
 ): string {
   if (positions.length === 0 || totalDurationMs <= 0) return "";
-  const totalSec = totalDurationMs / 1000;
+  // The frames' clock runs on a period of whole hundredths of a second.
+  const totalSec = Number((totalDurationMs / 1000).toFixed(2));
   const uid = overlayUid(`${totalDurationMs}|${positions.map((p) => `${p.x},${p.y},${p.t}`).join(";")}`);
   const kf: string[] = []; // @keyframes collected here, injected into <style>
 
@@ -437,7 +438,7 @@ ${pulseMarkup}
  *  animation only played on the first loop iteration, so the click rings
  *  vanished after the SVG looped even though the cursor kept moving. */
 function buildPulseFragment(c: ResolvedClick, idx: number, uid: string, kf: string[], totalDurationMs: number): string {
-  const totalSec = totalDurationMs / 1000;
+  const totalSec = Number((totalDurationMs / 1000).toFixed(2));
   const durMs = c.style.pulseDurationMs;
   const r0 = 4;
   const r1 = c.style.pulseRadius;
-- 
2.43.0


From 8fce0ad754cacd8bf03dc117974b4c07e0df7cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:11 +0000
Subject: [PATCH 55/61] fix: the automatic pointer reaches its target before it
 clicks

---
 src/cli/animate.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 8f0bb3d..9390427 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -3684,12 +3684,16 @@ export function buildCursorOverlay(
       const tail = Math.min(CURSOR_CLICK_TAIL_MAX_MS, frames[stage].duration * CURSOR_CLICK_TAIL_FRAC);
       const lastHit = holdEnd - tail;
       const span = Math.max(0, lastHit - start);
+      // Each glide starts once the previous click has landed and ends on its own.
+      let free = start;
       targets.forEach((tg, m) => {
         // Single click → land at `lastHit` (just before the transition).
         // Multiple → spread across the hold so the LAST still lands at lastHit.
         const tHit = targets.length === 1 ? lastHit : start + (span * (m + 1)) / targets.length;
-        events.push({ type: "move", t: Math.max(start, tHit - moveDur), duration: moveDur, to: { x: tg.cx, y: tg.cy }, cursor: tg.cursor });
+        const begin = Math.max(free, tHit - moveDur);
+        events.push({ type: "move", t: begin, duration: tHit - begin, to: { x: tg.cx, y: tg.cy }, cursor: tg.cursor });
         events.push({ type: "click", t: tHit });
+        free = tHit;
       });
     }
   } else {
-- 
2.43.0


From 11be7e15b4fb6d7bfa969dfe15d4d8667e1db0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:11 +0000
Subject: [PATCH 56/61] fix: the automatic pointer aims at each target where it
 is when its action runs

---
 src/cli/animate.ts | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 9390427..390267a 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -1585,18 +1585,17 @@ async function buildCapturedFrame(
     await page.evaluate((coords: number[]) => window.scrollTo(coords[0], coords[1]), [sx, sy]);
   }
   // DM-851 §6: for `cursor: "auto"`, record each interaction target's
-  // aim point BEFORE the action runs (that's where the pointer clicks).
+  // aim point right BEFORE that action runs (that's where the pointer clicks;
+  // an earlier action of the frame may have moved or created the target).
   // DM-1742: the action's optional `cursorAt` / `cursorOffset` aim the
   // pointer at a named border-box anchor + px nudge instead of the center.
-  if (cursorAuto && fc.actions != null) {
-    for (const a of fc.actions) {
-      if (a.type === "click" || a.type === "hover" || a.type === "fill") {
-        const c = await queryCursorBox(page, a.selector, a.cursorAt, a.cursorOffset);
-        if (c != null) autoCursorTargets.push({ frame: i, cx: c.cx, cy: c.cy, cursor: c.cursor });
-      }
+  for (const a of fc.actions ?? []) {
+    if (cursorAuto && (a.type === "click" || a.type === "hover" || a.type === "fill")) {
+      const c = await queryCursorBox(page, a.selector, a.cursorAt, a.cursorOffset);
+      if (c != null) autoCursorTargets.push({ frame: i, cx: c.cx, cy: c.cy, cursor: c.cursor });
     }
+    await runActions(page, [a], log);
   }
-  if (fc.actions != null) await runActions(page, fc.actions, log);
   // DM-1516 (docs/94): force real CSS pseudo-state (:hover / :active / :focus)
   // on the listed selectors via CDP BEFORE capture, so this frame paints the
   // page's OWN hover/focus styling. Runs after `actions` (reflects the
-- 
2.43.0


From 96e330b0ac0a484b26ef7e11b017bffba9f6a790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:44 +0000
Subject: [PATCH 57/61] fix: a click in the last moments of the loop still
 shows its ring

---
 src/animation/cursor-overlay.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/animation/cursor-overlay.ts b/src/animation/cursor-overlay.ts
index 6da678a..8eff375 100644
--- a/src/animation/cursor-overlay.ts
+++ b/src/animation/cursor-overlay.ts
@@ -449,8 +449,10 @@ function buildPulseFragment(c: ResolvedClick, idx: number, uid: string, kf: stri
   // Fractions of the full loop where this pulse's window lands. The window's
   // start/peak/end map to the old one-shot's 0% / 15% / 100% keyframes.
   const fStart = c.t / totalDurationMs;
-  const fPeak = Math.min(1, (c.t + 0.15 * durMs) / totalDurationMs);
   const fEnd = Math.min(1, (c.t + durMs) / totalDurationMs);
+  // A window the loop end cuts short still peaks before it, so the ring is seen.
+  const peakAt = (frac: number): number => Math.min((c.t + frac * durMs) / totalDurationMs, (fStart + fEnd) / 2);
+  const fPeak = peakAt(0.15);
   // Hold scale(1)+opacity 0 before the click (only needed when the click is not
   // at t=0) and after the window (reset for the next loop, unless the window
   // already reaches the loop end).
@@ -466,7 +468,7 @@ function buildPulseFragment(c: ResolvedClick, idx: number, uid: string, kf: stri
   if (c.button === "secondary") {
     const halfPath = `M ${num(c.x)} ${num(c.y - innerR)} A ${num(innerR)} ${num(innerR)} 0 0 1 ${num(c.x)} ${num(c.y + innerR)} Z`;
     const halfName = `co-pulse-${uid}-${idx}h`;
-    const fHalfPeak = Math.min(1, (c.t + 0.20 * durMs) / totalDurationMs);
+    const fHalfPeak = peakAt(0.20);
     const leadH = fStart > 0 ? `${pct(fStart)}{opacity:0}` : "";
     const tailH = fEnd < 1 ? `100%{opacity:0}` : "";
     const peakH = fHalfPeak < fEnd ? `${pct(fHalfPeak)}{opacity:1}` : "";
-- 
2.43.0


From b24c54faa1a996dbfceb45e9bfece823b9066666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:38 +0000
Subject: [PATCH 58/61] fix: a selection cleared during its sweep stays cleared

The sweep's remaining stops came after the clear and painted the selection
again, to the end of the loop. A clear now ends its own sweep.
---
 src/animation/caret-track.ts | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/animation/caret-track.ts b/src/animation/caret-track.ts
index 4da8e03..8af158d 100644
--- a/src/animation/caret-track.ts
+++ b/src/animation/caret-track.ts
@@ -537,19 +537,26 @@ function selectionMarkup(sel: ResolvedSelection, si: number, uid: string, kf: st
     const rtl = rect.rtl === true;
     const anchor = vertical ? rect.y : (rtl ? rect.x + rect.width : rect.x);
     const sweptTo = (edge: number): number => (rtl && !vertical ? anchor - edge : edge - anchor);
+    // A clear wins over the rest of its own sweep: what was not swept by then
+    // never appears, and nothing grows back after it.
+    const clearT = sel.clearT ?? Infinity;
+    let heldExtent = fullExtent;
     const stops: string[] = [`0%{${prop}:0.01px}`];
-    if (startMs > 0) stops.push(`${pct(startMs, totalDurationMs)}{${prop}:0.01px}`);
+    if (startMs >= clearT) heldExtent = 0.01;
+    else if (startMs > 0) stops.push(`${pct(startMs, totalDurationMs)}{${prop}:0.01px}`);
     if (sel.sweepMs > 0 && rect.edges.length > 0) {
       if (discrete) {
         for (let k = 0; k < rect.edges.length; k++) {
           const t = sel.t + (sweptBefore + k + 1) * perCharMs;
+          if (t >= clearT) break;
           stops.push(`${pct(t, totalDurationMs)}{${prop}:${num(sweptTo(rect.edges[k]))}px}`);
         }
       } else {
         const endMs = sel.t + (sweptBefore + rect.edges.length) * perCharMs;
-        stops.push(`${pct(endMs, totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
+        if (endMs < clearT) stops.push(`${pct(endMs, totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
+        else if (startMs < clearT) heldExtent = fullExtent * ((clearT - startMs) / (endMs - startMs));
       }
-    } else {
+    } else if (startMs < clearT) {
       stops.push(`${pct(startMs, totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
     }
     // Discrete sweeps (and instant selections) step per stop; the coarse
@@ -558,7 +565,7 @@ function selectionMarkup(sel: ResolvedSelection, si: number, uid: string, kf: st
     // before the clear time (duplicate adjacent values hold under linear).
     const timing = discrete || sel.sweepMs === 0 ? "step-end" : "linear";
     if (sel.clearT != null) {
-      if (timing === "linear") stops.push(`${pct(Math.max(sel.t, sel.clearT - 1), totalDurationMs)}{${prop}:${num(fullExtent)}px}`);
+      if (timing === "linear") stops.push(`${pct(Math.max(startMs, sel.clearT - 1), totalDurationMs)}{${prop}:${num(heldExtent)}px}`);
       stops.push(`${pct(sel.clearT, totalDurationMs)}{${prop}:0.01px}`);
       stops.push(`100%{${prop}:0.01px}`);
     } else {
-- 
2.43.0


From 0ec2f24bbc1c22055fc0b43d31337863ba91b2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:38 +0000
Subject: [PATCH 59/61] fix: every selection of a text track ends at its
 frame's cut

One clear was added when any selection was active at the end, and a clear ends
one selection, so of two overlapping selections the first stayed over all later
frames.
---
 src/cli/animate.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 390267a..2cde2e5 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -2470,7 +2470,7 @@ export function configTextTrackSpec(tt: TextTrackInput, frameIdx: number, trackI
   // the track would hold at end-of-frame; synthesize only what's still "on".
   if (tt.persist !== true) {
     let caretVisible = false;
-    let selectionActive = false;
+    let activeSelections = 0;
     for (const ev of [...tt.events].sort((a, b) => a.at - b.at)) {
       switch (ev.type) {
         case "park":
@@ -2481,15 +2481,16 @@ export function configTextTrackSpec(tt: TextTrackInput, frameIdx: number, trackI
           caretVisible = false;
           break;
         case "select":
-          selectionActive = true;
+          activeSelections++;
           break;
         case "clearSelection":
-          selectionActive = false;
+          activeSelections = Math.max(0, activeSelections - 1);
           break;
       }
     }
     const endT = frameStartMs + frameDurationMs;
-    if (selectionActive) events.push({ type: "clearSelection", t: endT });
+    // Each clear ends one selection, so every one still active needs its own.
+    for (; activeSelections > 0; activeSelections--) events.push({ type: "clearSelection", t: endT });
     if (caretVisible) events.push({ type: "hide", t: endT });
   }
   return {
-- 
2.43.0


From e3b5fa47fae63ff98c01ec4815c79468252d2731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:18 +0000
Subject: [PATCH 60/61] fix: text tracks that address one element all reach it

Each track and each retargeted event stamped its target, and an element holds
one stamp, so the last one took the element from the others: their caret and
selections silently vanished, as did a sole match's animation. A stamp of the
same frame is now shared.
---
 src/cli/animate.ts | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index 2cde2e5..b6d1ca2 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -52,6 +52,7 @@ import {
   type CursorStyle,
   type CompressedRunState,
   type ResolvedTextTrack,
+  type TextAddressTarget,
   type TextTrackSpec,
   type TextTrackSpecEvent,
 } from "../animation/index.js";
@@ -1653,20 +1654,26 @@ async function buildCapturedFrame(
   // the animId the text-address resolver looks up. One target element per
   // track (first match); a selector matching nothing is a hard error naming
   // the frame + config path.
+  const trackAnimIds = new Map<string, string>();
   if (fc.textTracks != null && fc.textTracks.length > 0) {
     const stamp = async (selector: string, animId: string, label: string): Promise<void> => {
-      const matched = await page.evaluate(
-        (args: { selector: string; animId: string }) => {
+      const stamped = await page.evaluate(
+        (args: { selector: string; animId: string; own: string[] }) => {
           const el = document.querySelector(args.selector);
-          if (el instanceof HTMLElement) {
-            el.dataset.domotionAnim = args.animId;
-            return true;
-          }
-          return false;
+          if (!(el instanceof HTMLElement)) return null;
+          // An element holds one stamp: when this frame already gave it one of
+          // its own (another track or event on the same element, an animation),
+          // share that instead of taking it away from its first user.
+          const prior = el.dataset.domotionAnim;
+          if (prior != null && args.own.some((p) => prior.startsWith(p))
+            && document.querySelectorAll(`[data-domotion-anim="${prior}"]`).length === 1) return prior;
+          el.dataset.domotionAnim = args.animId;
+          return args.animId;
         },
-        { selector, animId },
+        { selector, animId, own: [`f${i}a`, `f${i}tt`] },
       );
-      if (!matched) throw new Error(`animate: ${label} selector "${selector}" matched no element in frame ${i}`);
+      if (stamped == null) throw new Error(`animate: ${label} selector "${selector}" matched no element in frame ${i}`);
+      trackAnimIds.set(animId, stamped);
     };
     for (let k = 0; k < fc.textTracks.length; k++) {
       const tt = fc.textTracks[k];
@@ -1828,7 +1835,13 @@ async function buildCapturedFrame(
     // `AnimationConfig.textTracks`.
     if (fc.textTracks != null && fc.textTracks.length > 0) {
       for (let k = 0; k < fc.textTracks.length; k++) {
-        ctx.textTracks.push(resolveTextTrack(tree, configTextTrackSpec(fc.textTracks[k], i, k, frameStartMs, fc.duration)));
+        const spec = configTextTrackSpec(fc.textTracks[k], i, k, frameStartMs, fc.duration);
+        const stamped = (t: TextAddressTarget): TextAddressTarget => (t.animId == null ? t : { ...t, animId: trackAnimIds.get(t.animId) ?? t.animId });
+        ctx.textTracks.push(resolveTextTrack(tree, {
+          ...spec,
+          target: stamped(spec.target),
+          events: spec.events.map((ev) => ("target" in ev && ev.target != null ? { ...ev, target: stamped(ev.target) } : ev)),
+        }));
       }
     }
   }
-- 
2.43.0


From 0b9c26eb33d6bc7d8ef2f0f22ff2021fd7b6c7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:24 +0000
Subject: [PATCH 61/61] fix: a caret shown and hidden at one instant still ends
 at its frame's cut

The track shows it (a move wins over a hide at the same time), while the scan
for the automatic end took the list order and left it on over all later frames.
---
 src/cli/animate.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cli/animate.ts b/src/cli/animate.ts
index b6d1ca2..795e527 100644
--- a/src/cli/animate.ts
+++ b/src/cli/animate.ts
@@ -2484,7 +2484,9 @@ export function configTextTrackSpec(tt: TextTrackInput, frameIdx: number, trackI
   if (tt.persist !== true) {
     let caretVisible = false;
     let activeSelections = 0;
-    for (const ev of [...tt.events].sort((a, b) => a.at - b.at)) {
+    // At one instant a park/move wins over a hide, as it does on the track.
+    const rank = (ev: (typeof tt.events)[number]): number => (ev.type === "hide" ? 0 : 1);
+    for (const ev of [...tt.events].sort((a, b) => a.at - b.at || rank(a) - rank(b))) {
       switch (ev.type) {
         case "park":
         case "move":
-- 
2.43.0


// Single source of properties.jsonl and MANIFEST.json (node tools/gen.mjs).
export const TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences";
export const props = [];
const P = (o) => props.push(o);

P({
  id: "P01", title: "Remote images are embedded exactly or reported, within bounded time",
  statement: "When a captured page's remote images are embedded, every remote image reference ends either as a data URI holding exactly the bytes a server sent whole (with the served or extension-derived type), or unchanged together with exactly one remote-image warning naming that URL. Transient failures (server errors, lost or stalled connections, timeouts) are retried up to the configured number of retries and client errors (4xx) are not; an image already embedded is not fetched again. The pass always completes, within the configured per-attempt timeout times the number of attempts plus the back-off, whatever the servers do, and once the network recovers another pass embeds everything.",
  quantifier: { over: ["schedules", "fault_sequences", "histories", "inputs"], text: "every tree of image references, every sequence of per-attempt network outcomes (success, 4xx, 5xx, reset, stall before headers, stall or cut mid-body, slow), every interleaving of concurrent fetches and overlapping passes, every option setting" },
  why_tests_cant: "The tests sample a handful of single-outcome fetch mocks; outcomes combine per attempt, per URL and across overlapping passes sharing one cache, and time bounds need a controlled clock.",
  anchors: { files: ["src/capture/embed.ts", "src/capture/warnings.ts"], mechanism: [{ name: "fetch with timeout, retry and back-off", where: "src/capture/embed.ts" }, { name: "data-URI cache keyed by URL", where: "src/capture/embed.ts" }, { name: "capture warnings", where: "src/capture/warnings.ts" }], observe_at: ["embedded data URI of each URL", "warnings", "network attempts", "time to completion"], hook_needed: null },
  note: "Real embedding code over a simulated network and clock.",
});
P({
  id: "P02", title: "Every font answer is the platform helper's answer to that very question",
  statement: "Every font query (glyph outlines, shaping, per-character fallback, family and style matching, traits) returns what the platform's font helper answers to exactly that query, or the query's no-answer value when the helper failed to answer it, however the persistent helper crashes, stalls, answers late, or splits its bytes. A helper failure never raises an error out of a resolver, never ends the process, never leaves a stale or partial answer for a later query, and never blocks a call beyond its time limits. At most one persistent helper runs per process; after a crash it is replaced, and it ends with the process.",
  quantifier: { over: ["schedules", "fault_sequences", "histories", "crash_points", "inputs"], text: "every sequence of queries on every platform transport (file descriptors, named pipe), every point at which the persistent or one-shot helper crashes, stalls, answers late or partially or cannot be started, every split of its bytes, every timing of its exit events against the next query" },
  why_tests_cant: "Tests run a healthy helper or none; the channel's failure handling depends on when bytes, crashes and exit events arrive relative to later queries sharing the channel and its memo tables.",
  anchors: { files: ["src/render/glyph-helper.ts"], mechanism: [{ name: "persistent helper channel with crash retry and one-shot fallback", where: "src/render/glyph-helper.ts" }, { name: "memo tables keyed by query", where: "src/render/glyph-helper.ts" }, { name: "fontconfig fallback renderer scopes", where: "src/render/glyph-helper.ts" }], observe_at: ["values returned by the resolvers", "helper processes", "time per call", "uncaught errors"], hook_needed: null },
  note: "Real resolver module over simulated descriptors, named pipe, processes and clock; the helper is a stand-in whose answer is a fixed function of the query.",
});
P({
  id: "P03", title: "Font helper and ICU companion installs are whole, verified and recoverable",
  statement: "At every instant, wherever processes crash, power is lost, disks or downloads fail and however many processes install at once, an installed glyph helper is exactly the published binary whose checksum was verified, executable, and an installed ICU companion is likewise whole and never present without its matching data and runtime files. Acquiring returns the helper whenever it is installed, never throws, blocks a synchronous caller at most its time limit (30 s for the helper, 60 s for the companion), and makes at most one failing attempt with at most one warning per process. No temporary files are left unless a process was killed, and once faults stop a new process installs and finds the helper.",
  quantifier: { over: ["schedules", "fault_sequences", "crash_points", "histories"], text: "every interleaving of concurrent acquiring processes and their download workers, every kill or power-loss point, every network outcome (refused, error status, stall, cut, short, corrupt), every failing file operation, every synchronous and asynchronous entry" },
  why_tests_cant: "Tests mock one download; torn installs need crashes between file operations, concurrent processes sharing one cache directory, and a disk that forgets unflushed writes.",
  anchors: { files: ["src/render/helper-acquire.ts", "src/render/icu-helper-acquire.ts"], mechanism: [{ name: "download, verify, temp file, atomic rename", where: "src/render/helper-acquire.ts" }, { name: "data-before-executable install order", where: "src/render/icu-helper-acquire.ts" }, { name: "once-per-process failure latch and warning", where: "src/render/helper-acquire.ts" }], observe_at: ["files under the cache directory at every instant", "returned path", "time blocked", "warnings", "download attempts"], hook_needed: null },
  note: "Real acquisition modules and their real worker entry points, each simulated process on its own call stack, over a simulated disk with a volatile cache, network and clock.",
});
P({
  id: "P04", title: "Video export: every frame exact, outcome honest, nothing left behind",
  statement: "Exporting an animated SVG to video hands the encoder exactly round(duration x fps) frames, at least one, in order, frame i painted with every animation and the SVG clock paused at the centre of its display interval and with the requested transparency and scale, the duration being the explicit one or else the longest finite animation or the common loop period; kept frame files hold the same frames. Success is reported only after the encoder finished successfully with the complete frame stream; if the browser, the encoder, its pipe or the file system fails at any point, the export reports an error instead of crashing the process or hanging. Afterwards, on success and on failure, neither the browser nor the encoder is left running.",
  quantifier: { over: ["schedules", "fault_sequences", "crash_points", "inputs"], text: "every set of animations, frame rate, duration, format; every timing of paints against seeks and screenshots; every point at which the page, browser, encoder, pipe or file system fails; every amount of encoder back-pressure and progress output" },
  why_tests_cant: "Unit tests cover the pure helpers without a browser or encoder; the frame loop, pipe back-pressure, encoder death and clean-up paths are never executed under failure.",
  anchors: { files: ["src/cli/svg-to-video-core.ts"], mechanism: [{ name: "pause-and-seek sampling with paint settle", where: "src/cli/svg-to-video-core.ts" }, { name: "encoder spawn, frame pipe and completion", where: "src/cli/svg-to-video-core.ts" }, { name: "duration resolution", where: "src/cli/svg-to-video-core.ts" }], observe_at: ["bytes on the encoder's stdin", "kept frame files", "returned outcome", "live browsers and encoder processes"], hook_needed: null },
  note: "Real export loop and page-side functions over a compositor model, an encoder stand-in with pipes, an in-memory file system.",
});
P({
  id: "P05", title: "Scrubber server: every answer is its own request's, and it always recovers",
  statement: "Every request to the svg-scrubber server is answered once, with the result of that request and no other: an exported frame shows exactly the submitted SVG with all its clocks paused at the requested time at the requested size and crop, an exported range is the encoder's complete output for frames at t0 + i/30 s, the timing is the submitted SVG's, malformed requests get a 4xx. Whatever clients overlap or disconnect and wherever the browser, page, context, encoder or disk fails, the server process survives, the failing request gets an error, and once faults stop requests succeed again after at most two failures. An acknowledged review ticket and its frame snapshot are on disk, whole, and never overwritten, and after close() no browser, encoder or temporary directory is left.",
  quantifier: { over: ["schedules", "fault_sequences", "histories", "crash_points", "inputs"], text: "every interleaving of requests from several clients, every point at which browser, page, context, encoder, disk or client fails, clock steps, and shutdown with work outstanding" },
  why_tests_cant: "The tests send single requests to a healthy server; overlapping requests sharing one page, and failures at each step of each request, need controlled scheduling and fault injection.",
  anchors: { files: ["src/scrubber/server.ts", "src/utils/local-server.ts", "src/cli/svg-to-video-core.ts", "src/scrubber/crop.ts"], mechanism: [{ name: "serialised Chromium queue with page and browser rebuild", where: "src/scrubber/server.ts" }, { name: "range-video encoder lifecycle", where: "src/scrubber/server.ts" }, { name: "ticket file naming and writing", where: "src/scrubber/server.ts" }, { name: "listen and close", where: "src/utils/local-server.ts" }], observe_at: ["HTTP responses", "ticket files", "live browsers and encoders", "temporary directories", "uncaught errors"], hook_needed: null },
  note: "Real server and page-side functions over simulated HTTP connections, browser, encoder, disk and clock.",
});
P({
  id: "P07", title: "Scroll capture follows its pattern, ends in time, and plays back as captured",
  statement: "A scroll pattern (deltas, anchors, selectors, speeds, durations, easings, pauses, groups, loops by count or position in either direction) becomes captures at exactly the positions the pattern leads to, each compared with the one before it and each showing the content of its stated position, on one contiguous timeline whose durations, pauses and easings are the pattern's; a loop ends exactly at its target or once it makes no progress. The walk ends within the time budget plus at most the step in progress, whatever the page does (lazy growth, endless feeds, smooth scrolling, slowness), and reports an error if the page closes or a selector matches nothing. The composed SVG plays for the total of scrolls and pauses, is at the prescribed position at every time, rests during pauses, never shows a blank view between captures, and shows a fixed element once and a stuck sticky element where it sticks.",
  quantifier: { over: ["inputs", "histories", "schedules", "fault_sequences"], text: "every pattern, every page (size, axis, inner scroller, fixed and sticky elements), every growth or shrinkage of the page in reaction to scrolling or time, every latency of evaluation and capture, a page that closes at any step" },
  why_tests_cant: "Tests run a few fixed patterns against pages that stand still and check fragments of the markup; nothing plays the result back over time or walks a page that changes under the pattern.",
  anchors: { files: ["src/scroll/executor.ts", "src/scroll/pattern.ts", "src/scroll/composer.ts", "src/scroll/hoist-fixed.ts", "src/scroll/hoist-sticky.ts"], mechanism: [{ name: "pattern walk with until loops and time budget", where: "src/scroll/executor.ts" }, { name: "pattern grammar", where: "src/scroll/pattern.ts" }, { name: "keyframes and segment visibility", where: "src/scroll/composer.ts" }, { name: "fixed and sticky hoisting", where: "src/scroll/hoist-fixed.ts, src/scroll/hoist-sticky.ts" }], observe_at: ["captured segments", "elapsed simulated time", "the composed SVG on a CSS animation clock"], hook_needed: null },
  note: "Real walk, page-side functions and composer over a simulated page and clock; the SVG is played back on a CSS animation clock; DOM capture and tree rendering are stand-ins.",
});
P({
  id: "P11", title: "Terminal sessions play back as the terminal showed them, recorded or live",
  statement: "For every terminal session, each screen that stood while output paused is shown by the SVG for that pause (clamped to the frame limits, equal consecutive screens merged, a final hold), in both composition modes and in every loop: the same characters in the same cells and colours, nothing else, whatever scrolling, overwriting, erasing, alternate screens, wide characters or resizes led to it. How the output was cut into chunks, foreign events, a recording torn off mid-write and earlier conversions in the process change nothing, and a failing page makes the conversion fail with its browser context closed. The caret shows exactly on input lines while the program shows its cursor, on the recorded cell; a live session records all output and resizes at their times, passes keystrokes through intact and leaves the operator's terminal as it was.",
  quantifier: { over: ["inputs", "schedules", "fault_sequences", "histories", "crash_points"], text: "every byte stream and resize history, every way of cutting output and keystrokes into reads, every tear point of the recording, every page operation that fails, every sequence of conversions in one process, every time in the animation" },
  why_tests_cant: "Tests feed a few short casts and compare fragments; none plays the animation back against a terminal, splits sequences across reads, or fails in the middle.",
  anchors: { files: ["src/terminal/emulator.ts", "src/terminal/render.ts", "src/terminal/incremental.ts", "src/terminal/index.ts", "src/terminal/cast.ts", "src/terminal/pty.ts"], mechanism: [{ name: "settle-point frames", where: "src/terminal/render.ts" }, { name: "line pool with scroll detection and caret", where: "src/terminal/incremental.ts" }, { name: "screen emulation", where: "src/terminal/emulator.ts" }, { name: "live recording", where: "src/terminal/pty.ts" }], observe_at: ["glyphs on screen at sampled times", "the recording", "bytes reaching the program", "open browser contexts"], hook_needed: null },
  note: "Real parser, emulator, frame builder, composers, text renderer, animator and recorder; the page layout, pty and operator terminal are stand-ins; the oracle is a second terminal fed the uncut stream.",
});
P({
  id: "P12", title: "An authored animation plays back exactly the frames its config describes",
  statement: "For every valid animate config, each frame, whether a page visit, a continuation of the page session, a run of page states, a terminal recording, a template or a scroll, shows throughout its own hold, in every loop, exactly the text its page session had reached at that point, at its places and in its colours, and nothing of any other frame; during a transition only the two neighbouring frames show and the view does not go blank. Automatic collapsing of frames into runs, sharing of fonts and shapes, embedding and name isolation change nothing of what plays, whatever texts and names the pages contain and whatever was composed earlier in the process. A page, navigation, selector, template or recording that fails rejects the composition with every page context and temporary directory released, and later compositions are unaffected.",
  quantifier: { over: ["inputs", "histories", "schedules", "fault_sequences"], text: "every sequence of frames of every kind, transition, duration and action, every page reaction that arrives late, every operation that fails, every sequence of compositions in one process, every time in the animation" },
  why_tests_cant: "Tests check fragments of the markup of single features; no test plays a composed animation back against the session it records, and the kinds of frame, transition and embedding interact pairwise and over many loops.",
  anchors: { files: ["src/cli/animate.ts", "src/animation/animator.ts", "src/animation/compressed-run.ts", "src/animation/embed-timeline.ts", "src/animation/embed-namespace.ts", "src/animation/magic-move.ts", "src/templates/render.ts"], mechanism: [{ name: "frame loop and page session", where: "src/cli/animate.ts" }, { name: "frame and transition tracks", where: "src/animation/animator.ts" }, { name: "compressed runs", where: "src/animation/compressed-run.ts" }, { name: "embedded timelines and names", where: "src/animation/embed-timeline.ts, src/animation/embed-namespace.ts" }], observe_at: ["glyphs on screen at sampled times", "rejections", "open browser contexts", "temporary directories"], hook_needed: null },
  note: "Real validation, frame loop, compressed runs, animator, terminal, scroll and text rendering; the SVG is played back on a CSS animation clock; pages, DOM capture and the template registry are stand-ins.",
});
P({
  id: "P13", title: "Composites and storyboards play every layer and scene as it plays by itself",
  statement: "In every composite, each layer (an SVG file, a terminal recording, a template or an earlier composition, optionally framed) shows at every moment exactly what its source shows by itself at that point of its own timeline, at its place, size, clip, opacity and offset: held at its first state before its start and at its last state after its end, stretched to its given duration, or looped at its own pace, with all its entrance animations playing; in every storyboard each scene shows its source or page from its beginning throughout its hold, and nothing of another scene shows with it. Sharing and renaming of ids, classes, keyframes, custom properties and fonts, minified or optimised sources, optimising the result and composing compositions again change nothing of what plays, in any loop. A failing source, recording or page rejects the composition with its browser contexts closed and temporary directories removed, and later compositions are unaffected.",
  quantifier: { over: ["inputs", "histories", "schedules", "fault_sequences"], text: "every combination of sources, starts, pacing modes, placements and layer animations, every order in which compositions are nested and optimised, every operation that fails, every time in the animation" },
  why_tests_cant: "Tests look for fragments of markup; whether several independent timelines still play as they did alone after renaming, retiming and optimisation only shows when the result is played back next to its sources.",
  anchors: { files: ["src/cli/composite.ts", "src/cli/storyboard.ts", "src/animation/composite.ts", "src/animation/embed-timeline.ts", "src/animation/embed-namespace.ts", "src/post-processing/optimize.ts"], mechanism: [{ name: "layer and scene resolution", where: "src/cli/composite.ts, src/cli/storyboard.ts" }, { name: "layer tracks", where: "src/animation/composite.ts" }, { name: "timeline retiming", where: "src/animation/embed-timeline.ts" }, { name: "name isolation", where: "src/animation/embed-namespace.ts" }], observe_at: ["glyphs on screen at sampled times, in the composition and in each source by itself", "rejections", "open browser contexts", "temporary directories"], hook_needed: null },
  note: "Real composite and storyboard composers, retiming, namespacing and optimiser; compositions and sources are played back on the same CSS animation clock and compared; pages and DOM capture are stand-ins.",
});
P({
  id: "P14", title: "The pointer and its clicks play back as scripted",
  statement: "With a pointer overlay, at every moment of every loop the animation shows exactly one pointer, where its script has it (at rest between moves, on a straight line at constant speed during a move, at once at the target of an instant one, stopping where it is when another event interrupts it), nothing while it is hidden, with the forced glyph or else the glyph of the topmost element under it in the frame on screen; every click rings where the pointer is at its moment, in its own style, marked when it is a secondary click, and is gone after its duration; no ring appears otherwise. With pointer events in an animate config, selectors mean the element's place in the addressed frame. With the automatic pointer every click, hover and fill of the session is shown, in order, where its target was when the action ran, on the picture before its result, the pointer having arrived there first with the target's cursor.",
  quantifier: { over: ["inputs", "histories", "schedules"], text: "every event script (moves that overlap, coincide or outlast the loop, clicks on the way, events out of order), every frame timing and transition, every page session and action sequence that moves, creates or removes the targets, every time in every loop" },
  why_tests_cant: "Tests look for a few keyframes of short scripts; whether the pointer is where the script has it at every moment, and still with the frames hundreds of loops later, only shows when the keyframes are played on the animation clock.",
  anchors: { files: ["src/animation/cursor-overlay.ts", "src/animation/cursor-glyphs.ts", "src/animation/animator.ts", "src/cli/animate.ts", "src/capture/content-box.ts", "src/render/paint-order.ts"], mechanism: [{ name: "script resolution and keyframes", where: "src/animation/cursor-overlay.ts (resolveCursorScript, cursorOverlayMarkup)" }, { name: "staging of recorded interactions", where: "src/cli/animate.ts (buildCursorOverlay, queryCursorBox)" }], observe_at: ["shapes of the overlay on screen at sampled times: pointer glyph and place, rings"], hook_needed: null },
  note: "Real script resolution, markup, animator, animate composer and hit testing; a simulated page session supplies the targets; the composed SVG is played on the CSS animation clock and compared with a model of the script.",
});
P({
  id: "P18", title: "Carets and selections play back as scripted",
  statement: "With caret and selection tracks on captured text, at every moment of every loop each track shows exactly one caret, blinking at its own pace, at the place of the character its last placing event addresses (its leading edge, the trailing edge of the text after the last character, mirrored in right-to-left text, over wrapped lines and child elements, counted in characters), in its shape, size and colour, and none before the first placing event or while hidden; an inverted block caret repaints the character it covers. Each selection highlights exactly the characters of its range swept so far, in its colour, until it is cleared, and nothing else is ever highlighted; tracks do not affect one another; an event that addresses nothing is left out without disturbing the rest. In an animate config, selectors and offsets address the text of the track's own frame as it is captured, several tracks and events may address one element, and every caret and selection ends at its frame's cut unless the track persists.",
  quantifier: { over: ["inputs", "histories", "schedules"], text: "every event script (events at one instant, clears during a sweep, overlapping selections, sweeps past the cut, offsets past the end, events out of order), every text (wrapped, in spans, right-to-left, outside the BMP, long), every frame timing, transition and page session, every time in every loop" },
  why_tests_cant: "Tests look for a few keyframes of short tracks; whether what the keyframes add up to is what the script asks for at every moment, in later frames and later loops only shows when they are played on the animation clock.",
  anchors: { files: ["src/animation/caret-track.ts", "src/animation/text-address.ts", "src/animation/caret-metrics.ts", "src/animation/animator.ts", "src/cli/animate.ts"], mechanism: [{ name: "event resolution and keyframes", where: "src/animation/caret-track.ts (resolveTextTrack, textTrackMarkup)" }, { name: "addresses in captured text", where: "src/animation/text-address.ts" }, { name: "stamping and automatic end", where: "src/cli/animate.ts (buildCapturedFrame, configTextTrackSpec)" }], observe_at: ["shapes on screen at sampled times: carets, highlights, repainted characters"], hook_needed: null },
  note: "Real event resolution, text addressing, markup, animator and animate composer; a simulated page session supplies the text; the composed SVG is played on the CSS animation clock and compared with a model of the script.",
});
P({
  id: "P16", title: "A command leaves its whole output where asked, or fails and says why",
  statement: "A domotion command (capture, animate, composite, storyboard, term, template) or svg-to-image exits 0 exactly when its whole output has been written where it was told (-o, the config's output, the documented default, standard output; gzip for .svgz where supported), and the document is the same whatever the destination and however slow disk and browser are; otherwise it exits non-zero with a message on standard error. It writes no other file, never replaces its own input with its default output, and a failure before the write leaves an earlier output untouched. Whether it succeeds or fails, every browser it launched is closed and no temporary directory it made is left.",
  quantifier: { over: ["inputs", "fault_sequences", "schedules", "crash_points"], text: "every command, option set, source and destination, every browser operation or file operation that fails (missing browser, page crash, unreadable input, unwritable output, full disk, no temporary directory), every latency" },
  why_tests_cant: "Tests run a few commands to completion on a healthy machine; which resources are released and what is left on disk depends on the operation at which a run fails.",
  anchors: { files: ["src/cli/index.ts", "src/cli/capture.ts", "src/cli/animate.ts", "src/cli/composite.ts", "src/cli/storyboard.ts", "src/cli/term.ts", "src/cli/template.ts", "src/cli/common.ts", "src/cli/svg-to-image.ts", "src/cli/svg-to-image-core.ts", "src/templates/render.ts"], mechanism: [{ name: "output path resolution and writing", where: "src/cli/common.ts" }, { name: "browser and temporary directory lifetime", where: "src/templates/render.ts" }], observe_at: ["exit code", "standard output and error", "file tree", "live browsers"], hook_needed: null },
  note: "Real commands from argv to exit code over a simulated disk, streams and browser.",
});

P({
  id: "P17", title: "ICU companion queries return the companion's own rows, whatever was asked before",
  statement: "A row returned for a code point is always the row the ICU companion gives for that code point, and while the companion works every valid code point asked for has its row, whatever was asked before, in whatever order the companion lists its rows, however large the query and however full the memo. A failing companion call never throws and affects only code points that were not answered before; a companion that fails its availability check is asked that once per process. One query starts the companion at most once, not at all when every row is known, and never waits longer than 10 seconds for it.",
  quantifier: { over: ["fault_sequences", "histories", "inputs"], text: "every history of queries in one process (few or many code points, repeated, invalid, enough to overflow the memo), every sequence of companion outcomes (start failure, error exit, kill, hang, truncated or foreign-version answer)" },
  why_tests_cant: "Tests ask a companion a few questions; the memo, page prefetch and eviction interact over long histories and with failures in between.",
  anchors: { files: ["src/render/icu-helper.ts"], mechanism: [{ name: "page prefetch and row memo with eviction", where: "src/render/icu-helper.ts" }, { name: "availability check", where: "src/render/icu-helper.ts" }], observe_at: ["returned rows", "companion launches", "time per query"], hook_needed: null },
  note: "Real query module over a simulated companion program, process spawn and clock.",
});

P({
  id: "P09", title: "Frames of a live page wait for it, drive it and show what it really did",
  statement: "A frame captured from a live page is captured only after every readiness condition it declares (waitFor, waitForText, waitForGone, waitForCount, wait) has come true, its actions and forced states are performed on the page in order, each once, and what it plays back is one state the page really was in then: nothing of a later frame's steps, of an earlier frame's animation, or of two moments mixed. A jsReveal shows the page before the event and then after its reaction settled (or settleMs ran out), typeResample shows it after each keystroke with the caret at the text's end, hoverReveal / hoverDetect show it at rest and then with the state forced, for as long as configured. A condition that never comes true or a selector that matches nothing is an error that names it, never a wrong frame or an endless wait, and the browser context is closed either way.",
  quantifier: { over: ["schedules", "inputs", "histories", "fault_sequences"], text: "every page that changes by itself on timers and in reaction to events, keystrokes and forced states, every sequence of frames over it, every interleaving of the page's timers with the capturing operations, and a page crash at any operation" },
  why_tests_cant: "Unit tests mock one page call; whether a frame was taken too early or mixes two moments depends on when the page's own timers fire between the operations that wait, act and capture.",
  anchors: { files: ["src/cli/animate.ts", "src/cli/common.ts", "src/cli/mutation-detect.ts", "src/cli/type-resample.ts", "src/cli/hover-detect.ts"], mechanism: [{ name: "readiness waits", where: "src/cli/common.ts" }, { name: "frame loop, actions, forced states, hover expansion", where: "src/cli/animate.ts" }, { name: "event dispatch and settling", where: "src/cli/mutation-detect.ts" }, { name: "per-keystroke capture", where: "src/cli/type-resample.ts" }], observe_at: ["the SVG, played back at any time", "the page's own record of steps and states", "browser contexts"], hook_needed: null },
  note: "Real frame loop, readiness waits, actions, reveal detection, typing and hover synthesis and renderer; the browser is a model of live pages (timers, events, observers, forced states), whose DOM capture is a stand-in.",
});

export const notApplicable = [
  {
    id: "N01", title: "A captured page looks pixel for pixel like the page in Chromium",
    statement: "Whatever page is captured, the SVG of its element tree paints the same pixels as Chromium painted for that page.",
    quantifier: { over: ["inputs"], text: "every page" },
    why_tests_cant: "Visual fidelity is sampled by a regression suite of example pages.",
    anchors: { files: ["src/capture/script/index.ts", "src/render/element-tree-to-svg.ts"], mechanism: [{ name: "DOM capture script and painter", where: "src/render/element-tree-to-svg.ts" }], observe_at: ["rendered pixels"], hook_needed: null },
    reason: "A pure function of the page's layout and paint with no schedule, time, I/O or failure in it; the reference is Chromium's own painting, which is not in this sandbox, so simulation has neither nondeterminism to control nor an oracle.",
  },
  {
    id: "N02", title: "Text is outlined with the glyphs, advances and shaping Chromium used",
    statement: "For every text run, font and script the emitted glyph outlines and positions are the ones Chromium's shaper chose.",
    quantifier: { over: ["inputs"], text: "every text run, font and script" },
    why_tests_cant: "Shaping tables span scripts and fonts far beyond any sample.",
    anchors: { files: ["src/render/text-to-path.ts", "src/render/font-resolution.ts"], mechanism: [{ name: "shaping and outline extraction", where: "src/render/text-to-path.ts" }], observe_at: ["glyph outlines and positions"], hook_needed: null },
    reason: "Deterministic table lookup and geometry over fonts, with no concurrency, time or fault for a simulator to vary; the parts that do depend on history and failures (font registration per run, subset sharing, the ICU and HarfBuzz helpers) are P02, P03 and P17.",
  },
];

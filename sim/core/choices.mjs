// Every nondeterministic decision of a run — workload, schedule, delay, fault —
// is drawn through one Choices object.  A seed determines the whole sequence;
// a recorded sequence (a replay file) determines it again without the seed.
// Convention: value 0 is always the plainest outcome (first runnable event, no
// fault, shortest delay, smallest workload), so minimisation drives values to 0.

export function mix32(a) {
  a |= 0; a = (a + 0x9e3779b9) | 0;
  let t = a ^ (a >>> 16); t = Math.imul(t, 0x21f0aaad);
  t ^= t >>> 15; t = Math.imul(t, 0x735a2d97);
  return (t ^ (t >>> 15)) >>> 0;
}

export class Rng {
  constructor(seed) {
    this.a = mix32(seed >>> 0); this.b = mix32(this.a ^ 0xdeadbeef);
    this.c = mix32(this.b ^ 0x51ed270b); this.d = 1;
    for (let i = 0; i < 12; i++) this.u32();
  }
  u32() { // sfc32
    const t = (((this.a + this.b) | 0) + this.d) | 0;
    this.d = (this.d + 1) | 0;
    this.a = this.b ^ (this.b >>> 9);
    this.b = (this.c + (this.c << 3)) | 0;
    this.c = (this.c << 21) | (this.c >>> 11);
    this.c = (this.c + t) | 0;
    return t >>> 0;
  }
  float() { return this.u32() / 4294967296; }
}

export class ChoiceLimit extends Error {}

export class Choices {
  /** @param {{seed?: number, replay?: number[], limit?: number}} o */
  constructor(o) {
    this.rng = o.replay == null ? new Rng(o.seed) : null;
    this.replay = o.replay ?? null;
    this.vals = [];
    this.labels = o.labels === true ? [] : null;
    this.limit = o.limit ?? 400000;
  }
  _push(v, label) {
    if (this.vals.length >= this.limit) throw new ChoiceLimit(`more than ${this.limit} choices`);
    this.vals.push(v);
    if (this.labels != null) this.labels.push(label);
    return v;
  }
  /** Uniform integer in [0, n). */
  below(n, label = "below") {
    if (!(n > 1)) return 0;
    let v;
    if (this.replay != null) {
      v = this.vals.length < this.replay.length ? this.replay[this.vals.length] : 0;
      if (!(v >= 0)) v = 0;
      if (v >= n) v = v % n;
    } else v = Math.floor(this.rng.float() * n);
    return this._push(v, label);
  }
  /** True with probability p; recorded as 1 (true) / 0 (false). */
  chance(p, label = "chance") {
    let v;
    if (this.replay != null) v = this.vals.length < this.replay.length && this.replay[this.vals.length] > 0 ? 1 : 0;
    else v = this.rng.float() < p ? 1 : 0;
    return this._push(v, label) === 1;
  }
  int(lo, hi, label = "int") { return lo + this.below(hi - lo + 1, label); }
  pick(arr, label = "pick") { return arr[this.below(arr.length, label)]; }
  /** Weighted pick: entries [weight, value]; index 0 is the plainest. */
  weighted(entries, label = "weighted") {
    let tot = 0; for (const e of entries) tot += e[0];
    let v;
    if (this.replay != null) {
      v = this.vals.length < this.replay.length ? this.replay[this.vals.length] : 0;
      if (!(v >= 0)) v = 0;
      v = v % entries.length;
    } else {
      let x = this.rng.float() * tot; v = 0;
      for (; v < entries.length - 1; v++) { if (x < entries[v][0]) break; x -= entries[v][0]; }
    }
    this._push(v, label);
    return entries[v][1];
  }
  shuffle(arr, label = "shuffle") {
    const a = arr.slice();
    for (let i = 0; i < a.length - 1; i++) {
      const j = i + this.below(a.length - i, label);
      const t = a[i]; a[i] = a[j]; a[j] = t;
    }
    return a;
  }
  /** A delay in ms, log-ish distributed in [lo, hi]; 0th bucket is the shortest. */
  delay(lo, hi, label = "delay") {
    const k = this.below(32, label);
    if (k === 0) return lo;
    return lo + (hi - lo) * Math.pow(k / 31, 3);
  }
}

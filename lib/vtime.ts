// Virtual time: owns setTimeout / setInterval / rAF / Date.now / performance.now / Math.random.
// Nothing in the code under test runs "by itself": every deferred callback is fired by an explicit step.
type T = { id: number; at: number; seq: number; fn: (...a: any[]) => void; args: any[]; every?: number };
const g: any = globalThis;
const real = { setTimeout: g.setTimeout, clearTimeout: g.clearTimeout, now: Date.now.bind(Date) };
export const realNow = real.now;
const START = 1_700_000_000_000;
let now = START;
let seq = 1;
let timers: T[] = [];
const add = (fn: any, ms: any, args: any[], every?: number) => {
  const id = seq++;
  timers.push({ id, at: now + Math.max(0, +ms || 0), seq: id, fn, args, every });
  const h: any = { id, unref() { return h; }, ref() { return h; }, hasRef: () => false, [Symbol.toPrimitive]: () => id };
  return h;
};
const del = (h: any) => {
  const id = h && typeof h === 'object' ? h.id : h;
  timers = timers.filter(t => t.id !== id);
};
let seedState = 12345;
export const vtime = {
  now: () => now - START,
  reset() {
    timers = [];
    now = START;
    seedState = 12345;
  },
  pending: () => timers.length,
  /** fires the timers due within ms, in order */
  advance(ms: number) {
    const target = now + ms;
    let guard = 0;
    for (;;) {
      let next: T = null;
      for (const t of timers) if (t.at <= target && (!next || t.at < next.at || (t.at === next.at && t.seq < next.seq))) next = t;
      if (!next) break;
      if (guard++ > 100000) throw new Error('timer loop does not settle');
      now = Math.max(now, next.at);
      if (next.every !== undefined) {
        next.at = now + Math.max(1, next.every);
        next.seq = seq++;
      } else timers = timers.filter(t => t !== next);
      next.fn(...next.args);
    }
    now = target;
  },
  /** fires exactly the next due timer (whatever its time); false if none */
  fireNext(): boolean {
    let next: T = null;
    for (const t of timers) if (!next || t.at < next.at || (t.at === next.at && t.seq < next.seq)) next = t;
    if (!next) return false;
    now = Math.max(now, next.at);
    timers = timers.filter(t => t !== next);
    next.fn(...next.args);
    return true;
  },
  /** moves the clock without firing anything */
  elapse(ms: number) {
    now += ms;
  },
  seed(s: number) {
    seedState = s >>> 0;
  }
};
g.setTimeout = (fn: any, ms: any, ...args: any[]) => add(fn, ms, args);
g.clearTimeout = del;
g.setInterval = (fn: any, ms: any, ...args: any[]) => add(fn, ms, args, +ms || 0);
g.clearInterval = del;
const RealDate = Date;
(Date as any).now = () => now;
if (g.performance) {
  try {
    Object.defineProperty(g.performance, 'now', { value: () => now - START, configurable: true });
  } catch (e) {
    /* fixed */
  }
}
Math.random = () => {
  seedState = (Math.imul(seedState, 1664525) + 1013904223) >>> 0;
  return seedState / 4294967296;
};
void RealDate;

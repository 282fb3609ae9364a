// Exploration kit: a check enumerates a finite space of JSON-serialisable cases; every case is executed
// on the real code (bundled from /repo's working tree) and judged by the check's oracle.
import * as fs from 'fs';

export interface Ctx {
  tier: 'quick' | 'thorough';
  thorough: boolean;
  /** record the fingerprint of a reached state */
  state(fp: any): void;
  /** count executed transitions (operations applied to the implementation) */
  step(n?: number): void;
  /** count implementation-vs-model comparisons */
  compare(n?: number): void;
  /** named counters for the evidence file */
  count(name: string, n?: number): void;
  /** trace line (only printed on replay) */
  trace(...args: any[]): void;
  replaying: boolean;
}

export interface CheckDef<C = any> {
  id: string;
  level: 'model_checking' | 'exploration';
  rule: string;
  assumptions?: string[];
  /** enumerates the whole space, deterministically */
  cases(ctx: Ctx): Iterable<C>;
  /** executes a case against the implementation; throws Violation if the property is broken */
  run(c: C, ctx: Ctx): void | Promise<void>;
  /** is the case non-trivial? (default: yes) */
  nontrivial?(c: C): boolean;
}

export class Violation extends Error {
  constructor(public sig: string, msg: string) {
    super(msg);
  }
}
/** sig identifies the kind of failure (stable across cases with the same cause) */
export function fail(sig: string, msg: string): never {
  throw new Violation(sig, msg);
}
export function ok(cond: any, sig: string, msg: string | (() => string)) {
  if (!cond) throw new Violation(sig, typeof msg === 'function' ? msg() : msg);
}

const EPS = 1e-6;
export function same(a: any, b: any, eps = EPS): boolean {
  if (a === b) return true;
  if (typeof a === 'number' && typeof b === 'number') {
    if (Number.isNaN(a) && Number.isNaN(b)) return true;
    return Math.abs(a - b) <= eps * Math.max(1, Math.abs(a), Math.abs(b));
  }
  if (a == null || b == null) return false;
  if (typeof a !== 'object' || typeof b !== 'object') return false;
  if (Array.isArray(a) !== Array.isArray(b)) return false;
  if (Array.isArray(a)) {
    if (a.length !== b.length) return false;
    for (let i = 0; i < a.length; i++) if (!same(a[i], b[i], eps)) return false;
    return true;
  }
  if (a instanceof Date || b instanceof Date) return +a === +b;
  const ka = Object.keys(a).filter(k => a[k] !== undefined);
  const kb = Object.keys(b).filter(k => b[k] !== undefined);
  if (ka.length !== kb.length) return false;
  for (const k of ka) if (!Object.prototype.hasOwnProperty.call(b, k) || !same(a[k], b[k], eps)) return false;
  return true;
}
export function show(v: any, max = 600): string {
  let s: string;
  try {
    s = JSON.stringify(v, (k, x) =>
      x === undefined ? '<undef>' : typeof x === 'function' ? '<fn>' : typeof x === 'number' && !Number.isFinite(x) ? String(x) : x
    );
  } catch (e) {
    s = String(v);
  }
  return s === undefined ? 'undefined' : s.length > max ? s.slice(0, max) + '…' : s;
}
export function firstDiff(a: any, b: any, path = '', eps = EPS): string | null {
  if (same(a, b, eps)) return null;
  if (a && b && typeof a === 'object' && typeof b === 'object' && Array.isArray(a) === Array.isArray(b)) {
    for (const k of new Set([...Object.keys(a), ...Object.keys(b)])) {
      const d = firstDiff(a[k], b[k], `${path}.${k}`, eps);
      if (d) return d;
    }
  }
  return `${path || 'value'}: got ${show(a, 200)}, expected ${show(b, 200)}`;
}
export function eq(actual: any, expected: any, sig: string, what: string | (() => string), eps = EPS) {
  if (!same(actual, expected, eps)) {
    const w = typeof what === 'function' ? what() : what;
    const deep = actual && expected && typeof actual === 'object' && typeof expected === 'object';
    throw new Violation(sig, deep ? `${w} at ${firstDiff(actual, expected, '', eps)}\n      got ${show(actual)}\n      expected ${show(expected)}` : `${w}: got ${show(actual)}, expected ${show(expected)}`);
  }
}

// ---- enumerators -------------------------------------------------------------------------
export function* sequences<T>(ops: T[], depth: number, minDepth = 0): Generator<T[]> {
  function* rec(prefix: T[], left: number): Generator<T[]> {
    if (prefix.length >= minDepth) yield prefix;
    if (left === 0) return;
    for (const o of ops) yield* rec([...prefix, o], left - 1);
  }
  yield* rec([], depth);
}
/** sequences of exactly n */
export function* tuples<T>(alts: T[], n: number): Generator<T[]> {
  if (n === 0) {
    yield [];
    return;
  }
  for (const t of tuples(alts, n - 1)) for (const a of alts) yield [...t, a];
}
export function* product<T extends any[][]>(...lists: T): Generator<{ [K in keyof T]: T[K] extends (infer U)[] ? U : never }> {
  function* rec(i: number, acc: any[]): Generator<any> {
    if (i === lists.length) {
      yield acc;
      return;
    }
    for (const v of lists[i]) yield* rec(i + 1, [...acc, v]);
  }
  yield* rec(0, []);
}
export function* subsets<T>(xs: T[]): Generator<T[]> {
  for (let m = 0; m < 1 << xs.length; m++) yield xs.filter((_, i) => (m >> i) & 1);
}
export function* permutations<T>(xs: T[]): Generator<T[]> {
  if (xs.length <= 1) {
    yield xs.slice();
    return;
  }
  for (let i = 0; i < xs.length; i++) {
    for (const p of permutations([...xs.slice(0, i), ...xs.slice(i + 1)])) yield [xs[i], ...p];
  }
}

// ---- deterministic environment -----------------------------------------------------------
export function lcg(seed: number) {
  let s = seed >>> 0;
  return () => {
    s = (Math.imul(s, 1664525) + 1013904223) >>> 0;
    return s / 4294967296;
  };
}

function cyrb53(str: string) {
  let h1 = 0xdeadbeef;
  let h2 = 0x41c6ce57;
  for (let i = 0; i < str.length; i++) {
    const ch = str.charCodeAt(i);
    h1 = Math.imul(h1 ^ ch, 2654435761);
    h2 = Math.imul(h2 ^ ch, 1597334677);
  }
  h1 = Math.imul(h1 ^ (h1 >>> 16), 2246822507) ^ Math.imul(h2 ^ (h2 >>> 13), 3266489909);
  h2 = Math.imul(h2 ^ (h2 >>> 16), 2246822507) ^ Math.imul(h1 ^ (h1 >>> 13), 3266489909);
  return 4294967296 * (2097151 & h2) + (h1 >>> 0);
}

// ---- driver (child process) --------------------------------------------------------------
export function check<C>(def: CheckDef<C>) {
  const main = async () => {
    const tier = (process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick') as 'quick' | 'thorough';
    const shard = +(process.env.KIT_SHARD || 0);
    const shards = +(process.env.KIT_SHARDS || 1);
    const outFile = process.env.KIT_OUT;
    const replayFile = process.env.KIT_REPLAY;
    const onlyIndex = process.env.KIT_INDEX;
    const states = new Set<number>();
    const counts: Record<string, number> = {};
    let transitions = 0;
    let comparisons = 0;
    const ctx: Ctx = {
      tier,
      thorough: tier === 'thorough',
      replaying: !!replayFile,
      state(fp) {
        states.add(cyrb53(typeof fp === 'string' ? fp : show(fp, 1e9)));
      },
      step(n = 1) {
        transitions += n;
      },
      compare(n = 1) {
        comparisons += n;
      },
      count(name, n = 1) {
        counts[name] = (counts[name] || 0) + n;
      },
      trace(...a) {
        if (replayFile) console.log('  ', ...a.map(x => (typeof x === 'string' ? x : show(x, 4000))));
      }
    };
    if (onlyIndex !== undefined) {
      let i = 0;
      for (const c of def.cases(ctx)) {
        if (i++ === +onlyIndex) {
          fs.writeFileSync(outFile, JSON.stringify(c));
          break;
        }
      }
      process.exit(0);
    }
    if (replayFile) {
      const rec = JSON.parse(fs.readFileSync(replayFile, 'utf8'));
      console.log(`replaying ${def.id} case`, show(rec.case, 5000));
      try {
        await def.run(rec.case, ctx);
        console.log('HELD: the case no longer violates', def.id);
        process.exit(0);
      } catch (e: any) {
        console.log('VIOLATED:', e.message, e instanceof Violation ? '' : e.stack);
        process.exit(1);
      }
    }
    const progFd = process.env.KIT_PROGRESS ? fs.openSync(process.env.KIT_PROGRESS, 'w') : -1;
    const buf = Buffer.alloc(8);
    const violations: Record<string, { n: number; sig: string; msg: string; case: C; index: number }> = {};
    const seenCases = new Set<number>();
    const samples: any[] = [];
    let index = 0;
    let evaluations = 0;
    let distinct = 0;
    const t0 = Date.now();
    const hrBudget = +(process.env.KIT_BUDGET_MS || 0);
    let truncated = false;
    for (const c of def.cases(ctx)) {
      const i = index++;
      // blocks of shards: spread neighbouring cases over the shards
      if (i % shards !== shard) continue;
      // (development only) KIT_FAILFAST: all shards end with the first violation
      if (process.env.KIT_FAILFAST && (Object.keys(violations).length || fs.existsSync(String(process.env.KIT_OUT).replace(/[^/]*$/, 'stop')))) break;
      if (hrBudget && (evaluations & 15) === 0 && realNow() - t0real > hrBudget) {
        truncated = true;
        break;
      }
      if (progFd >= 0) {
        buf.writeDoubleLE(i, 0);
        fs.writeSync(progFd, buf, 0, 8, 0);
      }
      evaluations++;
      if (!def.nontrivial || def.nontrivial(c)) {
        const h = cyrb53(show(c, 1e9));
        if (!seenCases.has(h)) {
          seenCases.add(h);
          distinct++;
        }
      }
      try {
        const r = def.run(c, ctx);
        if (r && typeof (r as any).then === 'function') await r;
        if (samples.length < 3 && (evaluations === 1 || evaluations % 97 === 0)) samples.push(c);
      } catch (e: any) {
        const sig = e instanceof Violation ? e.sig : 'exception:' + String(e && e.message).slice(0, 80);
        if (process.env.KIT_FAILFAST) fs.writeFileSync(String(process.env.KIT_OUT).replace(/[^/]*$/, 'stop'), '');
        const v = violations[sig];
        if (v) v.n++;
        else
          violations[sig] = {
            n: 1,
            sig,
            msg: String((e && e.message) || e) + (e instanceof Violation ? '' : '\n' + (e && e.stack)),
            case: c,
            index: i
          };
      }
    }
    fs.writeFileSync(
      outFile,
      JSON.stringify({
        evaluations,
        distinct,
        total: index,
        truncated,
        transitions,
        comparisons,
        counts,
        states: Array.from(states),
        samples,
        violations: Object.values(violations)
      })
    );
    process.exit(0);
  };
  const realNow = Date.now.bind(Date);
  const t0real = realNow();
  (globalThis as any).__kitMeta = { id: def.id, level: def.level, rule: def.rule, assumptions: def.assumptions || [] };
  if (process.env.KIT_META) {
    fs.writeFileSync(process.env.KIT_META, JSON.stringify((globalThis as any).__kitMeta));
    process.exit(0);
  }
  main().catch(e => {
    console.error(e);
    process.exit(3);
  });
}

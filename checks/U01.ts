// U01: field access, comparison, extent, regression, percent and view box helpers.
import { check, eq, ok, same, show, tuples, product, sequences } from '../lib/kit';
import * as U from '@visactor/vgrammar-util';
import { Logger } from '@visactor/vutils';

const reported: string[] = [];
Logger.getInstance().error = (m: any) => (reported.push(String(m)), null) as any;

type Seg = { k: string; n: string };
type C =
  | { t: 'path'; segs: Seg[] }
  | { t: 'str'; s: string }
  | { t: 'cmp'; kind: string; a: number[]; b: number[]; c: number[]; f: number; o: number }
  | { t: 'ext'; v: number[]; fn: boolean }
  | { t: 'reg'; p: number[][]; named: boolean }
  | { t: 'pct'; p: any; total: number }
  | { t: 'vb'; x: number[]; wh?: boolean };

const KEYS = ['a', 'b1', 'x y', 'a.b', 'c[0]', 'x"y', "x'y", 'q\\z', '', '0', 'constructor', ']', '.', '"', "'"];
const SPECIAL = /[.[\]"'\\]/;
/** writes one key in a notation; null when this notation cannot express the key */
function write(s: Seg, first: boolean): string | null {
  const esc = (re: RegExp) => s.k.replace(re, '\\$&');
  switch (s.n) {
    case 'dot':
      return !s.k || SPECIAL.test(s.k) ? null : (first ? '' : '.') + s.k;
    case 'dotesc':
      return !s.k || !SPECIAL.test(s.k) ? null : (first ? '' : '.') + esc(/[.[\]"'\\]/g);
    case 'br':
      return /[[\]\\]/.test(s.k) || /^["']/.test(s.k) || !s.k ? null : `[${s.k}]`;
    case 'dq':
      return /["\\]/.test(s.k) ? null : `["${s.k}"]`;
    case 'sq':
      return /['\\]/.test(s.k) ? null : `['${s.k}']`;
    case 'dqesc':
      return !/["\\]/.test(s.k) ? null : `["${esc(/["\\]/g)}"]`;
    case 'sqesc':
      return !/['\\]/.test(s.k) ? null : `['${esc(/['\\]/g)}']`;
  }
  return null;
}
const NOTES = ['dot', 'dotesc', 'br', 'dq', 'sq', 'dqesc', 'sqesc'];
const pathOf = (segs: Seg[]) => {
  let p = '';
  for (let i = 0; i < segs.length; i++) {
    const w = write(segs[i], i === 0);
    if (w === null) return null;
    p += w;
  }
  return p;
};

const D = (n: number) => new Date(n);
const VALS: Record<string, any[]> = {
  num: [undefined, null, NaN, -1, 0, 2, Infinity],
  str: [undefined, null, '', '10', '9', 'b'],
  date: [undefined, null, D(NaN), D(0), D(5), D(5)]
};
/** rank of a value in the documented order: missing < not-a-number < values */
const rank = (v: any): [number, any] => {
  if (v === undefined || v === null) return [0, 0];
  const x = v instanceof Date ? +v : v;
  return typeof x === 'number' && isNaN(x) ? [1, 0] : [2, x];
};
const cmpRank = (u: any, v: any) => {
  const a = rank(u), b = rank(v);
  if (a[0] !== b[0]) return a[0] < b[0] ? -1 : 1;
  return a[1] < b[1] ? -1 : a[1] > b[1] ? 1 : 0;
};
const FIELDS: { f: any; get: ((d: any) => any)[]; idx: number[]; names: string[] }[] = [
  { f: 'a', get: [d => d.a], idx: [0], names: ['a'] },
  { f: ['a'], get: [d => d.a], idx: [0], names: ['a'] },
  { f: ['a', 'o.b'], get: [d => d.a, d => d.o.b], idx: [0, 1], names: ['a', 'o.b'] },
  { f: ['o[b]', 'a'], get: [d => d.o.b, d => d.a], idx: [0, 1], names: ['o[b]', 'a'] },
  { f: [null, 'a', 'o.b'], get: [d => d.a, d => d.o.b], idx: [1, 2], names: ['a', 'o.b'] },
  { f: ['a', (d: any) => d.o.b], get: [d => d.a, d => d.o.b], idx: [0, 1], names: ['a'] },
  { f: (d: any) => d.a, get: [d => d.a], idx: [0], names: [] },
  { f: ['a', 'a', 'o.b'], get: [d => d.a, d => d.a, d => d.o.b], idx: [0, 1, 2], names: ['a', 'o.b'] }
];
const ORDERS: any[] = [undefined, 'desc', ['asc', 'desc'], ['desc', 'asc'], ['desc', 'desc', 'desc'], ['asc'], [undefined, 'desc']];
const EXT: any[] = [undefined, null, NaN, 3, -2, 0, '7', 'x', Infinity];
const REG: any[] = [0, 1, 3, -2, null, NaN, '2', undefined];

check<C>({
  id: 'U01',
  level: 'model_checking',
  rule:
    'paths: all sequences of <=2 (thorough 3) keys from a 15 key alphabet with dots, brackets, quotes, escapes and prototype names in all 7 notations, resolved on objects with the exact path, ' +
    'decoys and holes; all strings of <=6 (8) characters over {a . [ ]} for totality and rejection; compare: all row triples over number/string/date alphabets with missing values x fields x orders ' +
    'judged against a rank function (hence a total preorder); extent, regression, percent and view box over all small value tuples',
  assumptions: ['values compared with each other are of one kind (numbers, strings or dates) or missing'],
  *cases(ctx) {
    const segs: Seg[] = [];
    for (const k of KEYS) for (const n of NOTES) if (write({ k, n }, true) !== null) segs.push({ k, n });
    for (let n = 1; n <= 2; n++) for (const s of tuples(segs, n)) yield { t: 'path', segs: s };
    const few = segs.filter(s => ['a', 'a.b', 'c[0]', 'x"y', 'q\\z', ''].includes(s.k));
    for (const s of tuples(ctx.thorough ? segs : few, 3)) yield { t: 'path', segs: s };
    for (const s of sequences(['a', '.', '[', ']'], ctx.thorough ? 8 : 6)) yield { t: 'str', s: s.join('') };
    for (const s of sequences(['a', '.', '[', ']', '"', '\\'], ctx.thorough ? 6 : 4)) yield { t: 'str', s: s.join('') };
    for (const kind of ['num', 'str', 'date']) {
      const n = VALS[kind].length;
      const idx = Array.from({ length: n }, (_, i) => i);
      const pairs = [...tuples(idx, 2)];
      for (let f = 0; f < FIELDS.length; f++)
        for (let o = 0; o < ORDERS.length; o++)
          for (const a of pairs) for (const b of pairs) if (ctx.thorough || f !== 3 || a[0] <= b[0]) yield { t: 'cmp', kind, a, b, c: [], f, o };
    }
    const ei = EXT.map((_, i) => i);
    for (let n = 0; n <= 4; n++) for (const v of tuples(ei, n)) for (const fn of [false, true]) yield { t: 'ext', v, fn };
    const ri = REG.map((_, i) => i);
    const rp = [...tuples(ri, 2)];
    for (let n = 0; n <= 2; n++) for (const p of tuples(rp, n)) yield { t: 'reg', p, named: n === 1 };
    for (const p of tuples([...tuples([0, 1, 2, 3, 5], 2)], 3)) yield { t: 'reg', p, named: true };
    if (ctx.thorough) for (const p of tuples([...tuples([0, 1, 2, 3], 2)], 4)) yield { t: 'reg', p, named: true };
    for (const p of [undefined, null, 0, 5, -3, '0%', '50%', '12.5%', '-20%', '100%', '150%']) for (const total of [0, 10, -4, 33]) yield { t: 'pct', p, total };
    for (const x of tuples([-2, 0, 3], 4)) yield { t: 'vb', x };
    for (const x of tuples([0, 3, 7.5], 2)) yield { t: 'vb', x, wh: true };
  },
  nontrivial: c => c.t !== 'path' || c.segs.length > 1,
  run(c, ctx) {
    if (c.t === 'path') {
      const p = pathOf(c.segs);
      if (p === null) return;
      ctx.trace('path', p);
      const keys = c.segs.map(s => s.k);
      ctx.step();
      reported.length = 0;
      const got = (U as any).splitAccessPath(p);
      eq(got, keys, 'path:split', () => `splitAccessPath(${p})`);
      ok(!reported.length, 'path:error', () => `splitAccessPath(${p}) reports ${reported[0]}`);
      const f = (U as any).field(p);
      const mk = (leaf: any, ks: string[]) => ks.reduceRight((v, k) => ({ [k]: v, decoy: 0, [k + '!']: 1 }), leaf);
      eq(f(mk('leaf', keys)), 'leaf', 'path:get', () => `field(${p})`);
      // an object which has the whole path as one key must not be hit
      if (keys.length > 1 && keys[0] !== 'constructor') eq(f({ [p]: 'whole' }), undefined, 'path:decoy', () => `field(${p}) on an object with the key ${p}`);
      for (const hole of [undefined, null]) {
        eq(f(hole), undefined, 'path:hole', () => `field(${p}) of ${hole}`);
        for (let i = 1; i < keys.length; i++) eq(f(mk(hole, keys.slice(0, i))), undefined, 'path:hole', () => `field(${p}) with ${hole} at depth ${i}`);
      }
      eq((U as any).accessorFields(f), [keys.length === 1 ? keys[0] : p], 'path:fields', () => `fields of field(${p})`);
      eq((U as any).accessorName((U as any).field(p, 'nm')), 'nm', 'path:name', 'name of a named field');
      const two = (U as any).field([p, 'zz']);
      eq(two({ ...mk('leaf', keys), zz: 4 }), ['leaf', 4], 'path:many', () => `field([${p}, zz])`);
      ctx.compare(5);
      ctx.count('paths');
      ctx.state(p);
      return;
    }
    if (c.t === 'str') {
      let got: any, threw: any = null;
      ctx.step();
      reported.length = 0;
      try {
        got = (U as any).splitAccessPath(c.s);
      } catch (e) {
        threw = e;
      }
      // malformed paths are reported through the logger (or thrown)
      if (!threw && reported.length) threw = new Error(reported[0]);
      ctx.state(c.s);
      ctx.compare();
      if (threw) ok(threw instanceof Error && /Access path/.test(threw.message), 'str:error', () => `splitAccessPath(${c.s}) failed with ${threw}`);
      else ok(Array.isArray(got) && got.every((x: any) => typeof x === 'string'), 'str:type', () => `splitAccessPath(${c.s}) = ${show(got)}`);
      if (/["\\]/.test(c.s)) {
        ctx.count('strings with quotes or escapes');
        return;
      }
      let open = false, bad = false;
      for (const ch of c.s) {
        if (ch === '[') open = true;
        if (ch === ']') {
          bad = bad || !open;
          open = false;
        }
      }
      bad = bad || open;
      eq(!!threw, bad, 'str:reject', () => `splitAccessPath(${c.s}) ${threw ? 'rejected' : 'accepted'}`);
      if (!bad && /^([^[\]]|\[[^[\]]*\])*$/.test(c.s)) {
        const want: string[] = [];
        for (const m of c.s.match(/\[[^[\]]*\]|[^.[\]]+/g) || []) want.push(m[0] === '[' ? m.slice(1, -1) : m);
        eq(got, want, 'str:split', () => `splitAccessPath(${c.s})`);
      }
      ctx.count(bad ? 'rejected strings' : 'accepted strings');
      return;
    }
    if (c.t === 'cmp') {
      const V = VALS[c.kind];
      const row = (i: number[]) => ({ a: V[i[0]], o: { b: V[i[1]] } });
      const A = row(c.a), B = row(c.b);
      const F = FIELDS[c.f];
      const orders = ORDERS[c.o];
      const arr = orders === undefined ? [] : Array.isArray(orders) ? orders : [orders];
      const frozen = show(orders);
      const cmp = (U as any).compare(F.f, orders);
      const want = (x: any, y: any) => {
        for (let i = 0; i < F.get.length; i++) {
          const r = cmpRank(F.get[i](x), F.get[i](y));
          if (r) return arr[F.idx[i]] === 'desc' ? -r : r;
        }
        return 0;
      };
      const sg = (x: number) => (x < 0 ? -1 : x > 0 ? 1 : 0);
      for (let rep = 0; rep < 2; rep++) {
        eq(sg(cmp(A, B)), sg(want(A, B)), 'cmp:order', () => `compare(${show(F.f)}, ${show(orders)})(${show(A)}, ${show(B)})`);
        eq(sg(cmp(B, A)), sg(want(B, A)), 'cmp:order', () => `compare(${show(F.f)}, ${show(orders)})(${show(B)}, ${show(A)})`);
      }
      eq(show(orders), frozen, 'cmp:input', 'orders passed to compare are changed');
      eq([...(U as any).accessorFields(cmp)].sort(), [...new Set(F.names)].sort(), 'cmp:fields', () => `fields of compare(${show(F.f)})`);
      if (c.f === 0 && c.o === 0) eq(sg((U as any).ascending(A.a, B.a)), cmpRank(A.a, B.a), 'cmp:ascending', () => `ascending(${show(A.a)}, ${show(B.a)})`);
      if (c.a[0] + c.a[1] + c.b[0] + c.b[1] === 0) {
        const all = [...tuples(V.map((_, i) => i), 2)].map(row);
        const got = all.slice().sort(cmp);
        const exp = all.slice().sort(want);
        ok(got.every((g, i) => want(g, exp[i]) === 0), 'cmp:sort', () => `sorting by compare(${show(F.f)}, ${show(orders)})`);
        eq((U as any).compare([null, undefined]), null, 'cmp:none', 'compare of no fields');
      }
      ctx.step(4);
      ctx.compare(4);
      ctx.count('comparisons');
      ctx.state([c.kind, c.f, c.o, c.a, c.b]);
      return;
    }
    if (c.t === 'ext') {
      const v = c.v.map(i => EXT[i]);
      const nums = v.filter(x => x !== undefined && x !== null && !isNaN(+x)).map(Number);
      const want = nums.length ? [Math.min(...nums), Math.max(...nums)] : [undefined, undefined];
      ctx.step();
      const got = c.fn ? (U as any).extent(v.map(x => ({ x })), (d: any) => d.x) : (U as any).extent(v);
      ok(got.length === 2 && same(got[0], want[0]) && same(got[1], want[1]), 'ext', () => `extent(${show(v)}) = ${show(got)}, expected ${show(want)}`);
      ctx.compare();
      ctx.count('extents');
      ctx.state(['e', c.v]);
      return;
    }
    if (c.t === 'reg') {
      const pts = c.p.map(p => (c.named ? p : [REG[p[0]], REG[p[1]]]));
      const rows = pts.map(p => (c.named ? { u: p[0], v: p[1] } : { x: p[0], y: p[1] }));
      ctx.step();
      const got = c.named ? (U as any).regressionLinear(rows, (d: any) => d.u, (d: any) => d.v) : (U as any).regressionLinear(rows);
      const valid = pts.filter(p => p.every((x: any) => x !== null && x !== undefined && !isNaN(+x))).map(p => p.map(Number));
      const n = valid.length;
      ctx.compare();
      ctx.count('regressions');
      ctx.state(['r', c.p]);
      if (!n) return;
      const mx = valid.reduce((s, p) => s + p[0], 0) / n;
      const my = valid.reduce((s, p) => s + p[1], 0) / n;
      const sxx = valid.reduce((s, p) => s + (p[0] - mx) ** 2, 0);
      const sxy = valid.reduce((s, p) => s + (p[0] - mx) * (p[1] - my), 0);
      const slope = sxx > 1e-9 ? sxy / sxx : 0;
      eq(got.coef, [my - slope * mx, slope], 'reg:coef', () => `regressionLinear(${show(rows)})`);
      for (const x of [-1, 0, 2.5]) eq(got.predict(x), my + slope * (x - mx), 'reg:predict', () => `prediction of ${show(rows)} at ${x}`);
      const sst = valid.reduce((s, p) => s + (p[1] - my) ** 2, 0);
      const sse = valid.reduce((s, p) => s + (p[1] - my - slope * (p[0] - mx)) ** 2, 0);
      if (sst > 1e-9) eq(got.rSquared, 1 - sse / sst, 'reg:r2', () => `rSquared of ${show(rows)}`);
      return;
    }
    if (c.t === 'pct') {
      ctx.step();
      const want = c.p === undefined || c.p === null ? c.total : typeof c.p === 'string' ? (c.total * parseFloat(c.p)) / 100 : c.p;
      eq((U as any).toPercent(c.p, c.total), want, 'pct', () => `toPercent(${show(c.p)}, ${c.total})`);
      ctx.compare();
      ctx.state(['p', c.p, c.total]);
      return;
    }
    if (c.t === 'vb') {
      ctx.step();
      const [x0, y0, x1, y1] = c.wh ? [0, 0, c.x[0], c.x[1]] : c.x;
      const got = (U as any).parseViewBox(c.wh ? { width: c.x[0], height: c.x[1] } : { x0, x1, y0, y1 });
      const L = Math.min(x0, x1), R = Math.max(x0, x1), T = Math.min(y0, y1), B = Math.max(y0, y1);
      eq(got, { x0: L, x1: R, y0: T, y1: B, width: R - L, height: B - T }, 'vb', () => `parseViewBox(${show(c.x)})`);
      ctx.compare();
      ctx.state(['v', c.x, c.wh]);
    }
  }
});

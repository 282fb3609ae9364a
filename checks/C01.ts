// C01: coordinates convert and invert consistently under any transformation chain and re-configuration.
import { view, releaseAll, attrs } from '../lib/vg';
import { check, eq, ok, same, show, tuples, sequences } from '../lib/kit';
import { CartesianCoordinate, PolarCoordinate } from '@visactor/vgrammar-coordinate';

type Tr = { type: string; offset?: any; angle?: number; scale?: any };
type C =
  | { t: 'chain'; type: 'cartesian' | 'polar'; o: number[] | null; tr: number[] }
  | { t: 'set'; ops: number[] }
  | { t: 'cset'; ops: number[] }
  | { t: 'range'; type: 'cartesian' | 'polar'; s: number[]; e: number[]; tp: number; a: number[]; r: number[] }
  | { t: 'gram'; type: 'cartesian' | 'polar'; ops: number[] }
  | { t: 'draw'; type: 'cartesian' | 'polar'; tr: number[]; mark: string; split: boolean };

const TR: Tr[] = [
  { type: 'translate', offset: { x: 10, y: -20 } },
  { type: 'translate', offset: { x: 0, y: 5 } },
  { type: 'rotate', angle: Math.PI / 2 },
  { type: 'rotate', angle: -0.7 },
  { type: 'rotate', angle: 7 },
  { type: 'scale', scale: { x: 2, y: 0.5 } },
  { type: 'scale', scale: { x: -1, y: 3 } },
  { type: 'transpose' }
];
type Pt = { x: number; y: number };
type Fn = (p: Pt) => Pt;
/** translate and scale act on the abstract point, rotation (about the origin) and transposition on the canvas position */
function conversion(type: string, o: Pt, chain: Tr[]): Fn {
  let f: Fn = p => ({ x: p.x + o.x, y: p.y + o.y });
  for (const t of chain) {
    const g = f;
    if (t.type === 'translate') f = p => g({ x: p.x + t.offset.x, y: p.y + t.offset.y });
    if (t.type === 'scale') f = p => g({ x: p.x * t.scale.x, y: p.y * t.scale.y });
    if (t.type === 'rotate')
      f = p => {
        const q = g(p), dx = q.x - o.x, dy = q.y - o.y, c = Math.cos(t.angle), s = Math.sin(t.angle);
        return { x: o.x + c * dx - s * dy, y: o.y + s * dx + c * dy };
      };
    if (t.type === 'transpose' && type !== 'polar')
      f = p => {
        const q = g(p);
        return { x: q.y, y: q.x };
      };
  }
  return f;
}
const transposed = (chain: Tr[]) => chain.filter(t => t.type === 'transpose').length % 2 === 1;
const near = (a: number, b: number) => Math.abs(a - b) <= 1e-6 * Math.max(1, Math.abs(a), Math.abs(b));
const nearPt = (a: any, b: any) => near(a.x, b.x) && near(a.y, b.y);
const angleNear = (a: number, b: number) => near(Math.cos(a), Math.cos(b)) && near(Math.sin(a), Math.sin(b));
const GRID: Pt[] = [];
for (const x of [-30, 0, 7, 100]) for (const y of [-5, 0, 41]) GRID.push({ x, y });
const POLAR: { r: number; theta: number }[] = [];
for (const r of [0, 1, 55]) for (const k of [0, 1, 2, 3, 4, 5, 6, 7, 8, 17, -3]) POLAR.push({ r, theta: (k * Math.PI) / 4 + (k === 5 ? 0.1 : 0) });

function checkConversion(coord: any, type: string, o: Pt, chain: Tr[], ctx: any, label: string) {
  const f = conversion(type, o, chain);
  const tp = transposed(chain);
  if (type === 'cartesian') {
    for (const p of GRID) {
      const input = { ...p, tag: 'k' };
      const q = coord.convert(input);
      ok(nearPt(q, f(p)), 'convert', () => `${label}: convert(${show(p)}) = ${show(q)}, expected ${show(f(p))}`);
      eq(input, { ...p, tag: 'k' }, 'convert:input', `${label}: convert changed its input`);
      eq(q.tag, 'k', 'convert:rest', `${label}: convert lost another channel`);
      ok(nearPt(coord.convert([p.x, p.y]), f(p)), 'convert:array', () => `${label}: convert([${p.x},${p.y}])`);
      const back = coord.invert(q);
      ok(nearPt(back, p), 'invert', () => `${label}: invert(convert(${show(p)})) = ${show(back)}`);
      const fwd = coord.convert(coord.invert({ ...p }));
      ok(nearPt(fwd, p), 'invert:onto', () => `${label}: convert(invert(${show(p)})) = ${show(fwd)}`);
      for (const sec of [{ x1: 3, y1: -4 }, { x1: 0 }, { y1: 9 }] as any[]) {
        const s = { ...p, ...sec };
        const want1 = f({ x: sec.x1 ?? p.x, y: sec.y1 ?? p.y });
        const c2 = coord.convert(s);
        ok(nearPt(c2, f(p)) && near(c2.x1, want1.x) && near(c2.y1, want1.y), 'convert:pair', () => `${label}: convert(${show(s)}) = ${show(c2)}, expected ${show(f(p))} and ${show(want1)}`);
        const i2 = coord.invert(c2);
        ok(nearPt(i2, p) && near(i2.x1, sec.x1 ?? p.x) && near(i2.y1, sec.y1 ?? p.y), 'invert:pair', () => `${label}: invert(${show(c2)}) = ${show(i2)}`);
      }
      ctx.compare(8);
    }
    return;
  }
  const base = (p: { r: number; theta: number }) => f({ x: Math.cos(p.theta) * p.r, y: Math.sin(p.theta) * p.r });
  for (const p of POLAR) {
    const abs = tp ? { r: p.theta, theta: p.r } : { r: p.r, theta: p.theta };
    const want = base(p);
    const input = { ...abs, x: 999, y: 999 };
    const q = coord.convert(input);
    ok(nearPt(q, want), 'convert', () => `${label}: convert(${show(abs)}) = ${show(q)}, expected ${show(want)}`);
    eq(input, { ...abs, x: 999, y: 999 }, 'convert:input', `${label}: convert changed its input`);
    const xy = tp ? { x: p.r, y: p.theta } : { x: p.theta, y: p.r };
    ok(nearPt(coord.convert(xy), want), 'convert:xy', () => `${label}: convert(${show(xy)}) = ${show(coord.convert(xy))}, expected ${show(want)}`);
    const arr = tp ? [p.theta, p.r] : [p.r, p.theta];
    ok(nearPt(coord.convert(arr), want), 'convert:array', () => `${label}: convert(${show(arr)}) = ${show(coord.convert(arr))}, expected ${show(want)}`);
    eq(coord.convert({ ...abs, defined: false }).defined, false, 'convert:defined', `${label}: defined is lost`);
    const same2 = (b: any) => {
      const r = tp ? b.theta : b.r, th = tp ? b.r : b.theta;
      return near(r, p.r) && (p.r === 0 || angleNear(th, p.theta));
    };
    const back = coord.invert(q);
    ok(same2(back), 'invert', () => `${label}: invert(convert(${show(abs)})) = ${show(back)}`);
    eq(coord.invert({ ...q, defined: false }).defined, false, 'invert:defined', `${label}: defined is lost`);
    // second point, given as r1/theta1 or x1/y1
    const p1 = { r: 21, theta: 1 };
    const w1 = base(p1);
    const abs1 = tp ? { r1: p1.theta, theta1: p1.r } : { r1: p1.r, theta1: p1.theta };
    const c2 = coord.convert({ ...abs, ...abs1 });
    ok(nearPt(c2, want) && near(c2.x1, w1.x) && near(c2.y1, w1.y), 'convert:pair', () => `${label}: convert(${show({ ...abs, ...abs1 })}) = ${show(c2)}`);
    const i2 = coord.invert(c2);
    ok(same2(i2) && near(tp ? i2.theta1 : i2.r1, 21) && angleNear(tp ? i2.r1 : i2.theta1, 1), 'invert:pair', () => `${label}: invert(${show(c2)}) = ${show(i2)}`);
    const c3 = coord.convert({ ...abs, r1: 4 });
    const w3 = base(tp ? { r: p.r, theta: 4 } : { r: 4, theta: p.theta });
    ok(near(c3.x1, w3.x) && near(c3.y1, w3.y), 'convert:pair', () => `${label}: convert(${show({ ...abs, r1: 4 })}) = ${show(c3)}, expected ${show(w3)}`);
    const xy1 = tp ? { x1: p1.r, y1: p1.theta } : { x1: p1.theta, y1: p1.r };
    const c4 = coord.convert({ ...xy, ...xy1 });
    ok(nearPt(c4, want) && near(c4.x1, w1.x) && near(c4.y1, w1.y), 'convert:pair', () => `${label}: convert(${show({ ...xy, ...xy1 })}) = ${show(c4)}`);
    ctx.compare(9);
  }
  for (const p of GRID) {
    const fwd = coord.convert(coord.invert({ ...p }));
    ok(nearPt(fwd, p), 'invert:onto', () => `${label}: convert(invert(${show(p)})) = ${show(fwd)}`);
  }
}

// setter histories on a polar coordinate
const POPS: [string, (c: any) => void, (m: any) => void][] = [
  ['origin 50,40', c => c.origin([50, 40]), m => (m.o = { x: 50, y: 40 })],
  ['origin 0,7', c => c.origin({ x: 0, y: 7 }), m => (m.o = { x: 0, y: 7 })],
  ['angle -90..90', c => c.angle(-Math.PI / 2, Math.PI / 2), m => (m.a = [-Math.PI / 2, Math.PI / 2])],
  ['angle 5..1', c => c.angle([5, 1]), m => (m.a = [5, 1])],
  ['angle 0.3..4', c => c.angle([0.3, 4]), m => (m.a = [0.3, 4])],
  ['radius 5,20', c => c.radius(5, 20), m => (m.r = [5, 20])],
  ['radius [30,10]', c => c.radius([30, 10]), m => (m.r = [10, 30])],
  ['radius 9,2', c => c.radius(9, 2), m => (m.r = [2, 9])],
  ['translate', c => c.applyTransforms([TR[0]]), m => (m.tr = [TR[0]])],
  ['rotate,transpose', c => c.applyTransforms([TR[2], TR[7]]), m => (m.tr = [TR[2], TR[7]])],
  ['none', c => c.applyTransforms([]), m => (m.tr = [])]
];
function sector(o: Pt, a: number[], r: number[]) {
  const lo = Math.min(...a), hi = Math.max(...a);
  const as = [lo, hi];
  for (let k = -40; k <= 40; k++) if ((k * Math.PI) / 2 >= lo && (k * Math.PI) / 2 <= hi) as.push((k * Math.PI) / 2);
  const xs = as.flatMap(t => r.map(q => o.x + q * Math.cos(t)));
  const ys = as.flatMap(t => r.map(q => o.y + q * Math.sin(t)));
  return [{ x: Math.min(...xs), y: Math.min(...ys) }, { x: Math.max(...xs), y: Math.max(...ys) }];
}
// start/end histories without an own origin or radius
const SOPS: [string, (c: any) => void, (m: any) => void][] = [
  ['start 0,0', c => c.start([0, 0]), m => (m.s = [0, 0])],
  ['end 100,80', c => c.end([100, 80]), m => (m.e = [100, 80])],
  ['end 60,90', c => c.end(60, 90), m => (m.e = [60, 90])],
  ['end {20,20}', c => c.end({ x: 20, y: 20 }), m => (m.e = [20, 20])],
  ['transpose', c => c.applyTransforms([TR[7]]), m => (m.tr = [TR[7]])],
  ['rotate', c => c.applyTransforms([TR[3]]), m => (m.tr = [TR[3]])],
  ['none', c => c.applyTransforms([]), m => (m.tr = [])]
];

// grammar level histories: [key, value]; undefined withdraws the key
const S = (name: string) => ({ signal: name });
const GOPS: [string, any][] = [
  ['start', [0, 0]],
  ['start', undefined],
  ['end', [100, 80]],
  ['end', [60, 90]],
  ['end', S('sz')],
  ['end', undefined],
  ['origin', [30, 30]],
  ['origin', undefined],
  ['translate', [3, 4]],
  ['translate', undefined],
  ['rotate', Math.PI / 3],
  ['rotate', S('rot')],
  ['rotate', undefined],
  ['scale', [2, 3]],
  ['scale', undefined],
  ['transpose', true],
  ['transpose', S('tp')],
  ['transpose', undefined],
  ['!sz', [44, 70]],
  ['!rot', 1.5],
  ['!tp', false],
  ['!touch', 0]
];
const SIG0: any = { sz: [40, 50], rot: 0.4, tp: true };
function observe(v: any, type: string) {
  const coord = v.getCoordinateById('co').output();
  const out: any = { type: coord.type, tp: coord.isTransposed(), start: { ...coord.start() }, end: { ...coord.end() } };
  if (type === 'polar') Object.assign(out, { origin: { ...coord.origin() }, angle: coord.angle(), radius: coord.radius() });
  out.pts = (type === 'polar' ? POLAR.slice(9, 16) : GRID.slice(0, 8)).map((p: any) => coord.convert({ ...p }));
  out.ranges = ['x', 'y'].flatMap(d => [false, true].map(r => coord.getRangeByDimension(d as any, false, r)));
  out.scales = ['sx', 'sy', 'sr'].map(s => v.getScaleById(s).getScale().range());
  out.marks = ['sym', 'rul'].map(id => attrs(v.getMarkById(id).elements[0])).map((a: any) => [a.x, a.y, a.x1, a.y1]);
  return out;
}
const gspec = (type: string, co: any, sig: any) => ({
  signals: Object.keys(sig).map(k => ({ id: k, value: sig[k] })),
  coordinates: [{ type, id: 'co', ...co }],
  scales: [
    { type: 'linear', id: 'sx', domain: [0, 10], range: { coordinate: 'co', dimension: 'x' } },
    { type: 'linear', id: 'sy', domain: [0, 10], range: { coordinate: 'co', dimension: 'y' } },
    { type: 'band', id: 'sr', domain: ['a', 'b'], range: { coordinate: 'co', dimension: 'y', reversed: true } }
  ],
  marks: [
    { type: 'symbol', id: 'sym', coordinate: 'co', encode: { update: { x: { scale: 'sx', value: 3 }, y: { scale: 'sy', value: 4 }, size: 5 } } },
    { type: 'rule', id: 'rul', coordinate: 'co', encode: { update: { x: { scale: 'sx', value: 3 }, y: { scale: 'sy', value: 4 }, x1: { scale: 'sx', value: 9 }, y1: 5 } } }
  ]
});

check<C>({
  id: 'C01',
  level: 'model_checking',
  rule:
    'cartesian and polar: all chains of <=3 (thorough 4) transforms from 8 x origins on a grid of 12 cartesian / 33 polar points (r=0, angles beyond one turn, pairs, arrays): conversion equals the composition ' +
    'of its steps and inverts both ways; all setter sequences of <=3 (4) operations on polar (origin, angle, radius, transforms) and start/end compared with the values last set; all ranges, axis points and positions ' +
    'against conversion; grammar: all sequences of <=2 (3) settings, withdrawals and signal changes compared with a fresh view (coordinate, scale ranges, drawn marks)',
  assumptions: ['transform chains are invertible (no zero scale)', 'default origin of polar coordinates is judged for boxes starting at 0,0 only'],
  *cases(ctx) {
    const ti = TR.map((_, i) => i);
    for (const type of ['cartesian', 'polar'] as const)
      for (const o of type === 'polar' ? [null, [100, 50], [-20, 0]] : [null])
        for (const tr of sequences(ti, ctx.thorough ? 4 : 3)) yield { t: 'chain', type, o, tr };
    for (const ops of sequences(POPS.map((_, i) => i), ctx.thorough ? 5 : 4, 1)) yield { t: 'set', ops };
    for (const ops of sequences(SOPS.map((_, i) => i), ctx.thorough ? 6 : 4, 1)) yield { t: 'cset', ops };
    for (const type of ['cartesian', 'polar'] as const)
      for (const s of type === 'cartesian' ? [[0, 0], [40, 500], [90, 10]] : [[50, 50], [0, 20]])
        for (const e of type === 'cartesian' ? [[100, 80], [400, 30], [10, 10]] : [[0, 0]])
          for (const tp of [0, 1, 2])
            for (const a of type === 'polar' ? [[0, 2 * Math.PI], [1, -2], [-0.5, 7]] : [[0, 0]])
              for (const r of type === 'polar' ? [[0, 30], [10, 30], [5, 5]] : [[0, 0]]) yield { t: 'range', type, s, e, tp, a, r };
    const gi = GOPS.map((_, i) => i);
    for (const type of ['cartesian', 'polar'] as const)
      for (const ops of sequences(gi.filter(i => type === 'polar' || GOPS[i][0] !== 'origin'), ctx.thorough ? 3 : 2, 1)) yield { t: 'gram', type, ops };
    for (const type of ['cartesian', 'polar'] as const)
      for (const tr of sequences([0, 2, 5, 7], 2)) for (const mark of ['symbol', 'rule', 'rect', 'text', 'line']) for (const split of [false, true]) yield { t: 'draw', type, tr, mark, split };
  },
  nontrivial: c => c.t !== 'chain' || c.tr.length > 0,
  run(c, ctx) {
    if (c.t === 'chain') {
      const coord: any = c.type === 'polar' ? new PolarCoordinate() : new CartesianCoordinate();
      const o = c.o ? { x: c.o[0], y: c.o[1] } : { x: 0, y: 0 };
      if (c.o) coord.origin(c.o);
      const chain = c.tr.map(i => TR[i]);
      const given = chain.map(t => ({ ...t }));
      if (chain.length) coord.applyTransforms(given);
      ctx.step();
      checkConversion(coord, c.type, o, chain, ctx, `${c.type}[${chain.map(t => t.type)}]`);
      // the array which was passed may be changed afterwards
      given.length = 0;
      eq(coord.isTransposed(), transposed(chain), 'transposed', 'isTransposed');
      // set again: no residue
      coord.applyTransforms([TR[1]]);
      checkConversion(coord, c.type, o, [TR[1]], ctx, `${c.type} after re-setting`);
      ctx.count('chains');
      ctx.state(c);
      return;
    }
    if (c.t === 'set') {
      const coord: any = new PolarCoordinate();
      const m: any = { o: { x: 0, y: 0 }, a: [0, 2 * Math.PI], r: [0, 0], tr: [] };
      for (const i of c.ops) {
        POPS[i][1](coord);
        POPS[i][2](m);
        ctx.step();
      }
      const label = c.ops.map(i => POPS[i][0]).join(' > ');
      ctx.trace(label);
      eq({ ...coord.origin() }, m.o, 'set:origin', () => label);
      eq(coord.angle(), m.a, 'set:angle', () => label);
      eq(coord.radius(), m.r, 'set:radius', () => label);
      const tp = transposed(m.tr);
      const [A, R] = tp ? ['y', 'x'] : ['x', 'y'];
      eq(coord.getRangeByDimension(A), m.a, 'set:range', () => `${label}: angle range`);
      eq(coord.getRangeByDimension(R), m.r, 'set:range', () => `${label}: radius range`);
      const f = conversion('polar', m.o, m.tr);
      for (const p of POLAR.slice(11, 18)) {
        const got = coord.convert(tp ? { r: p.theta, theta: p.r } : p);
        const want = f({ x: Math.cos(p.theta) * p.r, y: Math.sin(p.theta) * p.r });
        ok(nearPt(got, want), 'set:convert', () => `${label}: convert(${show(p)}) = ${show(got)}, expected ${show(want)}`);
      }
      const touched = c.ops.some(i => i < 8);
      if (touched) {
        const [s, e] = sector(m.o, m.a, m.r);
        ok(nearPt(coord.start(), s) && nearPt(coord.end(), e), 'set:box', () => `${label}: box ${show([coord.start(), coord.end()])}, expected ${show([s, e])}`);
      }
      ctx.compare(14);
      ctx.count('setter histories');
      ctx.state([m, touched]);
      return;
    }
    if (c.t === 'cset') {
      const label = c.ops.map(i => SOPS[i][0]).join(' > ');
      const m: any = { s: [0, 0], e: [0, 0], tr: [] };
      const P: any = new PolarCoordinate(), K: any = new CartesianCoordinate();
      for (const i of c.ops) {
        SOPS[i][1](P);
        SOPS[i][1](K);
        SOPS[i][2](m);
        ctx.step(2);
      }
      for (const coord of [P, K]) {
        eq({ ...coord.start() }, { x: m.s[0], y: m.s[1] }, 'cset:start', () => label);
        eq({ ...coord.end() }, { x: m.e[0], y: m.e[1] }, 'cset:end', () => label);
      }
      const o = { x: m.e[0] / 2, y: m.e[1] / 2 };
      eq({ ...P.origin() }, o, 'cset:origin', () => label);
      eq(P.radius(), [0, Math.min(o.x, o.y)], 'cset:radius', () => label);
      for (const [coord, type, oo] of [[P, 'polar', o], [K, 'cartesian', { x: 0, y: 0 }]] as any[]) {
        const f = conversion(type, oo, m.tr);
        const tp = transposed(m.tr) && type === 'polar';
        for (const p of [{ x: 1, y: 20 }, { x: 4, y: 0 }]) {
          const want = type === 'polar' ? f({ x: Math.cos(p.x) * p.y, y: Math.sin(p.x) * p.y }) : f(p);
          const got = coord.convert(tp ? { x: p.y, y: p.x } : p);
          ok(nearPt(got, want), 'cset:convert', () => `${label}: ${type} convert(${show(p)}) = ${show(got)}, expected ${show(want)}`);
        }
      }
      ctx.compare(9);
      ctx.count('box histories');
      ctx.state(['c', m]);
      return;
    }
    if (c.t === 'range') {
      const polar = c.type === 'polar';
      const coord: any = polar ? new PolarCoordinate().origin(c.s as any).angle(c.a as any).radius(c.r as any) : new CartesianCoordinate().start(c.s as any).end(c.e as any);
      coord.applyTransforms(Array.from({ length: c.tp }, () => TR[7]));
      const tp = c.tp % 2 === 1;
      ctx.step();
      for (const dim of ['x', 'theta', '0', 'y', 'r', '1']) {
        const main = ['x', 'theta', '0'].includes(dim) !== tp;
        eq(coord.isMainDimension(dim), main, 'range:main', () => `isMainDimension(${dim})`);
        for (const rev of [false, true])
          for (const sub of [false, true]) {
            const want = polar ? (main ? c.a : c.r) : main ? [c.s[0], c.e[0]] : [c.e[1], c.s[1]];
            eq(coord.getRangeByDimension(dim, sub, rev), rev ? [want[1], want[0]] : want, 'range', () => `${c.type} range of ${dim} ${sub} ${rev}`);
            eq(
              coord.getVisualPositionByDimension(dim, sub, rev),
              polar ? (main ? (sub ? 'inside' : 'outside') : sub ? 'end' : 'start') : main ? (sub ? 'top' : 'bottom') : sub ? 'right' : 'left',
              'range:position',
              () => `${c.type} position of ${dim} ${sub}`
            );
            for (const bv of [undefined, 0, 13]) {
              const pts = coord.getAxisPointsByDimension(dim, sub, rev, bv);
              ctx.compare();
              if (polar && main) {
                eq(pts, null, 'range:axis', () => `axis points of the angle`);
                continue;
              }
              let w: any[];
              if (polar) {
                const th = bv !== undefined ? bv : sub ? c.a[1] : c.a[0];
                // the ends of the axis are where the ends of the radius range are converted to
                w = c.r.map(r => coord.convert(tp ? { r: th, theta: r } : { r, theta: th }));
              } else if (main) {
                const y = bv !== undefined ? bv : sub ? c.s[1] : c.e[1];
                w = [{ x: c.s[0], y }, { x: c.e[0], y }];
              } else {
                const x = bv !== undefined ? bv : sub ? c.e[0] : c.s[0];
                w = [{ x, y: c.e[1] }, { x, y: c.s[1] }];
              }
              if (rev) w.reverse();
              ok(nearPt(pts[0], w[0]) && nearPt(pts[1], w[1]), 'range:axis', () => `${c.type} axis points of ${dim} sub=${sub} reversed=${rev} base=${bv}: ${show(pts)}, expected ${show(w)}`);
            }
          }
      }
      ctx.count('range configurations');
      ctx.state(['r', c]);
      return;
    }
    if (c.t === 'gram') {
      const label = c.ops.map(i => `${GOPS[i][0]}=${show(GOPS[i][1])}`).join(' > ');
      ctx.trace(label);
      const co: any = { start: [0, 0], end: [50, 30], transpose: false };
      const sig: any = { ...SIG0 };
      const v = view(gspec(c.type, co, sig));
      const g = v.getCoordinateById('co');
      const m: any = { ...co };
      for (const i of c.ops) {
        const [k, val] = GOPS[i];
        if (k === '!touch') g.commit();
        else if (k[0] === '!') {
          sig[k.slice(1)] = val;
          v.getSignalById(k.slice(1)).value(val);
        } else {
          m[k] = val;
          g[k](val);
        }
        v.run();
        ctx.step();
      }
      const got = observe(v, c.type);
      const def: any = {};
      for (const k of Object.keys(m)) if (m[k] !== undefined) def[k] = m[k];
      const w = view(gspec(c.type, def, sig));
      const want = observe(w, c.type);
      eq(got, want, 'gram', () => `${c.type} ${label}: differs from a fresh coordinate of the same specification`);
      // and the drawn marks are where the coordinate puts them
      const coord = g.output();
      const sx = v.getScaleById('sx').getScale(), sy = v.getScaleById('sy').getScale();
      const p = coord.convert({ x: sx.scale(3), y: sy.scale(4) });
      ok(near(got.marks[0][0], p.x) && near(got.marks[0][1], p.y), 'gram:draw', () => `${c.type} ${label}: symbol at ${show(got.marks[0])}, expected ${show(p)}`);
      releaseAll();
      ctx.compare(2);
      ctx.count('grammar histories');
      ctx.state(['g', c.type, got]);
      return;
    }
    if (c.t === 'draw') {
      const o = c.type === 'polar' ? { x: 50, y: 40 } : { x: 0, y: 0 };
      const co: any = { id: 'co', type: c.type };
      if (c.type === 'polar') co.origin = [50, 40];
      // the specification has one value per kind of transform, applied in the order translate, rotate, scale, transpose
      const chain: Tr[] = [];
      for (const k of ['translate', 'rotate', 'scale', 'transpose']) {
        const i = c.tr.find(j => TR[j].type === k);
        if (i === undefined) continue;
        chain.push(TR[i]);
        const t = TR[i];
        co[k] = t.offset ? [t.offset.x, t.offset.y] : t.scale ? [t.scale.x, t.scale.y] : t.angle !== undefined ? t.angle : true;
      }
      const pos: any = c.type === 'polar' ? { theta: { field: 'a' }, r: { field: 'b' } } : { x: { field: 'a' }, y: { field: 'b' } };
      if (c.mark === 'rule' || c.mark === 'rect') Object.assign(pos, c.type === 'polar' ? { theta1: 1, r1: { field: 'c' } } : { x1: 1, y1: { field: 'c' } });
      const rows = [{ a: 0.5, b: 10, c: 20, k: 1 }, { a: 2, b: 30, c: 3, k: 2 }];
      const enc = c.split ? { enter: pos, update: { fill: { signal: 'col' } } } : { update: { ...pos, fill: { signal: 'col' } } };
      const v = view({
        signals: [{ id: 'col', value: 'red' }],
        data: [{ id: 'd', values: rows }],
        coordinates: [co],
        marks: [{ type: c.mark, id: 'm', coordinate: 'co', from: { data: 'd' }, key: 'k', encode: enc }]
      });
      const f = conversion(c.type, o, chain);
      const tp = transposed(chain);
      const conv = (a: number, b: number) => (c.type === 'polar' ? (tp ? f({ x: Math.cos(b) * a, y: Math.sin(b) * a }) : f({ x: Math.cos(a) * b, y: Math.sin(a) * b })) : f({ x: a, y: b }));
      const judge = (when: string) => {
        const m = v.getMarkById('m');
        rows.forEach((r, i) => {
          const want = conv(r.a, r.b);
          const want1 = conv(1, r.c);
          let got: any;
          if (c.mark === 'line') got = attrs(m.elements[0]).points[i];
          else got = m.elements[i].getGraphicAttribute ? { ...attrs(m.elements[i]) } : attrs(m.elements[i]);
          if (c.mark === 'rect') {
            const end = { x: got.x1 ?? got.x + got.width, y: got.y1 ?? got.y + got.height };
            const box = (p: Pt, q: Pt) => [Math.min(p.x, q.x), Math.max(p.x, q.x), Math.min(p.y, q.y), Math.max(p.y, q.y)];
            ok(same(box(got, end), box(want, want1)), 'draw', () => `${c.mark} ${c.type} ${show(co)} ${when}: ${show(got)}, expected ${show([want, want1])}`);
          } else if (c.mark === 'rule') {
            const ps = got.points;
            ok(nearPt({ x: got.x + ps[0].x, y: got.y + ps[0].y }, want) && nearPt({ x: got.x + ps[1].x, y: got.y + ps[1].y }, want1), 'draw', () => `${c.mark} ${c.type} ${show(co)} ${when}: ${show(got)}, expected ${show([want, want1])}`);
          } else ok(nearPt(got, want), 'draw', () => `${c.mark} ${c.type} ${show(co)} ${when}: ${show(got)}, expected ${show(want)}`);
          ctx.compare();
        });
      };
      ctx.step();
      judge('at first');
      v.getSignalById('col').value('blue');
      v.run();
      judge('after another channel has changed');
      if (!c.split) {
        v.getDataById('d').values((rows[0].a = 1, rows[1].b = 5, rows.map(r => ({ ...r }))));
        v.run();
        judge('after new data');
        if (!('rotate' in co)) {
          v.getCoordinateById('co').rotate(TR[2].angle);
          chain.splice(chain.findIndex(t => t.type === 'translate') + 1, 0, TR[2]);
          const g = conversion(c.type, o, chain);
          v.run();
          const m = v.getMarkById('m');
          const want = c.type === 'polar' ? (tp ? g({ x: Math.cos(rows[0].b) * rows[0].a, y: Math.sin(rows[0].b) * rows[0].a }) : g({ x: Math.cos(rows[0].a) * rows[0].b, y: Math.sin(rows[0].a) * rows[0].b })) : g({ x: rows[0].a, y: rows[0].b });
          if (c.mark === 'symbol' || c.mark === 'text') ok(nearPt(attrs(m.elements[0]), want), 'draw:rotate', () => `${c.mark} ${c.type} ${show(co)} rotated afterwards: ${show(attrs(m.elements[0]))}, expected ${show(want)}`);
        }
      }
      releaseAll();
      ctx.count('drawn configurations');
      ctx.state(['d', c]);
    }
  }
});

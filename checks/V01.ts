// V01: venn diagrams show the sizes and memberships of their sets.
import { check, eq, ok, product, tuples, permutations, show } from '../lib/kit';
import { newView, releaseAll, VG } from '../lib/vg';
import { vennTransform, vennMarkTransform, registerVennTransforms, VennOverlapAnimation } from '@repo/vgrammar-venn/src/index';
import { getArcsFromPath, getCirclesFromArcs } from '@repo/vgrammar-venn/src/utils/path';

newView();
releaseAll();
registerVennTransforms();
void VG;
type Row = { s: string[]; v: number };
type Case = { rows: Row[]; box: [number, number, number, number]; o?: any; orders?: number[][]; names?: boolean; to?: Row[] };
type Circle = { x: number; y: number; r: number };

/** area common to two circles */
function lens(a: Circle, b: Circle): number {
  const d = Math.hypot(a.x - b.x, a.y - b.y);
  if (d >= a.r + b.r) return 0;
  if (d <= Math.abs(a.r - b.r)) return Math.PI * Math.min(a.r, b.r) ** 2;
  const f = (p: number, q: number) => {
    const c = (d * d + p * p - q * q) / (2 * d * p);
    return p * p * Math.acos(Math.max(-1, Math.min(1, c)));
  };
  const k = (-d + a.r + b.r) * (d + a.r - b.r) * (d - a.r + b.r) * (d + a.r + b.r);
  return f(a.r, b.r) + f(b.r, a.r) - 0.5 * Math.sqrt(Math.max(0, k));
}
/** distance of circles with a common area */
function apart(p: number, q: number, area: number): number {
  let lo = Math.abs(p - q);
  let hi = p + q;
  for (let i = 0; i < 200; i++) {
    const m = (lo + hi) / 2;
    if (lens({ x: 0, y: 0, r: p }, { x: m, y: 0, r: q }) > area) lo = m;
    else hi = m;
  }
  return (lo + hi) / 2;
}
/** polygon of a path of circular arcs, by the rules of SVG */
function flatten(path: string): [number, number][] {
  if (!path) return [];
  const t = path.match(/[MAZ]|-?[\d.]+(?:e[-+]?\d+)?/g) as string[];
  const out: [number, number][] = [];
  let i = 0;
  let x = 0;
  let y = 0;
  while (i < t.length) {
    const k = t[i++];
    if (k === 'M') {
      x = +t[i++];
      y = +t[i++];
      out.push([x, y]);
    } else if (k === 'A') {
      const [rx, ry, , large, sweep, ex, ey] = t.slice(i, (i += 7)).map(Number);
      ok(rx === ry, 'path', 'arcs are circular');
      const d = Math.hypot(ex - x, ey - y);
      const r = Math.max(rx, d / 2);
      if (d > 0) {
        const h = Math.sqrt(Math.max(0, r * r - (d / 2) ** 2)) * (large !== sweep ? 1 : -1);
        const cx = (x + ex) / 2 + (-(ey - y) / d) * h;
        const cy = (y + ey) / 2 + ((ex - x) / d) * h;
        const a0 = Math.atan2(y - cy, x - cx);
        let a1 = Math.atan2(ey - cy, ex - cx);
        if (sweep && a1 < a0) a1 += 2 * Math.PI;
        if (!sweep && a1 > a0) a1 -= 2 * Math.PI;
        for (let s = 1; s <= 64; s++) out.push([cx + r * Math.cos(a0 + ((a1 - a0) * s) / 64), cy + r * Math.sin(a0 + ((a1 - a0) * s) / 64)]);
      }
      x = ex;
      y = ey;
    } else eq(k, 'Z', 'path', 'command of the path');
  }
  return out;
}
function within(p: [number, number][], x: number, y: number): boolean {
  let r = false;
  for (let i = 0, j = p.length - 1; i < p.length; j = i++) if (p[i][1] > y !== p[j][1] > y && x < ((p[j][0] - p[i][0]) * (y - p[i][1])) / (p[j][1] - p[i][1]) + p[i][0]) r = !r;
  return r;
}
const input = (c: Case, rows: Row[]) => rows.map((r, i) => (c.names ? { groups: r.s.length === 1 ? r.s[0] : r.s, n: r.v, other: i } : { sets: r.s, size: r.v, other: i }));
const options = (c: Case) => ({ x0: c.box[0], y0: c.box[1], x1: c.box[2], y1: c.box[3], ...(c.names ? { setField: 'groups', valueField: 'n' } : {}), ...c.o });
const margin = (x: number, y: number, ins: Circle[], outs: Circle[]) =>
  Math.min(...ins.map(k => k.r - Math.hypot(x - k.x, y - k.y)), ...outs.map(k => Math.hypot(x - k.x, y - k.y) - k.r));

function one(c: Case, rows: Row[], ctx: any): any[] {
  const data = input(c, rows);
  const before = show(data);
  const out: any[] = vennTransform(options(c) as any, data as any) as any;
  eq(show(data), before, 'input', 'given rows');
  ctx.step();
  eq(out.length, rows.length, 'rows', 'number of areas');
  out.forEach((d, i) => {
    eq([d.sets, d.key, d.size, d.other, d.type], [rows[i].s, rows[i].s.join(), rows[i].v, i, rows[i].s.length === 1 ? 'circle' : 'overlap'], 'row', `area of row ${i}`);
    ok(d.datum === data[i], 'row', 'datum of an area');
  });
  (['circle', 'overlap'] as const).forEach(datumType => eq(vennMarkTransform({ datumType }, out as any).map((d: any) => d.other), out.filter(d => d.type === datumType).map(d => d.other), 'marks', `areas which are ${datumType}s`));
  const circles: Record<string, Circle> = {};
  out.forEach(d => d.type === 'circle' && (circles[d.key] = { x: d.x, y: d.y, r: d.radius }));
  const names = Object.keys(circles);
  const sizes: Record<string, number> = {};
  rows.forEach(r => r.s.length === 1 && (sizes[r.s[0]] = r.v));
  const pair = (a: string, b: string) => rows.find(r => r.s.length === 2 && r.s.includes(a) && r.s.includes(b))?.v ?? 0;
  const list = names.map(k => circles[k]);
  list.forEach(k => ok([k.x, k.y, k.r].every(n => isFinite(n)) && k.r >= 0, 'finite', `circle ${show(k)}`));
  ctx.state(names.map(k => [k, Math.round(circles[k].x * 8), Math.round(circles[k].y * 8), Math.round(circles[k].r * 8)]));
  const [x0, y0, x1, y1] = c.box;
  if (!list.length) return out;
  // the view is filled
  const bb = [Math.min(...list.map(k => k.x - k.r)), Math.min(...list.map(k => k.y - k.r)), Math.max(...list.map(k => k.x + k.r)), Math.max(...list.map(k => k.y + k.r))];
  const T = 1e-6;
  ok(bb[0] >= x0 - T && bb[1] >= y0 - T && bb[2] <= x1 + T && bb[3] <= y1 + T, 'inside', `circles reach ${bb}, the view is ${c.box}`);
  if (Math.max(...list.map(k => k.r)) > 0) {
    ok(Math.abs(bb[2] - bb[0] - (x1 - x0)) < T || Math.abs(bb[3] - bb[1] - (y1 - y0)) < T, 'fills', `circles reach ${bb}, the view is ${c.box}`);
    ok(Math.abs(bb[0] + bb[2] - x0 - x1) < T && Math.abs(bb[1] + bb[3] - y0 - y1) < T, 'centred', `circles reach ${bb}, the view is ${c.box}`);
  }
  // areas
  const biggest = names.reduce((a, b) => (sizes[b] > sizes[a] ? b : a));
  const scale = circles[biggest].r ** 2 / sizes[biggest];
  if (sizes[biggest] > 0) names.forEach(k => ok(Math.abs(circles[k].r ** 2 - sizes[k] * scale) < 1e-6 * circles[biggest].r ** 2, 'area', `areas ${names.map(n => circles[n].r ** 2)} of sizes ${names.map(n => sizes[n])}`));
  // common areas, when circles with them exist
  const gap: Record<string, [number, number, number]> = {};
  let exact = sizes[biggest] > 0;
  for (let i = 0; i < names.length; i++)
    for (let j = i + 1; j < names.length; j++) {
      const [p, q] = [names[i], names[j]].map(k => Math.sqrt(sizes[k] / Math.PI));
      const v = pair(names[i], names[j]);
      const least = Math.min(sizes[names[i]], sizes[names[j]]);
      if (v > least + 1e-9) exact = false;
      const d = v <= 0 ? [p + q, 1e9] : v >= least - 1e-9 ? [0, Math.abs(p - q)] : [apart(p, q, v), apart(p, q, v)];
      gap[`${i},${j}`] = [d[0], d[1], v];
    }
  if (names.length === 3) {
    const g = [gap['0,1'], gap['0,2'], gap['1,2']];
    g.forEach((a, i) => (exact = exact && a[0] <= g[(i + 1) % 3][1] + g[(i + 2) % 3][1] + 1e-9));
  }
  // three areas may contradict each other, and so do four circles
  const triples = rows.filter(r => r.s.length > 2);
  if (exact && !triples.length && names.length <= 3)
    for (let i = 0; i < names.length; i++)
      for (let j = i + 1; j < names.length; j++) {
        const real = lens(circles[names[i]], circles[names[j]]) / (Math.PI * scale);
        const want = pair(names[i], names[j]);
        const least = Math.min(sizes[names[i]], sizes[names[j]]);
        ok(Math.abs(real - want) <= (names.length === 2 ? 1e-4 : 0.01) * least + 1e-9, `common-${names.length}`, `common area of ${names[i]} and ${names[j]}: ${real} instead of ${want}`);
        ctx.compare();
      }
  // paths of the overlaps
  out.forEach((d, n) => {
    const ins = rows[n].s.map(k => circles[k]);
    const outs = names.filter(k => !rows[n].s.includes(k)).map(k => circles[k]);
    const poly = d.type === 'overlap' ? flatten(d.path) : null;
    const step = Math.max(x1 - x0, y1 - y0) / 40;
    let best = -1;
    let bestOuter = -1;
    const slack = step / 8;
    for (let x = x0 + step / 3; x < x1; x += step)
      for (let y = y0 + step / 3; y < y1; y += step) {
        const m = margin(x, y, ins, []);
        if (poly && Math.abs(m) > slack) ok(within(poly, x, y) === m > 0, 'region', `${x}, ${y} is ${m > 0 ? 'in all' : 'not in all'} of ${rows[n].s}, the path is ${d.path}`);
        best = Math.max(best, m);
        // circles around the region are no obstacles
        bestOuter = Math.max(bestOuter, margin(x, y, ins, outs));
        ctx.count('points');
      }
    if (d.type === 'overlap' && best > slack) {
      const back = getArcsFromPath(d.path);
      eq(back.map((a: any) => [a.p1, a.p2, a.radius, a.largeArcFlag]), d.arcs.map((a: any) => [{ x: a.p1.x, y: a.p1.y }, { x: a.p2.x, y: a.p2.y }, a.radius, a.largeArcFlag]), 'arcs', 'arcs of the path');
      d.arcs.forEach((a: any) => ok(circles[a.setId] && Math.abs(a.radius - circles[a.setId].r) < 1e-9, 'arcs', `arc ${show(a)}`));
      if (d.arcs.length > 1) getCirclesFromArcs(d.arcs).forEach((k: any) => ok(Math.hypot(k.x - circles[k.setId].x, k.y - circles[k.setId].y) < 1e-3, 'circles', `circle ${k.x}, ${k.y} of arcs of ${show(circles[k.setId])}`));
    }
    // labels
    if (sizes[biggest] > 0 && best > slack) {
      const m = margin(d.labelX, d.labelY, ins, []);
      ok(m > 0, 'label', `label of ${rows[n].s} at ${d.labelX}, ${d.labelY} is outside of its region by ${-m}`);
      if (bestOuter > step) {
        const mo = margin(d.labelX, d.labelY, ins, outs);
        ok(mo > 0, 'label-own', `label of ${rows[n].s} at ${d.labelX}, ${d.labelY} is in another set by ${-mo}, ${bestOuter} is possible`);
      }
    }
  });
  return out;
}
const at = (out: any[]) => out.map((d: any) => [d.key, d.type, Math.round(d.x * 1e3), Math.round(d.y * 1e3), Math.round((d.radius ?? 0) * 1e3)]).sort();

function run(c: Case, ctx: any) {
  const out = one(c, c.rows, ctx);
  (c.orders ?? []).forEach(o => {
    const again = one(c, o.map(i => c.rows[i]), ctx);
    const r = (l: any[]) => l.filter(d => d.type === 'circle').map(d => [d.key, Math.round(d.radius * 1e3)]).sort();
    if (c.rows.every(x => x.s.length <= 2) && c.rows.filter(x => x.s.length === 1).length < 3) eq(r(again), r(out), 'order', `circles of rows in order ${o}`);
  });
  eq(at(vennTransform(options(c) as any, input(c, c.rows) as any) as any), at(out), 'again', 'another layout');
  if (c.to) {
    // animated overlaps are the common areas of moving circles
    const end = one(c, c.to, ctx);
    out.forEach((from, i) => {
      const to = end[i];
      if (from.type !== 'overlap' || from.arcs.length < 2 || to.arcs.length < 2) return;
      const ids = from.sets as string[];
      if (new Set(from.arcs.map((a: any) => a.setId)).size < ids.length || new Set(to.arcs.map((a: any) => a.setId)).size < ids.length) return;
      const a: any = new VennOverlapAnimation({ path: from.path, arcs: from.arcs } as any, { path: to.path, arcs: to.arcs } as any, 1000, 'linear');
      a.onBind();
      const circle = (l: any[], k: string) => l.find(d => d.key === k);
      for (const ratio of [0, 0.25, 0.5, 0.75, 1]) {
        const frame: any = {};
        a.onUpdate(ratio === 1, ratio, frame);
        const ins = ids.map(k => ({ x: circle(out, k).x + (circle(end, k).x - circle(out, k).x) * ratio, y: circle(out, k).y + (circle(end, k).y - circle(out, k).y) * ratio, r: circle(out, k).radius + (circle(end, k).radius - circle(out, k).radius) * ratio }));
        const poly = flatten(frame.path);
        const step = Math.max(c.box[2] - c.box[0], c.box[3] - c.box[1]) / 25;
        for (let x = c.box[0]; x < c.box[2]; x += step)
          for (let y = c.box[1]; y < c.box[3]; y += step) {
            const m = margin(x, y, ins, []);
            if (Math.abs(m) > step / 8) ok(within(poly, x, y) === m > 0, 'frame', `at ${ratio}, ${x}, ${y} is ${m > 0 ? 'in all' : 'not in all'} of ${ids}, the path is ${frame.path}`);
          }
        ctx.step();
      }
    });
  }
}

const BOXES: [number, number, number, number][] = [[0, 0, 200, 200], [20, 50, 320, 130], [-40, 10, 40, 400]];
check<Case>({
  id: 'V01',
  level: 'exhaustive within bounds, on the real code',
  rule: 'areas of venn diagrams against their definition: circle areas, common areas, paths on a grid of points, labels in their regions, the view filled, in any order of the rows',
  assumptions: ['common areas of three circles are judged where circles with all of them exist', 'regions are compared at points away from their border'],
  *cases(ctx) {
    const deep = ctx.thorough;
    for (const box of BOXES) {
      yield { rows: [], box };
      for (const v of [0, 0.01, 1, 5, 1e6]) for (const names of [false, true]) yield { rows: [{ s: ['A'], v }], box, names };
    }
    // two sets
    const S2 = deep ? [0, 0.5, 1, 2, 4, 7, 9, 100] : [0, 1, 4, 9, 100];
    for (const [a, b] of tuples(S2, 2)) for (const f of [null, 0, 0.01, 0.3, 0.5, 0.9, 0.999, 1] as (number | null)[]) for (const box of BOXES) {
      if (!a || !b) if (f) continue;
      const rows: Row[] = [{ s: ['A'], v: a }, { s: ['B'], v: b }, ...(f === null ? [] : [{ s: ['A', 'B'], v: Math.min(a, b) * f }])];
      yield { rows, box, orders: [...permutations(rows.map((_, i) => i))], names: box === BOXES[1] };
      if (box === BOXES[0]) {
        if (f !== null) yield { rows: [rows[0], rows[1], { s: ['B', 'A'], v: rows[2].v }], box };
        for (const orientation of [0, 0.7, Math.PI, 3 * Math.PI / 2]) yield { rows, box, o: { orientation } };
        yield { rows: rows.map(r => ({ s: r.s.map(k => (k === 'A' ? 'zz' : 'a,b')), v: r.v })).filter(r => r.s.length === 1 || r.s.length === 2).map(r => ({ s: r.s.map(k => k.replace(',', ' ')), v: r.v })), box };
      }
    }
    // three sets
    const S3 = deep ? [1, 3, 4, 9, 25] : [1, 4, 9];
    const F3 = deep ? [0, 0.1, 0.25, 0.6, 1] : [0, 0.25, 0.6, 1];
    for (const [a, b, c] of tuples(S3, 3)) for (const [p, q, r] of tuples(F3, 3)) {
      const rows: Row[] = [{ s: ['A'], v: a }, { s: ['B'], v: b }, { s: ['C'], v: c }];
      if (p) rows.push({ s: ['A', 'B'], v: Math.min(a, b) * p });
      if (q) rows.push({ s: ['A', 'C'], v: Math.min(a, c) * q });
      if (r) rows.push({ s: ['B', 'C'], v: Math.min(b, c) * r });
      yield { rows, box: BOXES[(p * 100 + q) % 3 | 0] ?? BOXES[0], orders: [rows.map((_, i) => i).reverse()] };
      if (p && q && r) for (const t of [0.3, 0.8]) yield { rows: [...rows, { s: ['A', 'B', 'C'], v: Math.min(...rows.slice(3).map(x => x.v)) * t }], box: BOXES[0], ...(t === 0.3 ? { to: [...rows.slice(0, 3).map((x, i) => ({ s: x.s, v: x.v * (1 + i) })), ...rows.slice(3), { s: ['A', 'B', 'C'], v: 0.5 * Math.min(...rows.slice(3).map(x => x.v)) }] } : {}) };
    }
    // moving pairs
    for (const [a, b] of tuples([2, 5, 9], 2)) for (const [f, g] of tuples([0.2, 0.5, 0.9], 2)) {
      const rows: Row[] = [{ s: ['A'], v: a }, { s: ['B'], v: b }, { s: ['A', 'B'], v: Math.min(a, b) * f }];
      for (const [k, l] of tuples([2, 9], 2)) yield { rows, box: BOXES[0], to: [{ s: ['A'], v: k }, { s: ['B'], v: l }, { s: ['A', 'B'], v: Math.min(k, l) * g }] };
    }
    // groups of sets side by side
    for (const n of deep ? [4, 5, 6, 7, 8, 9] : [4, 5, 7])
      for (const sizes of [[1], [1, 4], [9, 1, 4]]) for (const linked of [0, 1, 2]) {
        const rows: Row[] = Array.from({ length: n }, (_, i) => ({ s: [`s${i}`], v: sizes[i % sizes.length] }));
        for (let i = 0; i < linked; i++) rows.push({ s: [`s${2 * i}`, `s${2 * i + 1}`], v: Math.min(rows[2 * i].v, rows[2 * i + 1].v) * 0.4 });
        yield { rows, box: BOXES[n % 3] };
      }
  },
  run,
  nontrivial: c => c.rows.length > 1
});
void product;

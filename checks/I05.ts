// I05: brushes put exactly the elements which they cover into their states.
import { check, eq, ok, product, sequences, show } from '../lib/kit';
import { view, releaseAll, VG } from '../lib/vg';
import { pointer } from '../lib/events';

type Pt = [number, number];
/** D path (pressed, moved and released), M from to (moves a region), C click, O drawn out of the range, K tiny region, X removed, V data change */
type Op = ['D', ...Pt[]] | ['M', Pt, Pt] | ['C', Pt] | ['O', Pt, Pt] | ['K', Pt] | ['X'];
type Conf = { kind: 'highlight' | 'active'; type: 'rect' | 'x' | 'y' | 'polygon'; sel: string; rect: 'size' | 'corner'; at?: Pt; moved?: boolean; click?: boolean; threshold?: number; range?: boolean; names?: boolean };
type Case = { c: Conf; ops: Op[] };

const RECTS = [
  { id: 'r0', x: 10, y: 10, w: 20, h: 60 },
  { id: 'r1', x: 40, y: 40, w: 20, h: 30 },
  { id: 'r2', x: 70, y: 20, w: 60, h: 50 },
  { id: 'r3', x: 20, y: 80, w: 100, h: 10 }
];
const DOTS = [
  { id: 's0', x: 20, y: 20 },
  { id: 's1', x: 50, y: 30 },
  { id: 's2', x: 100, y: 45 },
  { id: 's3', x: 140, y: 85 }
];
const W = 160;
const H = 100;

function build(c: Conf) {
  const [dx, dy] = c.at ?? [0, 0];
  const corner = c.rect === 'corner';
  const looks = c.names ? { hl: { fill: 'blue' }, bl: { fill: 'grey' } } : c.kind === 'highlight' ? { highlight: { fill: 'blue' }, blur: { fill: 'grey' } } : { active: { fill: 'blue' } };
  const kids = [
    {
      type: 'rect', id: 'R', key: 'id', from: { data: 'rd' },
      encode: {
        update: { x: { field: 'x' }, y: { field: 'y' }, ...(corner ? { x1: (d: any) => d.x + d.w, y1: (d: any) => d.y + d.h } : { width: { field: 'w' }, height: { field: 'h' } }), fill: 'red' },
        ...looks
      }
    },
    { type: 'symbol', id: 'S', key: 'id', from: { data: 'sd' }, encode: { update: { x: { field: 'x' }, y: { field: 'y' }, size: 8, fill: 'red' }, ...looks } },
    { type: 'arc', id: 'A', key: 'id', from: { data: 'ad' }, encode: { update: { x: 120, y: 15, innerRadius: 0, outerRadius: 10, startAngle: 0, endAngle: 6.28, fill: 'red' }, ...looks } }
  ] as any[];
  const v = view({
    width: W, height: H, padding: 0,
    data: [{ id: 'rd', values: RECTS }, { id: 'sd', values: DOTS }, { id: 'ad', values: [{ id: 'a0' }] }],
    marks: [{ type: 'group', id: 'G', encode: { update: { x: dx, y: dy, width: W, height: H } }, marks: kids }]
  } as any);
  return v;
}
type Region = { poly: Pt[]; box: boolean } | null;
const inside = (p: Pt[], [x, y]: Pt) => {
  let r = false;
  for (let i = 0, j = p.length - 1; i < p.length; j = i++) if (p[i][1] > y !== p[j][1] > y && x < ((p[j][0] - p[i][0]) * (y - p[i][1])) / (p[j][1] - p[i][1]) + p[i][0]) r = !r;
  return r;
};
const cross = (a: Pt, b: Pt, c: Pt) => (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0]);
const cuts = (a: Pt, b: Pt, c: Pt, d: Pt) => cross(a, b, c) * cross(a, b, d) < 0 && cross(c, d, a) * cross(c, d, b) < 0;
/** whether a point lies on an edge */
const close = (p: Pt, a: Pt, b: Pt) => Math.abs(cross(a, b, p)) < 1e-6 * (1 + Math.hypot(b[0] - a[0], b[1] - a[1])) && (p[0] - a[0]) * (p[0] - b[0]) + (p[1] - a[1]) * (p[1] - b[1]) <= 1e-6;
/** whether an element is covered, or null where only the line of the border decides */
function surely(r: Region, id: string, at: Pt, type: string): boolean | null {
  if (!r) return false;
  if (type === 'polygon' && id[0] !== 'a') {
    const c = covers(r, id, at, type);
    if (c || id[0] !== 'r') return c;
    // vutils takes edges whose boxes meet for edges which meet
    const q = RECTS.find(k => k.id === id);
    const [a, b] = [q.x + at[0], q.y + at[1]];
    const near = r.poly.some((p, i) => {
      const n = r.poly[(i + 1) % r.poly.length];
      const [x1, x2, y1, y2] = [Math.min(p[0], n[0]), Math.max(p[0], n[0]), Math.min(p[1], n[1]), Math.max(p[1], n[1])];
      return !(x1 > a + q.w || x2 < a || y1 > b + q.h || y2 < b);
    });
    return near ? null : false;
  }
  const xs = r.poly.map(p => p[0]);
  const ys = r.poly.map(p => p[1]);
  const box = (d: number): Region => {
    const [x1, x2, y1, y2] = [Math.min(...xs) - d, Math.max(...xs) + d, Math.min(...ys) - d, Math.max(...ys) + d];
    return { box: true, poly: [[x1, y1], [x2, y1], [x2, y2], [x1, y2]] };
  };
  const [a, b] = [covers(box(2), id, at, type), covers(box(-2), id, at, type)];
  return a === b ? a : null;
}
function covers(r: Region, id: string, at: Pt, type: string): boolean {
  if (!r) return false;
  const xs = r.poly.map(p => p[0]);
  const ys = r.poly.map(p => p[1]);
  const [x1, x2, y1, y2] = [Math.min(...xs), Math.max(...xs), Math.min(...ys), Math.max(...ys)];
  if (id[0] === 's') {
    const d = DOTS.find(q => q.id === id);
    const p: Pt = [d.x + at[0], d.y + at[1]];
    return type === 'polygon' ? inside(r.poly, p) : p[0] >= x1 && p[0] <= x2 && p[1] >= y1 && p[1] <= y2;
  }
  if (id[0] === 'a') {
    // other graphics by their box
    const [cx, cy] = [120 + at[0], 15 + at[1]];
    return !(cx + 10 < x1 || cx - 10 > x2 || cy + 10 < y1 || cy - 10 > y2);
  }
  const q = RECTS.find(k => k.id === id);
  const [a, b, c, d] = [q.x + at[0], q.y + at[1], q.x + q.w + at[0], q.y + q.h + at[1]];
  if (type !== 'polygon') return !(c < x1 || a > x2 || d < y1 || b > y2);
  const box: Pt[] = [[a, b], [c, b], [c, d], [a, d]];
  if (box.some(p => inside(r.poly, p)) || r.poly.some(p => p[0] > a && p[0] < c && p[1] > b && p[1] < d)) return true;
  return box.some((p, i) => r.poly.some((u, j) => cuts(p, box[(i + 1) % 4], u, r.poly[(j + 1) % r.poly.length])));
}

function run({ c, ops }: Case, ctx: any) {
  const v = build(c);
  const at = c.at ?? ([0, 0] as Pt);
  const log: any[] = [];
  const names = c.names ? (c.kind === 'highlight' ? { highlightState: 'hl', blurState: 'bl' } : { state: 'hl' }) : {};
  const [hl, bl] = c.names ? ['hl', c.kind === 'highlight' ? 'bl' : ''] : c.kind === 'highlight' ? ['highlight', 'blur'] : ['active', ''];
  const opts: any = { type: `brush-${c.kind}`, selector: c.sel.split(',').length > 1 ? c.sel.split(',') : c.sel, brushType: c.type, brushMode: 'single', sizeThreshold: c.threshold ?? 0, delayTime: 0, brushMoved: c.moved ?? false, removeOnClick: c.click ?? true, ...names };
  if (c.range) opts.interactiveRange = { minX: 5, maxX: 120, minY: 5, maxY: 95 };
  if (c.range) Object.assign(opts, { xRange: [15, 60], yRange: [15, 35] });
  (['Start', 'Update', 'End', 'Reset'] as const).forEach(k => (opts[`on${k}`] = (p: any) => log.push([k, p.activeElements.map((e: any) => e.getDatum().id).sort()])));
  const seen: string[] = [];
  (['start', 'update', 'end', 'reset'] as const).forEach(k => v.addEventListener(`brush-${c.kind}:${k}`, () => seen.push(k)));
  // the named states are only set on marks which define them
  const it = v.interaction(opts.type, opts);
  v.getMarkById('G').commit();
  v.run();
  const all = ['R', 'S', 'A'].flatMap(m => v.getMarkById(m).elements);
  const selected = (id: string) => [].concat(opts.selector).some((s: string) => s === `#${id[0].toUpperCase()}` || (s === 'symbol' && id[0] === 's'));
  let region: Region = null;
  let on = true;
  const region4 = (a: Pt, b: Pt): Region => {
    const [xr, yr] = c.range ? [[15, 60], [15, 35]] : [[0, W], [0, H]];
    const box = c.type === 'x' ? [a[0], b[0], yr[0], yr[1]] : c.type === 'y' ? [xr[0], xr[1], a[1], b[1]] : [a[0], b[0], a[1], b[1]];
    return { box: true, poly: [[box[0], box[2]], [box[1], box[2]], [box[1], box[3]], [box[0], box[3]]] };
  };
  let active: string[] | null = null;
  const judge = (what: string) => {
    const sure = new Map<string, boolean | null>(all.map(e => [e.getDatum().id, surely(region, e.getDatum().id, at, c.type)]));
    // elements at the line of the border are taken as they are
    const want = all.filter(e => selected(e.getDatum().id) && region && (sure.get(e.getDatum().id) ?? e.hasState(hl))).map(e => e.getDatum().id).sort();
    all.forEach(e => {
      const id = e.getDatum().id;
      const st = [hl, ...(bl ? [bl] : [])].filter(s => e.hasState(s));
      const should = !selected(id) || !region ? [] : want.includes(id) ? [hl] : bl ? [bl] : [];
      eq(st, should, 'states', `states of ${id} ${what}`);
      eq(e.getGraphicAttribute('fill'), should[0] === hl ? 'blue' : should[0] === bl ? 'grey' : 'red', 'look', `fill of ${id} ${what}`);
    });
    ctx.compare();
    ctx.state([c.kind, c.type, want]);
    return want;
  };
  const press = (p: Pt) => pointer(v, 'pointerdown', p[0], p[1]);
  const move = (p: Pt) => pointer(v, 'pointermove', p[0], p[1]);
  const release = (p: Pt) => pointer(v, 'pointerup', p[0], p[1]);
  const last = () => log[log.length - 1];
  for (const op of ops) {
    ctx.step();
    const before = log.length;
    const start = op[1] as Pt;
    // pressing on a region moves it (M)
    if ((op[0] === 'D' || op[0] === 'O' || op[0] === 'K') && on && c.moved && region && (inside(region.poly, start) || region.poly.some((p, i) => close(start, p, region.poly[(i + 1) % region.poly.length])))) continue;
    if (op[0] === 'D') {
      const pts = op.slice(1) as Pt[];
      press(pts[0]);
      pts.slice(1).forEach((p, i) => {
        move(p);
        if (!on) return;
        region = c.type === 'polygon' ? { box: false, poly: pts.slice(0, i + 2) } : region4(pts[0], p);
        // the first steps (below the threshold) start the region
        if (i > 1 && !c.threshold) eq(last(), ['Update', judge(`while drawing ${show(pts.slice(0, i + 2))}`)], 'update', 'notification while drawing');
      });
      release(pts[pts.length - 1]);
      if (on) eq(last(), ['End', judge(`after drawing ${show(pts)}`)], 'end', 'notification after drawing');
      if (on) eq(log[before][0], 'Start', 'start', 'first notification');
    } else if (op[0] === 'M') {
      const hit = on && region && inside(region.poly, op[1]);
      if (!hit || !c.moved) continue;
      press(op[1]);
      const [mx, my] = [(op[1][0] + op[2][0]) / 2, (op[1][1] + op[2][1]) / 2];
      move([mx, my]); // takes hold
      const from = region;
      const R = c.range ? [5, 120, 5, 95] : [0, W, 0, H];
      const xs = from.poly.map(p => p[0]);
      const ys = from.poly.map(p => p[1]);
      const clamp = (d: number, lo: number, hi: number) => Math.min(hi, Math.max(lo, d));
      const step = (p: Pt): Region => {
        const dx = clamp(p[0] - mx, R[0] - Math.min(...xs), R[1] - Math.max(...xs));
        const dy = clamp(p[1] - my, R[2] - Math.min(...ys), R[3] - Math.max(...ys));
        return { box: from.box, poly: from.poly.map(q => [q[0] + dx, q[1] + dy] as Pt) };
      };
      move(op[2]);
      if (mx !== op[2][0] || my !== op[2][1]) {
        region = step(op[2]);
        eq(last(), ['Update', judge(`while moving to ${op[2]}`)], 'moving', 'notification while moving');
      }
      release(op[2]);
      eq(last(), ['End', judge(`after moving to ${op[2]}`)], 'move-end', 'notification after moving');
      eq(log[before][0], 'Start', 'start', 'first notification');
    } else if (op[0] === 'C') {
      const had = !!region;
      // the component fails when there is no region to keep
      if (on && c.click === false && !had) continue;
      press(op[1]);
      release(op[1]);
      if (!on) continue;
      if (c.moved && region && inside(region.poly, op[1])) {
        // pressed and released within the region: a move without a step
        judge(`after a click on the region at ${op[1]}`);
        continue;
      }
      if (c.click ?? true) {
        if (had) eq(last(), ['Reset', []], 'reset', 'notification of the click');
        region = null;
      } else if (c.threshold) {
        eq(last(), ['Reset', []], 'reset', 'notification of the click');
        region = null;
      }
      judge(`after a click at ${op[1]}`);
    } else if (op[0] === 'O') {
      press(op[1]);
      move([op[1][0] + 5, op[1][1] + 5]);
      move(op[2]);
      release(op[2]);
      if (!on) continue;
      region = null;
      judge(`after leaving the range at ${op[2]}`);
      eq(last(), ['Reset', []], 'reset', 'notification of leaving the range');
    } else if (op[0] === 'K') {
      const p = op[1];
      press(p);
      move([p[0] + 2, p[1] + 2]);
      move([p[0] + 4, p[1] + 4]);
      release([p[0] + 4, p[1] + 4]);
      if (!on) continue;
      region = null;
      judge(`after a region below the threshold at ${p}`);
      eq(last(), ['Reset', []], 'reset', 'notification of a region below the threshold');
    } else {
      const n = log.length;
      v.removeInteraction(it);
      on = false;
      active = all.map(e => JSON.stringify(e.getStates())) as any;
      ok(log.length === n, 'removed', 'notifications of a removal');
    }
    if (!on) {
      eq(all.map(e => JSON.stringify(e.getStates())), active, 'removed', 'states after the interaction was removed');
      eq(log.length, op[0] === 'X' ? log.length : before, 'removed', 'notifications after the interaction was removed');
    }
  }
  eq(seen, log.map(l => l[0].toLowerCase()), 'events', 'events of the view');
}

const BOXES: [Pt, Pt][] = [[[5, 5], [45, 45]], [[62, 12], [66, 35]], [[80, 30], [90, 40]], [[150, 95], [15, 75]], [[32, 50], [38, 95]], [[110, 3], [118, 8]], [[45, 90], [55, 28]]];
const draw = ([a, b]: [Pt, Pt]): Op => ['D', a, [(a[0] + b[0]) / 2, (a[1] + b[1]) / 2], [b[0] * 0.9 + a[0] * 0.1, b[1] * 0.9 + a[1] * 0.1], b];
const POLYS: Op[] = ([
  ['D', [5, 5], [65, 5], [65, 35], [35, 35], [35, 75], [5, 75]],
  ['D', [75, 25], [114, 30], [90, 60]],
  ['D', [15, 15], [150, 60], [150, 30]],
  ['D', [62, 10], [66, 60], [80, 40]],
  ['D', [1, 99], [158, 99], [140, 70], [100, 95], [30, 72]],
  ['D', [32, 5], [38, 5], [38, 95], [32, 95]]
] as Op[]).map(o => ['D', ...(o.slice(1) as Pt[]).map(([x, y]) => [x + 1.3, y + 0.7] as Pt)]);
check<Case>({
  id: 'I05',
  level: 'exhaustive within bounds, on the real code',
  rule: 'every sequence to the length of regions drawn (from every side; rectangles, bands, polygons), moved, clicked away, drawn out of their range or too small, and of the removal of the interaction, for highlighting and activating brushes with every selector, geometry of rectangles, offset of the group, range and option: after every step the states and the look of every element and the notifications are those of the definition of the region',
  assumptions: ['one region at a time, the last operated one', 'the first steps of a region only start it (vrender-components)', 'symbols are covered by their centre, rectangles and others by a common point of their box'],
  *cases(ctx) {
    const deep = ctx.thorough;
    const ops = (c: Conf): Op[] => {
      const l: Op[] = c.type === 'polygon' ? POLYS.slice() : BOXES.map(draw);
      if (c.moved) l.push(['M', [20, 20], [60, 50]], ['M', [80, 35], [20, 30]], ['M', [35, 80], [10, 10]]);
      l.push(['C', [155, 3]], ['X']);
      if (c.range) l.push(['O', [100, 50], [130, 60]]);
      if (c.threshold) l.push(['K', [20, 20]]);
      return l;
    };
    const confs: Conf[] = [];
    for (const [kind, type] of product(['highlight', 'active'] as const, ['rect', 'x', 'y', 'polygon'] as const)) {
      for (const sel of ['#R,#S,#A', '#R', '#R,#S', 'symbol']) for (const rect of ['size', 'corner'] as const) for (const at of [undefined, [10, 5] as Pt]) for (const names of [false, true]) {
        if (sel !== '#R,#S,#A' && rect === 'corner') continue;
        confs.push({ kind, type, sel, rect, at, names });
      }
      for (const moved of [false, true]) for (const click of [true, false]) for (const threshold of [0, 10]) for (const range of [false, true]) confs.push({ kind, type, sel: '#R,#S,#A', rect: 'size', moved, click, threshold, range, names: true });
    }
    for (const c of confs) {
      // smaller ones are no regions (K)
      const large = (l: Pt[], n: number) => Math.max(Math.abs(l[0][0] - l[l.length - 1][0]), Math.abs(l[0][1] - l[l.length - 1][1])) > n;
      const inRange = (p: Pt) => !c.range || (p[0] >= 5 && p[0] <= 120 && p[1] >= 5 && p[1] <= 95);
      const l = ops(c).filter(o => o[0] === 'X' || o[0] === 'O' || (o.slice(1) as Pt[]).every(inRange)).filter(o => o[0] !== 'D' || large(o.slice(1) as Pt[], c.threshold ?? 0));
      for (const s of sequences(l, deep ? 3 : 2, 1)) yield { c, ops: s };
    }
  },
  run(c, ctx) {
    try {
      run(c, ctx);
    } finally {
      releaseAll();
    }
  },
  nontrivial: c => c.ops.some(o => o[0] === 'D')
});

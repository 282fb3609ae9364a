// L01: plots draw one element per row, where their scales put it; later changes give the picture of a new plot.
import { check, eq, ok, product, show } from '../lib/kit';
import { newView, releaseAll, vtime, Canvas } from '../lib/vg';
import { Plot } from '@repo/vgrammar-plot/src/plot-all';
import { fire } from '../lib/events';
import { LegendEvent } from '@visactor/vrender-components';
import { BandScale, PointScale, LinearScale } from '@visactor/vscale';

newView();
releaseAll();
type Row = Record<string, any>;
type Mark = { t: string; x?: any; y?: any; color?: string; group?: string; stroke?: string; size?: string; shape?: string; text?: string; data: number; style?: any; scale?: Record<string, any>; axis?: string[]; grid?: string[]; legend?: string };
type Coord = ['cartesian' | 'polar', any] | null;
type Prog = { marks: Mark[]; coord: Coord; size: [number, number]; title?: boolean };
type Op = ['run'] | ['data', number] | ['encode', string, string] | ['style', any] | ['scale', string, any] | ['resize', number, number] | ['add', Mark] | ['coord', Coord] | ['filter', string[]] | ['spec', Prog];
type Case = { p: Prog; ops: Op[]; bySpec?: boolean };

const DATA: Row[][] = [
  [{ a: 'p', b: 2, c: 'u', d: 7, e: 1 }, { a: 'q', b: 5, c: 'v', d: 6, e: 9 }, { a: 'r', b: 4, c: 'v', d: -1, e: 4 }],
  [{ a: 'p', b: 3, c: 'u', d: 1, e: 2 }, { a: 'p', b: 1, c: 'v', d: 9, e: 3 }, { a: 'q', b: -2, c: 'u', d: 3, e: 5 }, { a: 'q', b: 6, c: 'v', d: 2, e: 1 }],
  [{ a: 'z', b: 4, c: 'w', d: 5, e: 5 }],
  [],
  [{ a: 'q', b: -3, c: 'v', d: -7, e: 2 }, { a: 'p', b: -1, c: 'u', d: -4, e: 3 }, { a: 'q', b: -8, c: 'w', d: -2, e: 8 }, { a: 's', b: -2, c: 'v', d: -9, e: 1 }, { a: 'p', b: -5, c: 'w', d: -3, e: 1 }]
];
const PALETTE = ['#6690F2', '#70D6A3', '#B4E6E2', '#63B5FC', '#FF8F62', '#FFDC83', '#BCC5FD', '#A29BFE', '#63C4C7', '#F68484'];
const uniq = (l: any[]) => [...new Set(l)];
const fields = (f: any): string[] => (f === undefined ? [] : Array.isArray(f) ? f : [f]);
const BAND = ['interval', 'rect', 'rectX'];

function build(p: Prog): { plot: any; marks: any[] } {
  const plot: any = new Plot({ width: p.size[0], height: p.size[1], mode: 'node', dpr: 1, hover: false, modeParams: { createCanvas: Canvas.createCanvas, createImageData: Canvas.createImageData, loadImage: Canvas.loadImage, Resvg: null } } as any);
  plots.push(plot);
  if (p.coord) plot.coordinate(p.coord[0], p.coord[1]);
  const marks = p.marks.map(m => add(plot, m));
  if (p.title) marks[0].title({ text: 'title' });
  return { plot, marks };
}
/** the same plot, written as a spec */
function specOf(p: Prog): any {
  const on = (l?: string[]) => (l && l.length ? Object.fromEntries(l.map(c => [c, true])) : undefined);
  const spec: any = { width: p.size[0], height: p.size[1] };
  if (p.coord) spec.coordinate = { type: p.coord[0], ...p.coord[1] };
  spec.marks = p.marks.map((m, i) => {
    const k: any = { type: m.t, data: { values: DATA[m.data].map(r => ({ ...r })), id: `data${m.data}` }, encode: {} };
    (['x', 'y', 'color', 'group', 'stroke', 'size', 'shape', 'text'] as const).forEach(c => m[c] !== undefined && (k.encode[c] = m[c]));
    if (m.style) k.style = { ...m.style };
    if (m.scale) k.scale = JSON.parse(JSON.stringify(m.scale));
    if (on(m.axis)) k.axis = on(m.axis);
    if (on(m.grid)) k.grid = on(m.grid);
    if (m.legend) k.legend = { [m.legend]: true };
    if (p.title && !i) k.title = { text: 'title' };
    return k;
  });
  return spec;
}
const plots: any[] = [];
function add(plot: any, m: Mark): any {
  const k = plot[m.t]();
  k.data(DATA[m.data].map(r => ({ ...r })), undefined, `data${m.data}`);
  (['x', 'y', 'color', 'group', 'stroke', 'size', 'shape', 'text'] as const).forEach(c => m[c] !== undefined && k.encode(c, m[c]));
  if (m.style) k.style({ ...m.style });
  Object.keys(m.scale ?? {}).forEach(c => k.scale(c, { ...(m.scale as any)[c] }));
  (m.axis ?? []).forEach(c => k.axis(c));
  (m.grid ?? []).forEach(c => k.grid(c));
  if (m.legend) k.legend(m.legend);
  return k;
}

/** scales by their definition: the rows of all the marks which share them */
function scales(p: Prog, W: number, H: number, kept: Row[][]) {
  const polar = p.coord?.[0] === 'polar';
  const transpose = !!p.coord?.[1]?.transpose;
  const R = Math.min(W, H) / 2;
  const range: Record<string, number[]> = polar
    ? transpose ? { x: [0, R], y: [0, 2 * Math.PI] } : { x: [0, 2 * Math.PI], y: [0, R] }
    : transpose ? { x: [H, 0], y: [0, W] } : { x: [0, W], y: [H, 0] };
  const result: Record<string, any> = {};
  (['x', 'y'] as const).forEach(c => {
    const first = p.marks.find(m => m[c] !== undefined);
    if (!first) return;
    const own = Object.assign({}, ...p.marks.map(m => m.scale?.[c] ?? {}));
    const type = own.type ?? (c === 'x' ? (BAND.includes(first.t) ? 'band' : 'point') : 'linear');
    const values: any[] = [];
    // values of a data set come together, in the order of the marks
    const sets: [number, string[]][] = [];
    p.marks.forEach((m, i) => {
      if (m[c] === undefined) return;
      const s = sets.find(k => p.marks[k[0]].data === m.data);
      if (s) s[1].push(...fields(m[c]));
      else sets.push([i, fields(m[c]).slice()]);
    });
    sets.forEach(([i, fs]) => (type === 'linear' ? fs.forEach(f => kept[i].forEach(r => values.push(r[f]))) : fs.forEach(f => kept[i].forEach(r => values.push(r[f])))));
    if (type === 'linear') {
      const domain = own.domain ?? (values.length ? [Math.min(...values), Math.max(...values)] : null);
      result[c] = domain && new LinearScale().domain(domain).range(range[c]);
    } else {
      const s: any = type === 'band' ? new BandScale() : new PointScale();
      result[c] = s.domain(own.domain ?? uniq(values)).range(range[c]);
      if (own.padding !== undefined) s.padding(own.padding);
    }
  });
  return result;
}
const base = (s: any) => {
  const d = s.domain();
  const [lo, hi] = [Math.min(...d), Math.max(...d)];
  return s.scale(lo > 0 ? lo : hi < 0 ? hi : 0);
};

/** what a mark is expected to draw */
function expected(p: Prog, i: number, W: number, H: number, S: any, kept: Row[][]): any[] {
  const m = p.marks[i];
  const rows = kept[i];
  const mid = (s: any, v: any) => s.scale(v) + (s.type === 'band' ? s.bandwidth() * 0.5 : 0);
  const polar = p.coord?.[0] === 'polar';
  const transpose = !!p.coord?.[1]?.transpose;
  const at = (x: number, y: number): { x: number; y: number } => {
    if (polar) {
      const [a, r] = transpose ? [y, x] : [x, y];
      return { x: W / 2 + r * Math.cos(a), y: H / 2 + r * Math.sin(a) };
    }
    return transpose ? { x: y, y: x } : { x, y };
  };
  const paint = (r: Row) => {
    const f = m.color ?? m.group;
    // colours belong to the values of all the marks, before they are filtered
    if (!f) return (m.style && (m.style.fill ?? m.style.stroke)) ?? PALETTE[0];
    const channel = m.color ? 'color' : 'group';
    const own = Object.assign({}, ...p.marks.map(k => k.scale?.[channel] ?? {}));
    const values: any[] = [];
    const sets: [number, string[]][] = [];
    p.marks.forEach(k => {
      const g = (k as any)[channel];
      if (g === undefined) return;
      const s = sets.find(q => q[0] === k.data);
      if (s) s[1].push(g);
      else sets.push([k.data, [g]]);
    });
    sets.forEach(([d, fs]) => fs.forEach(g => DATA[d].forEach(q => values.push(q[g]))));
    const l = own.range ?? PALETTE;
    return l[uniq(values).indexOf(r[f]) % l.length];
  };
  const box = (x: number, x1: number, y: number, y1: number) => {
    if (polar && m.t === 'interval') {
      const [a, a1, r, r1] = transpose ? [y, y1, x, x1] : [x, x1, y, y1];
      return { x: W / 2, y: H / 2, startAngle: a, endAngle: a1, innerRadius: r, outerRadius: r1 };
    }
    const [u, v] = [at(x, y), at(x1, y1)];
    return { x: Math.min(u.x, v.x), y: Math.min(u.y, v.y), x1: Math.max(u.x, v.x), y1: Math.max(u.y, v.y) };
  };
  const groups = uniq(rows.map(r => (m.group ? r[m.group] : 0)));
  switch (m.t) {
    case 'interval':
      return rows.map(r => {
        const bw = S.x.bandwidth();
        const slot = (bw * 0.8) / groups.length;
        const g = groups.indexOf(m.group ? r[m.group] : 0);
        const x = S.x.scale(r[m.x]) + bw * 0.1 + slot * g;
        const ys = fields(m.y);
        return { ...box(x, x + slot, S.y.scale(r[ys[0]]), ys.length > 1 ? S.y.scale(r[ys[1]]) : base(S.y)), fill: paint(r) };
      });
    case 'rect':
    case 'rectX':
    case 'rectY':
      return rows.map(r => {
        const side = (c: 'x' | 'y') => {
          const f = fields(m[c]);
          const s = S[c];
          if (m.t === 'rectX' && c === 'y') return [0, H];
          if (m.t === 'rectY' && c === 'x') return [0, W];
          if (f.length > 1) return f.slice(0, 2).map(k => (s.type === 'band' && m.t !== 'rect' ? mid(s, r[k]) : s.scale(r[k])));
          return s.type === 'linear' ? [s.scale(r[f[0]]), base(s)] : [s.scale(r[f[0]]), s.scale(r[f[0]]) + s.bandwidth()];
        };
        const [x, x1] = side('x');
        const [y, y1] = side('y');
        return { ...box(x, x1, y, y1), fill: paint(r) };
      });
    case 'symbol':
    case 'cell':
    case 'text':
      return rows.map(r => ({ ...at(mid(S.x, r[m.x]), mid(S.y, r[m.y])), fill: paint(r), ...(m.text ? { text: r[m.text] } : {}) }));
    case 'line':
    case 'area':
      return groups.map(g => {
        const own = rows.filter(r => !m.group || r[m.group] === g);
        return {
          points: own.map(r => {
            const ys = fields(m.y);
            const xs = fields(m.x);
            const u = at(mid(S.x, r[xs[0]]), mid(S.y, r[ys[0]]));
            if (m.t === 'line') return u;
            const v = at(mid(S.x, r[xs[1] ?? xs[0]]), ys.length > 1 ? mid(S.y, r[ys[1]]) : xs.length > 1 ? mid(S.y, r[ys[0]]) : base(S.y));
            return { ...u, x1: v.x, y1: v.y };
          })
        };
      });
    case 'ruleX':
      return rows.map(r => ({ points: [{ x: mid(S.x, r[m.x]), y: 0 }, { x: mid(S.x, r[m.x]), y: H }], stroke: paint(r) }));
    case 'ruleY':
      return rows.map(r => ({ points: [{ x: 0, y: mid(S.y, r[m.y]) }, { x: W, y: mid(S.y, r[m.y]) }], stroke: paint(r) }));
    case 'rule':
      return rows.map(r => {
        const [x, y] = [fields(m.x), fields(m.y)];
        return { points: [{ x: mid(S.x, r[x[0]]), y: mid(S.y, r[y[0]]) }, { x: mid(S.x, r[x[1] ?? x[0]]), y: mid(S.y, r[y[1] ?? y[0]]) }], stroke: paint(r) };
      });
    case 'image':
      return rows.map(r => {
        const side = (c: 'x' | 'y', n: number) => {
          const f = fields(m[c]);
          return f.length > 1 ? [Math.min(S[c].scale(r[f[0]]), S[c].scale(r[f[1]])), Math.abs(S[c].scale(r[f[0]]) - S[c].scale(r[f[1]]))] : [S[c].scale(r[f[0]]) - n / 2, n];
        };
        const [x, width] = side('x', m.style?.width ?? 10);
        const [y, height] = side('y', m.style?.height ?? 10);
        return { x, y, width, height };
      });
    case 'polygon':
      return rows.map(r => ({ points: m.x.map((k: string, j: number) => ({ x: S.x.scale(r[k]), y: S.y.scale(r[m.y[j]]) })), fill: paint(r) }));
    case 'path':
      return rows.map(r => ({ path: m.style.path, fill: paint(r) }));
  }
  throw new Error(m.t);
}
const num = (v: any) => (typeof v === 'number' ? Math.round(v * 1e4) / 1e4 + 0 : v);
const like = (real: any, want: any): any => {
  if (Array.isArray(want)) return Array.isArray(real) ? real.map((r, i) => (want[i] === undefined ? r : like(r, want[i]))) : real;
  if (want && typeof want === 'object') return Object.fromEntries(Object.keys(want).map(k => [k, like(real?.[k], want[k])]));
  return num(real);
};
const plain = (v: any): any => (Array.isArray(v) ? v.map(plain) : v && typeof v === 'object' ? Object.fromEntries(Object.keys(v).map(k => [k, plain(v[k])])) : num(v));

function drawn(mark: any): any[] {
  return mark.elements.map((e: any) => {
    const a = e.getGraphicItem().attribute;
    const r: any = { ...a };
    if (mark.markType === 'rect') {
      r.x1 = a.x1 ?? a.x + a.width;
      r.y1 = a.y1 ?? a.y + a.height;
      [r.x, r.x1] = [Math.min(r.x, r.x1), Math.max(r.x, r.x1)];
      [r.y, r.y1] = [Math.min(r.y, r.y1), Math.max(r.y, r.y1)];
    }
    if (mark.markType === 'area') r.points = (a.points ?? []).map((q: any) => ({ ...q, x1: q.x1 ?? q.x, y1: q.y1 ?? q.y }));
    return r;
  });
}
const markOf = (plot: any, m: any) => plot.view.getMarkById(m.getMarkId());
const container = (plot: any) => plot.view.getMarkById('plotContainer');
/** everything there is in the picture */
function picture(plot: any): any {
  const walk = (g: any, depth: number): any => {
    const a: any = {};
    Object.keys(g.attribute)
      .sort()
      .forEach(k => {
        const v = g.attribute[k];
        // a reused mark is reset to the defaults
        if (v !== undefined && v !== null && !(k === 'clip' && v === false) && !(k === 'zIndex' && v === 0) && typeof v !== 'function' && k !== 'context') a[k] = v;
      });
    const kids: any[] = [];
    g.forEachChildren?.((c: any) => {
      kids.push(walk(c, depth + 1));
      return false;
    });
    // the order of the elements within a mark is that of their history
    if (depth === 1) kids.sort((x, y) => (JSON.stringify(x) < JSON.stringify(y) ? -1 : 1));
    return [g.type, JSON.parse(JSON.stringify(plain(a), (k, v) => (k === 'context' || k === '_uid' || k === 'datum' || /^VGRAMMAR_DATA_ID/.test(k) ? undefined : v))), kids];
  };
  return walk(container(plot).getGroupGraphicItem?.() ?? container(plot).elements[0].getGraphicItem(), 0);
}

function judge(plot: any, marks: any[], p: Prog, kept: Row[][], ctx: any): void {
  const vb = plot.view.getSignalById('viewBox').output();
  const [W, H] = [vb.width(), vb.height()];
  ok(vb.x1 >= 0 && vb.y1 >= 0 && vb.x2 <= p.size[0] + 1e-6 && vb.y2 <= p.size[1] + 1e-6, 'view-box', `content ${show([vb.x1, vb.y1, vb.x2, vb.y2])} of a view of ${p.size}`);
  const frame = container(plot).elements[0].getGraphicItem().attribute;
  eq(plain([frame.x, frame.y, frame.width, frame.height]), plain([vb.x1, vb.y1, W, H]), 'container', 'place of the content');
  const S = scales(p, W, H, kept);
  p.marks.forEach((m, i) => {
    const mark = markOf(plot, marks[i]);
    ok(mark, 'mark', `mark ${m.t}`);
    const real = drawn(mark);
    const want = expected(p, i, W, H, S, kept);
    eq(real.length, want.length, `${m.t}-count`, `elements of ${m.t}`);
    eq(real.map((r, j) => like(r, want[j])), want.map(plain), m.t, `elements of ${m.t}`);
    ctx.compare();
    ctx.state([m.t, plain(want)]);
  });
  // axes
  const kids = container(plot).children;
  const axes = kids.filter((k: any) => k.componentType === 'axis');
  eq(axes.length, p.marks.reduce((n, m) => n + (m.axis ?? []).length, 0), 'axes', 'number of axes');
  let n = 0;
  p.marks.forEach(m =>
    (m.axis ?? []).forEach(c => {
      const a = axes[n++].elements[0].getGraphicItem().attribute;
      const s = S[c];
      if (!s) return;
      const items = a.items[0];
      // ticks of empty domains are up to the scale (vscale)
      if (!s.domain().length) return;
      if (s.type !== 'linear') eq(items.map((q: any) => q.rawValue), s.domain(), 'axis-values', `values of axis ${c}`);
      if (p.coord?.[0] === 'polar') return;
      items.forEach((q: any) => {
        const [u, v] = [a.start, a.end];
        const x = a.x + u.x + (v.x - u.x) * q.value;
        const y = a.y + u.y + (v.y - u.y) * q.value;
        const along = (c === 'x') !== !!p.coord?.[1]?.transpose ? x : y;
        const want = s.scale(q.rawValue) + (s.type === 'band' ? s.bandwidth() / 2 : 0);
        ok(Math.abs(along - want) < 1e-6, 'axis-ticks', `tick ${q.rawValue} of axis ${c} is at ${along}, its scale puts it at ${want}`);
      });
    })
  );
  // legends
  const legends = kids.filter((k: any) => k.componentType === 'legend');
  eq(legends.length, p.marks.filter(m => m.legend).length, 'legends', 'number of legends');
  p.marks.filter(m => m.legend).forEach((m, j) => {
    const a = legends[j].elements[0].getGraphicItem().attribute;
    const f = (m as any)[m.legend as string];
    const values = uniq(DATA[m.data].map(r => r[f]));
    if (p.marks.length === 1) {
      eq(a.items.map((q: any) => q.id), values, 'legend-items', 'items of the legend');
      const l = m.scale?.[m.legend as string]?.range ?? PALETTE;
      eq(a.items.map((q: any) => q.shape.fill), values.map((v, q) => l[q % l.length]), 'legend-colors', 'colours of the legend');
    }
  });
}

function run(c: Case, ctx: any) {
  let p: Prog = JSON.parse(JSON.stringify(c.p));
  const { plot, marks } = build(c.bySpec ? { ...p, marks: [], coord: null, title: false, size: [300, 300] } : p);
  const take = () => marks.splice(0, marks.length, ...plot._semanticMarks.slice(-p.marks.length));
  if (c.bySpec) {
    plot.parseSpec(specOf(p));
    take();
  }
  plot.run();
  ctx.step();
  let kept = p.marks.map(m => DATA[m.data]);
  judge(plot, marks, p, kept, ctx);
  let filtered = false;
  c.ops.forEach(op => {
    ctx.step();
    const m = p.marks[0];
    switch (op[0]) {
      case 'data':
        m.data = op[1];
        marks[0].data(DATA[op[1]].map(r => ({ ...r })), undefined, `data${op[1]}`);
        break;
      case 'encode':
        (m as any)[op[1]] = op[2];
        marks[0].encode(op[1], op[2]);
        break;
      case 'style':
        m.style = op[1];
        marks[0].style({ ...op[1] });
        break;
      case 'scale':
        m.scale = { ...(m.scale ?? {}), [op[1]]: op[2] };
        marks[0].scale(op[1], { ...op[2] });
        break;
      case 'resize':
        p.size = [op[1], op[2]];
        plot.view.resize(op[1], op[2]);
        break;
      case 'add':
        p.marks.push(op[1]);
        marks.push(add(plot, op[1]));
        break;
      case 'spec':
        p = JSON.parse(JSON.stringify(op[1]));
        plot.updateSpec(specOf(p));
        take();
        break;
      case 'coord':
        p.coord = op[1];
        plot.coordinate((op[1] as any)[0], (op[1] as any)[1]);
        break;
      case 'filter': {
        const legend = container(plot).children.find((k: any) => k.componentType === 'legend');
        const g = legend.elements[0].getGraphicItem();
        const f = (p.marks[0] as any)[p.marks[0].legend as string];
        fire(plot.view, LegendEvent.legendItemClick, g, { detail: { currentSelected: op[1] } });
        kept = [DATA[p.marks[0].data].filter(r => op[1].includes(r[f]))];
        filtered = true;
        break;
      }
    }
    if (op[0] === 'filter') vtime.advance(100);
    else if (op[0] !== 'resize') plot.run();
    vtime.advance(20);
    if (op[0] !== 'filter') kept = p.marks.map(k => DATA[k.data]);
    judge(plot, marks, p, kept, ctx);
  });
  // layouts of components are redone by running the plot, not by resizing the view
  if ((c.ops.length || c.bySpec) && !filtered && (!c.ops.length || c.ops[c.ops.length - 1][0] !== 'resize')) {
    const fresh = build(p);
    fresh.plot.run();
    eq(picture(plot), picture(fresh.plot), 'picture', 'picture after the changes, instead of that of a new plot');
    ctx.compare();
  }
}
const ONE: Mark[] = [];
for (const t of ['interval', 'line', 'symbol', 'area', 'cell', 'ruleX', 'ruleY', 'rect', 'rectX', 'rectY', 'rule', 'text', 'image', 'path', 'polygon']) {
  const m: any = { t, data: 0 };
  if (!['ruleY', 'rectY', 'path'].includes(t)) m.x = t === 'polygon' ? ['a', 'a', 'a'] : 'a';
  if (!['ruleX', 'rectX', 'path'].includes(t)) m.y = t === 'polygon' ? ['b', 'd', 'e'] : 'b';
  if (t === 'text') m.text = 'c';
  if (t === 'path') m.style = { path: 'M0,0L5,5L0,5Z' };
  ONE.push(m);
}
const COORDS: Coord[] = [null, ['cartesian', {}], ['cartesian', { transpose: true }], ['polar', {}], ['polar', { transpose: true }]];
const fits = (m: Mark, co: Coord) => !co || (co[0] === 'cartesian' && !co[1].transpose) || ['interval', 'line', 'symbol', 'area', 'cell', 'text'].includes(m.t);
function rows(m: Mark, data: number): boolean {
  // scales of no row are not defined; repeated rows of a group are drawn over each other
  return DATA[data].length > 0 || true;
}
check<Case>({
  id: 'L01',
  level: 'exhaustive within bounds, on the real code',
  rule: 'elements of semantic marks against positions by the definition of their scales and coordinates, ticks and legends of the same scales; after every change the picture of a new plot',
  assumptions: ['default paddings and gaps', 'domains of shared scales: values of all their marks'],
  *cases(ctx) {
    const deep = ctx.thorough;
    // every mark, data, coordinate and colour channel
    for (const m of ONE)
      for (const data of DATA.keys())
        for (const co of COORDS) {
          if (!fits(m, co) || !rows(m, data)) continue;
          for (const paint of [{}, { color: 'c' }, { group: 'c' }, { color: 'a', group: 'c' }] as any[]) {
            if (m.t === 'path' && paint.group) continue;
            for (const size of deep ? [[200, 100], [90, 310]] : [[200, 100]]) yield { p: { marks: [{ ...m, ...paint, data }], coord: co, size: size as any }, ops: [] };
          }
        }
    // ranges
    for (const t of ['interval', 'rect', 'area', 'rule', 'rectY', 'image'])
      for (const data of [0, 1, 2, 4]) for (const co of COORDS.slice(0, t === 'interval' || t === 'area' ? 5 : 2)) {
        yield { p: { marks: [{ t, data, ...(t === 'rectY' ? {} : { x: 'a' }), y: ['b', 'd'], group: 'c' }], coord: co, size: [200, 120] }, ops: [] };
        if (t !== 'interval' && t !== 'rectY') yield { p: { marks: [{ t, data, x: ['a', 'c'], y: 'b' }], coord: co, size: [200, 120] }, ops: [] };
        if (t === 'rect') yield { p: { marks: [{ t, data, x: ['b', 'd'], y: ['e', 'd'], scale: { x: { type: 'linear' } } }], coord: co, size: [200, 120] }, ops: [] };
      }
    // components and own scales
    const SC: any[] = [{}, { y: { domain: [0, 10] } }, { x: { type: 'band', padding: 0.2 } }, { y: { domain: [-20, 20] } }, { color: { range: ['red', 'blue'] } }, { x: { domain: ['r', 'q', 'p', 's', 'z'] } }];
    for (const t of ['interval', 'line', 'symbol', 'area', 'rect'])
      for (const data of [0, 1, 2, 4]) for (const scale of SC) for (const [axis, grid, legend] of product([[], ['x'], ['y'], ['x', 'y']], [[], ['x', 'y']], [undefined, 'color'])) {
        if (t === 'rect' && scale.x?.padding) continue;
        if (!deep && data === 4 && grid.length) continue;
        for (const co of deep ? COORDS.slice(0, 3) : [null]) if (fits({ t } as any, co)) yield { p: { marks: [{ t, data, x: 'a', y: 'b', color: 'c', scale, axis: axis as any, grid: grid as any, legend: legend as any }], coord: co, size: [240, 160], title: data === 0 }, ops: [] };
      }
    // several marks share their scales
    const PAIRS = ['interval', 'line', 'symbol', 'area', 'ruleY', 'text', 'rect'];
    for (const [s, t] of product(PAIRS, PAIRS)) for (const [i, j] of [[0, 0], [0, 1], [1, 4], [2, 0]]) for (const y of ['b', 'd']) {
      const mk = (k: string, data: number, f: string): Mark => ({ t: k, data, ...(k === 'ruleY' ? {} : { x: 'a' }), y: f, ...(k === 'text' ? { text: 'c' } : {}) });
      // bands need a band scale
      if (['interval', 'rect'].includes(t) && !['interval', 'rect'].includes(s) && s !== 'ruleY') continue;
      yield { p: { marks: [mk(s, i, 'b'), { ...mk(t, j, y), color: 'c' }], coord: null, size: [200, 100] }, ops: [] };
      if (deep) for (const u of PAIRS.slice(1, 6)) yield { p: { marks: [mk(s, i, 'b'), { ...mk(t, j, y), color: 'c' }, mk(u, 4, 'e')], coord: null, size: [200, 100] }, ops: [] };
    }
    // changes
    const OPS: Op[] = [['run'], ['data', 1], ['data', 2], ['data', 4], ['encode', 'y', 'd'], ['encode', 'color', 'c'], ['encode', 'x', 'c'], ['style', { fillOpacity: 0.5 }], ['scale', 'y', { domain: [-10, 30] }], ['resize', 150, 130], ['add', { t: 'symbol', data: 1, x: 'a', y: 'd' }], ['coord', ['cartesian', { transpose: true }]], ['coord', ['polar', {}]]];
    for (const t of ['interval', 'line', 'symbol', 'area', 'text', 'rect', 'rule'])
      for (const comps of [{}, { axis: ['x', 'y'] }, { axis: ['y'], grid: ['y'], legend: 'group', group: 'c' }] as any[])
        for (const a of OPS) for (const b of [null, ...OPS] as (Op | null)[]) {
          if (a[0] === 'coord' || b?.[0] === 'coord') if (t === 'rect' || t === 'rule') continue;
          if (!deep && comps.grid && b && t !== 'interval') continue;
          yield { p: { marks: [{ t, data: 0, x: 'a', y: 'b', ...(t === 'text' ? { text: 'c' } : {}), ...comps }], coord: null, size: [200, 120] }, ops: b ? [a, b] : [a] };
        }
    // plots written as specs
    const PROGS: Prog[] = [
      { marks: [{ t: 'interval', data: 0, x: 'a', y: 'b', color: 'c', axis: ['x', 'y'], legend: 'color' }], coord: null, size: [200, 120], title: true },
      { marks: [{ t: 'line', data: 1, x: 'a', y: 'b', group: 'c' }, { t: 'symbol', data: 1, x: 'a', y: 'b', color: 'c' }], coord: null, size: [200, 120] },
      { marks: [{ t: 'area', data: 4, x: 'a', y: ['b', 'd'], grid: ['y'] }], coord: ['cartesian', { transpose: true }], size: [160, 200] },
      { marks: [{ t: 'interval', data: 2, x: 'a', y: 'd', scale: { y: { domain: [0, 20] } }, style: { fillOpacity: 0.3 } }], coord: ['polar', {}], size: [200, 120] },
      { marks: [{ t: 'rect', data: 0, x: 'a', y: ['b', 'd'] }, { t: 'ruleY', data: 0, y: 'e' }], coord: null, size: [100, 100] },
      { marks: [{ t: 'interval', data: 4, x: 'a', y: 'b', group: 'c', axis: ['x'] }], coord: null, size: [200, 120] }
    ];
    for (const x of PROGS) {
      yield { p: x, ops: [], bySpec: true };
      for (const y of PROGS) for (const bySpec of [false, true]) {
        yield { p: x, ops: [['spec', y]], bySpec };
        for (const op of OPS) if (op[0] !== 'coord' || x.marks.every(m => m.t !== 'rect')) yield { p: x, ops: [op, ['spec', y]], bySpec };
        for (const z of deep ? PROGS : [PROGS[0], PROGS[3]]) yield { p: x, ops: [['spec', y], ['spec', z]], bySpec };
      }
    }
    // legends filter the rows, not the colours
    for (const t of ['interval', 'line', 'symbol', 'area', 'rect']) for (const data of [0, 1, 4]) for (const first of [['u'], ['v'], [], ['u', 'v']]) for (const second of [null, ['v'], ['u', 'v', 'w']])
      for (const co of [null, COORDS[2]]) if (fits({ t } as any, co)) yield { p: { marks: [{ t, data, x: 'a', y: 'b', color: 'c', legend: 'color', axis: ['x'] }], coord: co, size: [220, 140] }, ops: [['filter', first], ...(second ? [['filter', second] as Op] : [])] };
  },
  run(c, ctx) {
    try {
      run(c, ctx);
    } finally {
      plots.splice(0).forEach(q => {
        try {
          q.release();
        } catch (e) {
          /* judged elsewhere */
        }
      });
      releaseAll();
    }
  },
  nontrivial: c => c.p.marks.some(m => DATA[m.data].length > 0)
});

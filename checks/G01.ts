import { check, eq, ok, product, sequences } from '../lib/kit';
import { VG, newView, releaseAll } from '../lib/vg';
/**
 * Two oracles: the geometry of the built-in glyphs, written down here independently and compared for every
 * combination of channels; and, for histories of updates, the parts of a fresh view with the same final definitions.
 */
const A: any = VG;
A.Factory.registerGlyph('verif-glyph', { box: 'rect', label: 'text', tip: 'symbol', bar: 'rule' })
  .registerFunctionEncoder((v: any, d: any, el: any, config: any) => ({
    box: { x: v.left, width: v.size * (config?.factor ?? 2), y: 1 },
    label: { text: `${v.size}/${d.v}` },
    bar: { x: v.left, y: 0, x1: v.left + v.size, y1: 0 }
  }))
  .registerChannelEncoder('tall', (channel: string, value: any, all: any) => ({ box: { height: value + all.size }, bar: { lineWidth: value } }))
  .registerChannelEncoder('tone', (channel: string, value: any) => ({ tip: { fill: value }, label: { fill: value } }))
  .registerDefaultEncoder(() => ({ box: { height: 3, cornerRadius: 1 }, label: { fill: 'grey' }, tip: { size: 4, fill: 'white' } }));

type Input = { kind: 'input'; glyph: string; config: any; channels: any };
type Hist = { kind: 'history'; glyph: string; ops: string[]; early?: boolean };
type Case = Input | Hist;

/** own and inherited values: parts inherit the attributes of the glyph */
const effective = (g: any): any => {
  const r: any = {};
  for (const k in g.attribute) r[k] = g.attribute[k];
  ['pointAttrs', 'imageAttrs', 'limitAttrs', 'sizeAttrs'].forEach(k => delete r[k]);
  Object.keys(r).forEach(k => r[k] === undefined && delete r[k]);
  return r;
};
const parts = (el: any): any => {
  const r: any = { glyph: effective(el.getGraphicItem()) };
  const g = el.getGlyphGraphicItems();
  Object.keys(g).forEach(n => (r[n] = effective(g[n])));
  // symbols have no second point
  if (r.median && el.getGlyphGraphicItems().median.type === 'symbol') (delete r.median.x1, delete r.median.y1);
  return r;
};
const close = (a: number, b: number, e = 1e-9) => Math.abs(a - b) <= e;

// ---------------------------------------------------------------- geometry of the built-in glyphs

const numbers = (path: string) => (path.match(/-?\d+(\.\d+)?(e-?\d+)?/g) || []).map(Number);
const letters = (path: string) => path.replace(/[^A-Z]/g, '');

function box(p: any, sig: string, x: [number, number], y: [number, number]) {
  const gx = p.x1 !== undefined ? [Math.min(p.x, p.x1), Math.max(p.x, p.x1)] : [p.x, p.x + p.width];
  const gy = p.y1 !== undefined ? [Math.min(p.y, p.y1), Math.max(p.y, p.y1)] : [p.y, p.y + p.height];
  eq({ x: gx, y: gy }, { x: [Math.min(...x), Math.max(...x)], y: [Math.min(...y), Math.max(...y)] }, sig, sig);
}
function segment(p: any, sig: string, a: [number, number], b: [number, number]) {
  const got = (p.points || []).map((q: any) => [q.x + (p.x || 0), q.y + (p.y || 0)]).sort((s: any, t: any) => s[0] - t[0] || s[1] - t[1]);
  eq(got, [a, b].sort((s, t) => s[0] - t[0] || s[1] - t[1]), sig, sig);
}
const has = (v: any) => v !== undefined && v !== null;

function boxplot(c: any, config: any, p: any, bar: boolean) {
  const h = config?.direction === 'horizontal';
  const pt = (main: number, cross: number): [number, number] => (h ? [main, cross] : [cross, main]);
  const cross = h ? c.y : c.x;
  const size = h ? c.height : c.width;
  const s = (special: any) => (has(special) ? special : size) / 2;
  const body = bar ? s(h ? c.q1q3Height : c.q1q3Width) : s(h ? c.boxHeight : c.boxWidth);
  const ends = bar ? s(h ? c.minMaxHeight : c.minMaxWidth) : s(h ? c.ruleHeight : c.ruleWidth);
  const rect = (part: any, sig: string, half: number, lo: any, hi: any) => {
    const across: [number, number] = [cross - half, cross + half];
    if (has(lo) && has(hi)) h ? box(part, sig, [lo, hi], across) : box(part, sig, across, [lo, hi]);
  };
  rect(bar ? p.q1q3Box : p.box, 'boxplot-box', body, c.q1, c.q3);
  if (bar) rect(p.minMaxBox, 'boxplot-minmax', ends, c.min, c.max);
  else {
    if (has(c.min) && has(c.max)) segment(p.shaft, 'boxplot-shaft', pt(c.min, cross), pt(c.max, cross));
    for (const k of ['min', 'max']) {
      eq(p[k].visible !== false, has(c[k]), 'boxplot-visible', `the rule of ${k} is visible`);
      if (has(c[k])) segment(p[k], 'boxplot-' + k, pt(c[k], cross - ends), pt(c[k], cross + ends));
    }
  }
  eq(p.median.visible !== false, has(c.median), 'boxplot-visible', 'the rule of the median is visible');
  if (has(c.median)) segment(p.median, 'boxplot-median', pt(c.median, cross - body), pt(c.median, cross + body));
  if (has(c.angle)) {
    const anchor = c.anchor ?? pt((c.min + c.max) / 2, cross);
    (bar ? ['minMaxBox', 'q1q3Box', 'median'] : ['shaft', 'box', 'min', 'max', 'median']).forEach(k =>
      eq({ angle: p[k].angle, anchor: p[k].anchor }, { angle: c.angle, anchor }, 'boxplot-angle', `rotation of ${k}`)
    );
  }
  if (bar) {
    ['minMaxBox', 'q1q3Box'].forEach(k => {
      eq(p[k].lineWidth, 0, 'barboxplot-border', `border of ${k}`);
      if (has(c.stroke)) eq(p[k].stroke, false, 'barboxplot-border', `border of ${k}`);
    });
    if (has(c.minMaxFillOpacity)) eq(p.minMaxBox.fillOpacity, c.minMaxFillOpacity, 'barboxplot-opacity', 'opacity of the outer box');
  }
}

/** the outline of a link: the two ends of it, as ranges across the direction */
function linkPath(c: any, config: any, p: any) {
  const v = ['vertical', 'TB', 'BT'].includes(c.direction ?? config?.direction);
  const t = (q: [number, number]): [number, number] => (v ? [q[1], q[0]] : q);
  const shown = typeof c.ratio === 'number' && c.ratio >= 0 && c.ratio <= 1;
  const e = c.round === false ? 1e-9 : 1.51;
  const outline = (path: string, r: number, sig: string) => {
    const n = numbers(path);
    const pts: [number, number][] = [];
    for (let i = 0; i + 1 < n.length; i += 2) pts.push(t([n[i], n[i + 1]]));
    const at = (main: number) => pts.filter(q => close(q[0], main, c.round === false ? 1e-9 : 0.51)).map(q => q[1]);
    const [m0, m1] = v ? [c.y0, c.y1] : [c.x0, c.x1];
    const [a0, a1] = v ? [c.x0, c.x1] : [c.y0, c.y1];
    const th = c.thickness * r;
    const range = (a: number): [number, number] =>
      c.align === 'center' ? [a - th / 2, a + th / 2] : c.align === 'end' ? [a + c.thickness / 2 - th, a + c.thickness / 2] : [a - c.thickness / 2, a - c.thickness / 2 + th];
    const grown = (rg: [number, number], arrow: boolean): [number, number] => (arrow && m0 !== m1 ? [rg[0] - th / 2, rg[1] + th / 2] : rg);
    const same = m0 === m1;
    [
      [m0, grown(range(a0), c.startArrow), 'start'],
      [m1, grown(range(a1), c.endArrow), 'end']
    ].forEach(([m, rg, what]: any) => {
      const seen = at(m);
      if (same || (c.curvature !== undefined && (c.curvature === 0 || c.curvature === 1))) return;
      ok(
        seen.length > 1 && close(Math.min(...seen), rg[0], e) && close(Math.max(...seen), rg[1], e),
        sig,
        `${sig} ${what}: across ${seen} in ${path}, expected ${rg}`
      );
    });
    if (!same && c.endArrow) {
      const far = m1 + th;
      ok(pts.some(q => close(q[0], far, e) && close(q[1], (range(a1)[0] + range(a1)[1]) / 2, e)), 'link-arrow', `no tip at ${far} in ${path}`);
    }
    if (!same && c.startArrow) {
      const far = m0 - th;
      ok(pts.some(q => close(q[0], far, e) && close(q[1], (range(a0)[0] + range(a0)[1]) / 2, e)), 'link-arrow', `no tip at ${far} in ${path}`);
    }
    ok(/Z\s*$/.test(path) && letters(path).startsWith('M'), 'link-closed', path);
    eq(letters(path).includes('C'), c.pathType !== 'line' && c.pathType !== 'polyline', 'link-type', `curved: ${path}`);
  };
  ok(shown || p.back.path === '', 'link-back', `background without ratio: ${p.back.path}`);
  if (shown) outline(p.back.path, 1, 'link-back');
  outline(p.front.path, shown ? c.ratio : 1, 'link-front');
  if (c.backgroundStyle) eq(p.back.fill, c.backgroundStyle.fill, 'link-style', 'fill of the background');
  ok((p.back.zIndex ?? 0) < (p.front.zIndex ?? 0), 'link-order', 'the background is in front');
}

function treePath(c: any, config: any, p: any) {
  const v = ['vertical', 'TB', 'BT'].includes(c.direction ?? config?.direction);
  const r = c.round === false ? (n: number) => n : Math.round;
  const n = numbers(p.main.path);
  eq([n[0], n[1], n[n.length - 2], n[n.length - 1]], [c.x0, c.y0, c.x1, c.y1].map(r), 'tree-ends', `ends of ${p.main.path}`);
  eq(letters(p.main.path), c.pathType === 'line' ? 'ML' : c.pathType === 'polyline' ? 'MLLL' : 'MC', 'tree-type', p.main.path);
  const curvature = c.curvature ?? 0.5;
  if (c.pathType !== 'line') {
    const [m0, m1] = v ? [c.y0, c.y1] : [c.x0, c.x1];
    const c0 = r(m0 + curvature * (m1 - m0));
    const c1 = c.pathType === 'polyline' ? c0 : r(m1 - curvature * (m1 - m0));
    eq([n[2], n[3], n[4], n[5]], (v ? [c.x0, c0, c.x1, c1] : [c0, c.y0, c1, c.y1]).map((q, i) => r(q)), 'tree-control', p.main.path);
  }
  const size = c.arrowSize ?? 3;
  const [m0, m1] = v ? [c.y0, c.y1] : [c.x0, c.x1];
  const sign = r(m1) > r(m0) ? 1 : -1;
  const arrow = (on: boolean, path: string, x: number, y: number, dir: number, sig: string) => {
    if (!on || r(m0) === r(m1)) {
      eq(path, '', sig, sig);
      return;
    }
    const q = numbers(path);
    eq([q[2], q[3]], [r(x), r(y)], sig, `tip of ${path}`);
    const tails = [[q[0], q[1]], [q[4], q[5]]].sort((a, b) => a[0] - b[0] || a[1] - b[1]);
    const want = (v ? [[x - size, y - dir * size], [x + size, y - dir * size]] : [[x - dir * size, y - size], [x - dir * size, y + size]]).sort((a, b) => a[0] - b[0] || a[1] - b[1]);
    tails.forEach((t, i) => ok(close(t[0], want[i][0], c.round === false ? 1e-9 : 1.01) && close(t[1], want[i][1], c.round === false ? 1e-9 : 1.01), sig, `tails ${show2(tails)} of ${path}, expected ${show2(want)}`));
  };
  arrow(!!c.endArrow, p.endArrow.path, c.x1, c.y1, sign, 'tree-end-arrow');
  arrow(!!c.startArrow, p.startArrow.path, c.x0, c.y0, -sign, 'tree-start-arrow');
  if (c.startArrowStyle) eq(p.startArrow.stroke, c.startArrowStyle.stroke, 'tree-style', 'style of the arrow');
  if (c.endArrowStyle) eq(p.endArrow.stroke, c.endArrowStyle.stroke, 'tree-style', 'style of the arrow');
}
const show2 = (x: any) => JSON.stringify(x);

function ripple(c: any, config: any, p: any) {
  const r = Math.max(0, Math.min(1, c.ripple ?? 0));
  [0, 1, 2].forEach(i => {
    const q = p['ripple' + i];
    ok(close(q.size, c.size * (1 + 0.5 * (i + r))), 'ripple-size', `size of ripple ${i}: ${q.size}`);
    ok(close(q.fillOpacity, 0.75 - 0.25 * i - 0.25 * r), 'ripple-opacity', `opacity of ripple ${i}: ${q.fillOpacity}`);
    ok(q.x === c.x && q.y === c.y, 'ripple-place', 'place of a ripple');
  });
  eq(p.symbol.size, c.size, 'ripple-size', 'size of the symbol');
}
function wave(c: any, config: any, p: any) {
  const shift = [c.wave * 100, c.wave * 200 - 40, c.wave * 300 - 20];
  [0, 1, 2].forEach(i => {
    const q = p['wave' + i];
    eq({ x: q.x, y: q.y, n: q.points.length }, { x: 0, y: 0, n: 21 }, 'wave', 'wave');
    q.points.forEach((s: any, j: number) =>
      ok(close(s.x, -500 + 50 * j + shift[i]) && close(s.y, c.y + (j % 2 ? 0 : 20)) && close(s.y1, c.y + c.height), 'wave-points', `point ${j} of wave ${i}: ${show2(s)}`)
    );
  });
}
function violin(c: any, config: any, p: any) {
  const h = config?.direction === 'horizontal';
  const cross = h ? c.y : c.x;
  const half = (h ? c.boxHeight ?? c.height : c.boxWidth ?? c.width) / 2;
  if (has(c.q1) && has(c.q3)) h ? box(p.box, 'violin-box', [c.q1, c.q3], [cross - half, cross + half]) : box(p.box, 'violin-box', [cross - half, cross + half], [c.q1, c.q3]);
  if (has(c.min) && has(c.max)) segment(p.shaft, 'violin-shaft', h ? [c.min, cross] : [cross, c.min], h ? [c.max, cross] : [cross, c.max]);
  eq(p.median.visible !== false, has(c.median), 'violin-visible', 'the median is visible');
  if (has(c.median)) eq(h ? [p.median.x, p.median.y] : [p.median.y, p.median.x], [c.median, cross], 'violin-median', 'place of the median');
  const size = c.densitySize ?? 30;
  const max = Math.max(...DENSITY.map(d => d[1]));
  const side = (s: number) => DENSITY.map(d => { const a = s * size * (d[1] / max) + 0; return h ? { x: d[0] * 10, y: a } : { x: a, y: d[0] * 10 }; });
  const want = [...side(-1), ...side(1).reverse()];
  eq(p.violin.points?.length, want.length, 'violin-points', 'number of points');
  want.forEach((q, i) => ok(close(p.violin.points[i].x, q.x) && close(p.violin.points[i].y, q.y), 'violin-points', `point ${i}: ${show2(p.violin.points[i])}, expected ${show2(q)}`));
  eq(p.violin.fill, c.violinFill ?? '#ff807f', 'violin-style', 'fill');
  eq(p.violin.stroke, c.violinStroke ?? '#ff0000', 'violin-style', 'stroke');
  eq(p.median.fill, c.medianFill ?? '#FFFFFF', 'violin-style', 'fill of the median');
}
const DENSITY = [[0, 1], [2, 3], [5, 4], [10, 0]];
function user(c: any, config: any, p: any) {
  const f = config?.factor ?? 2;
  eq({ x: p.box.x, y: p.box.y, width: p.box.width, height: p.box.height, cornerRadius: p.box.cornerRadius }, { x: c.left, y: 1, width: c.size * f, height: has(c.tall) ? c.tall + c.size : 3, cornerRadius: 1 }, 'user-box', 'the box');
  eq(p.label.text, `${c.size}/1`, 'user-label', 'the label');
  eq(p.label.fill, c.tone ?? (has(c.fill) ? c.fill : 'grey'), 'user-tone', 'fill of the label');
  eq(p.tip.fill, c.tone ?? (has(c.fill) ? c.fill : 'white'), 'user-tone', 'fill of the tip');
  segment(p.bar, 'user-bar', [c.left, 0], [c.left + c.size, 0]);
  if (has(c.tall)) eq(p.bar.lineWidth, c.tall, 'user-bar', 'width of the bar');
}
const ORACLE: any = { boxplot: (c: any, g: any, p: any) => boxplot(c, g, p, false), barBoxplot: (c: any, g: any, p: any) => boxplot(c, g, p, true), linkPath, treePath, ripplePoint: ripple, wave, violin, 'verif-glyph': user };

/** every choice of one value per channel; undefined leaves the channel out */
function* choices(space: Record<string, any[]>): IterableIterator<any> {
  const keys = Object.keys(space);
  for (const t of product(...keys.map(k => space[k]))) {
    const r: any = {};
    keys.forEach((k, i) => t[i] !== undefined && (r[k] = t[i]));
    yield r;
  }
}
const U: any = undefined;
function* inputs(thorough: boolean): IterableIterator<Input> {
  for (const config of [U, { direction: 'vertical' }, { direction: 'horizontal' }]) {
    for (const channels of choices({ x: [50], y: [60], width: [40], height: [30], boxWidth: [U, 0, 20], boxHeight: [U, 14], ruleWidth: [U, 10], ruleHeight: [U, 0, 8], min: [U, 10], q1: [20, 35], q3: [30], median: [U, 25], max: [U, 40], angle: [U, 1] }))
      if (channels.angle === U || (has(channels.min) && has(channels.max))) yield { kind: 'input', glyph: 'boxplot', config, channels };
    for (const channels of choices({ x: [50], y: [60], width: [40], height: [30], minMaxWidth: [U, 0, 20], minMaxHeight: [U, 14], q1q3Width: [U, 10], q1q3Height: [U, 0, 8], min: [10], q1: [20, 35], q3: [30], median: [U, 25], max: [40], angle: [U, 1], stroke: [U, 'red'], lineWidth: [U, 2], minMaxFillOpacity: [U, 0.3] }))
      if (thorough || channels.stroke !== U || channels.lineWidth === U) yield { kind: 'input', glyph: 'barBoxplot', config, channels };
    for (const channels of choices({ x: [50], y: [60], width: [40], height: [30], boxWidth: [U, 20], boxHeight: [U, 14], min: [U, 10], q1: [20], q3: [30], median: [U, 25], max: [40], densitySize: [U, 0, 7], medianFill: [U, 'red'], violinFill: [U, 'red'], violinStroke: [U, 'blue'] }))
      yield { kind: 'input', glyph: 'violin', config, channels };
  }
  for (const [x0, y0, x1, y1] of [[0, 0, 100, 50], [10.4, 20.6, 90.3, 20.6], [100, 50, 10, 0], [30, 10, 30, 80], [5, 80, 60, 80]])
    for (const direction of [U, 'horizontal', 'vertical', 'LR', 'TB', 'BT', 'RL']) {
      const viaConfig = direction === 'vertical' || direction === 'TB';
      for (const c of choices({ thickness: [0, 5, 6.5], ratio: [U, 0, 0.25, 1, 1.5], align: [U, 'start', 'center', 'end'], pathType: [U, 'smooth', 'line', 'polyline'], round: [U, false], startArrow: [U, true], endArrow: [U, true] })) {
        if (!thorough && direction && !['TB', 'LR'].includes(direction) && (c.startArrow || c.pathType === 'smooth' || c.thickness === 0)) continue;
        if (c.thickness === 0 && (c.startArrow || c.endArrow)) continue;
        const channels = { x0, y0, x1, y1, ...c, ...(viaConfig ? {} : direction ? { direction } : {}), ...(c.ratio ? { backgroundStyle: { fill: 'red' } } : {}) };
        if (!thorough && c.align === 'start' && c.ratio === 1) continue;
        yield { kind: 'input', glyph: 'linkPath', config: viaConfig ? { direction } : U, channels };
      }
      for (const c of choices({ curvature: [U, 0, 0.3, 1], pathType: [U, 'smooth', 'line', 'polyline'], round: [U, false], startArrow: [U, true], endArrow: [U, true], arrowSize: [U, 7], startArrowStyle: [U, { stroke: 'red' }] }))
        if (thorough || !c.startArrowStyle || c.startArrow) yield { kind: 'input', glyph: 'treePath', config: viaConfig ? { direction } : U, channels: { x0, y0, x1, y1, ...c, ...(viaConfig ? {} : direction ? { direction } : {}), ...(c.endArrow ? { endArrowStyle: { stroke: 'green' } } : {}) } };
    }
  for (const c of choices({ x: [1, 7], y: [2], size: [0, 10, 31], ripple: [U, -1, 0, 0.5, 1, 2], fill: [U, 'red'] })) yield { kind: 'input', glyph: 'ripplePoint', config: U, channels: c };
  for (const c of choices({ y: [0, 10], height: [0, 30], wave: [0, 0.5, 1] })) yield { kind: 'input', glyph: 'wave', config: U, channels: c };
  for (const config of [U, { factor: 3 }])
    for (const c of choices({ left: [0, 9], size: [0, 4], tall: [U, 0, 5], tone: [U, 'red'], fill: [U, 'blue'] })) yield { kind: 'input', glyph: 'verif-glyph', config, channels: c };
}

// ---------------------------------------------------------------- histories

const d0 = (k: number, v: number) => ({ k, v, density: DENSITY });
/** per glyph: channels before and after redefinition, as functions of the datum; states */
const HIST: Record<string, any> = {
  boxplot: {
    base: { x: (d: any) => 50 + d.v, y: (d: any) => 60 - d.v, width: 40, height: 20, min: (d: any) => d.v, q1: (d: any) => 10 + d.v, median: (d: any) => 15 + d.v, q3: (d: any) => 20 + d.v, max: (d: any) => 30 + 2 * d.v, angle: 0.5, fill: 'red' },
    again: { max: (d: any) => 77 + d.v, x: 33, y: 34 },
    hi: { max: (d: any) => 90 + d.v, fill: 'blue' },
    hi2: { boxWidth: 12, boxHeight: 13, q1: (d: any) => d.v * 3 },
    config: { direction: 'horizontal' }
  },
  barBoxplot: {
    base: { x: (d: any) => 50 + d.v, y: (d: any) => 60 - d.v, width: 40, height: 20, min: (d: any) => d.v, q1: (d: any) => 10 + d.v, median: (d: any) => 15 + d.v, q3: (d: any) => 20 + d.v, max: (d: any) => 30 + 2 * d.v, angle: 0.5, stroke: 'red', minMaxFillOpacity: 0.5 },
    again: { min: (d: any) => 77 + d.v, x: 33, y: 34 },
    hi: { max: (d: any) => 90 + d.v, stroke: 'blue' },
    hi2: { minMaxWidth: 12, minMaxHeight: 13, q1: (d: any) => d.v * 3 },
    config: { direction: 'horizontal' }
  },
  violin: {
    base: { x: (d: any) => 50 + d.v, y: (d: any) => 60 - d.v, width: 40, height: 20, min: (d: any) => d.v, q1: (d: any) => 10 + d.v, median: (d: any) => 15 + d.v, q3: (d: any) => 20 + d.v, max: (d: any) => 30 + 2 * d.v, angle: 0.5, density: { scale: 's', field: 'density' } },
    again: { max: (d: any) => 77 + d.v, x: 33, y: 34, densitySize: 9 },
    hi: { max: (d: any) => 90 + d.v, violinFill: 'blue' },
    hi2: { boxWidth: 12, boxHeight: 13, q1: (d: any) => d.v * 3 },
    config: { direction: 'horizontal' }
  },
  linkPath: {
    base: { x0: 0, y0: (d: any) => d.v, x1: (d: any) => 40 + d.v, y1: 50, thickness: (d: any) => 2 + d.v, ratio: 0.5, fill: 'red' },
    again: { y1: (d: any) => 60 + d.v, ratio: 0.25 },
    hi: { thickness: (d: any) => 20 + d.v, fill: 'blue' },
    hi2: { x1: 80, backgroundStyle: { fillOpacity: 0.5 } },
    config: { direction: 'TB' }
  },
  treePath: {
    base: { x0: 0, y0: (d: any) => d.v, x1: (d: any) => 40 + d.v, y1: 50, stroke: 'red', endArrow: true },
    again: { y1: (d: any) => 60 + d.v, curvature: 0.25 },
    hi: { x1: (d: any) => 90 + d.v, stroke: 'blue' },
    hi2: { startArrow: true, pathType: 'line' },
    config: { direction: 'TB' }
  },
  ripplePoint: {
    base: { x: (d: any) => d.v, y: 5, size: (d: any) => 10 + d.v, ripple: 0.5, fill: 'red' },
    again: { size: 7, x: 9 },
    hi: { size: (d: any) => 40 + d.v, fill: 'blue' },
    hi2: { ripple: 1 },
    config: U
  },
  wave: {
    base: { y: (d: any) => d.v, height: (d: any) => 20 + d.v, wave: 0.5, fill: 'red' },
    again: { height: 44 },
    hi: { y: (d: any) => 40 + d.v, fill: 'blue' },
    hi2: { wave: 1 },
    config: U
  },
  'verif-glyph': {
    base: { left: (d: any) => d.v, size: (d: any) => 4 + d.v, fill: 'red' },
    again: { size: (d: any) => 10 + d.v, tall: 9 },
    hi: { size: (d: any) => 90 + d.v, fill: 'blue' },
    hi2: { tone: 'green', tall: (d: any) => d.v },
    config: { factor: 3 }
  }
};
type World = { rows: any[]; update: any; hi: any; states: string[]; config: any };
function spec(glyph: string, w: World) {
  return {
    data: [{ id: 'd', values: w.rows }],
    scales: [{ id: 's', type: 'linear', domain: [0, 10], range: [0, 100] }],
    marks: [
      {
        id: 'm',
        type: 'glyph',
        glyphType: glyph,
        from: { data: 'd' },
        key: 'k',
        ...(w.config ? { glyphConfig: w.config } : {}),
        encode: { update: { ...w.update }, hi: { ...w.hi }, hi2: { ...HIST[glyph].hi2 } }
      }
    ]
  };
}
const OPS = ['rows', 'swap', 'again', 'redefine', 'config', '+hi', '+hi2', '-hi', 'none', 'only2'];
function history(c: Hist, ctx: any) {
  const h = HIST[c.glyph];
  const w: World = { rows: [d0(0, 1), d0(1, 3)], update: h.base, hi: h.hi, states: [], config: U };
  const v = newView();
  v.parseSpec(spec(c.glyph, w));
  v.run();
  const m = v.getMarkById('m');
  const states = (next: string[]) => (w.states = next);
  const el = (k: number) => m.elements.find((e: any) => e.key === `${k}` || e.key === k);
  c.ops.forEach((op, i) => {
    const e0 = el(0);
    if (op === 'rows') {
      w.rows = [d0(0, 5 + i), d0(1, 3), d0(2 + i, 8)];
      v.getDataById('d').values(w.rows);
    } else if (op === 'swap') {
      w.rows = w.rows.slice().reverse().map(r => d0(r.k, r.v + 1));
      v.getDataById('d').values(w.rows);
    } else if (op === 'again') {
      w.update = { ...w.update, ...h.again };
      m.encode(h.again);
    } else if (op === 'redefine') {
      w.hi = { ...w.hi, fill: 'pink' + i, stroke: 'pink' + i };
      m.encodeState('hi', { fill: 'pink' + i, stroke: 'pink' + i });
    } else if (op === 'config') {
      if (!h.config) return;
      w.config = w.config ? {} : h.config;
      m.configureGlyph(w.config);
    } else if (op === '+hi' || op === '+hi2') {
      const s = op.slice(1);
      if (!w.states.includes(s)) states([...w.states, s]);
      e0.addState(s);
    } else if (op === '-hi') {
      states(w.states.filter(s => s !== 'hi'));
      e0.removeState('hi');
    } else if (op === 'none') {
      states([]);
      e0.clearStates();
    } else if (op === 'only2') {
      states(['hi2']);
      e0.useStates(['hi2']);
    }
    v.run();
    ctx.step();
  });
  const f = newView();
  f.parseSpec(spec(c.glyph, w));
  f.run();
  const fm = f.getMarkById('m');
  const fel = (k: number) => fm.elements.find((e: any) => e.key === `${k}` || e.key === k);
  if (w.states.length) fel(0).useStates(w.states);
  eq(m.elements.map((e: any) => +e.key), w.rows.map(r => r.k), 'elements', 'elements');
  w.rows.forEach(r => {
    const want = parts(fel(r.k));
    ctx.compare();
    if (r.k === 0) ctx.state(want);
    const got = parts(el(r.k));
    eq(el(r.k).states, r.k === 0 ? w.states : [], 'states', 'states');
    Object.keys(want).forEach(n => eq(got[n], want[n], `history-${c.glyph}-${n}`, `${n} of element ${r.k} after ${c.ops}`));
  });
}

check<Case>({
  id: 'G01',
  level: 'exhaustive within bounds, on the real code',
  rule: 'built-in glyphs: parts have the geometry of the channels, for all combinations; histories of data, encoding, state and configuration updates: parts == parts of a fresh view',
  assumptions: ['parts inherit attributes of the glyph', 'channels are redefined, not withdrawn'],
  *cases(ctx) {
    yield* inputs(ctx.thorough);
    for (const glyph of Object.keys(HIST)) for (const ops of sequences(OPS, ctx.thorough ? 4 : 3, 1)) yield { kind: 'history', glyph, ops };
  },
  run(c, ctx) {
    try {
      if (c.kind === 'history') return history(c, ctx);
      const v = newView();
      v.parseSpec({
        data: [{ id: 'd', values: [d0(0, 1)] }],
        scales: [{ id: 's', type: 'linear', domain: [0, 10], range: [0, 100] }],
        marks: [{ id: 'm', type: 'glyph', glyphType: c.glyph, from: { data: 'd' }, key: 'k', ...(c.config ? { glyphConfig: c.config } : {}), encode: { update: { ...c.channels, ...(c.glyph === 'violin' ? { density: { scale: 's', field: 'density' } } : {}) } } }]
      });
      v.run();
      const p = parts(v.getMarkById('m').elements[0]);
      ctx.step();
      ctx.compare();
      ctx.state(p);
      ORACLE[c.glyph](c.channels, c.config, p);
    } finally {
      releaseAll();
    }
  },
  nontrivial: () => true
});

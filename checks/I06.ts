// I06: navigation of views. Every sequence of zooming, scrolling, dragging and resetting gestures, for every kind of navigation, target and option, against a model of the visible range.
import { view, releaseAll, vtime } from '../lib/vg';
import { fire, pointer } from '../lib/events';
import { check, eq, ok, sequences, show } from '../lib/kit';

type R = [number, number];
type Target = 'scale' | 'data' | 'datazoom' | 'scrollbar' | 'range' | 'getter' | 'both' | 'preset';
type Case = { type: string; target: Target; options: any; ops: string[]; held: boolean; late?: boolean };
const XS = [0, 3, 5, 8, 10];
const W = 200;
const Y = 100;

// gestures: wheel with ctrl (zoom), without (scroll), pointer, reset
const WHEEL: Record<string, any> = {
  in: { ctrlKey: true, deltaX: 0, deltaY: 400, deltaMode: 0 },
  in2: { ctrlKey: true, deltaX: 0, deltaY: 100, deltaMode: 1 },
  out: { ctrlKey: true, deltaX: 0, deltaY: -300, deltaMode: 0 },
  sc: { ctrlKey: false, deltaX: 30, deltaY: -10, deltaMode: 0 },
  scb: { ctrlKey: false, deltaX: -20, deltaY: 0, deltaMode: 0 },
  scf: { ctrlKey: false, deltaX: 5000, deltaY: 5000, deltaMode: 0 }
};
const POS: Record<string, [number, number]> = { d: [50, 50], m1: [60, 45], m2: [35, 80], m3: [50, 50], u: [35, 80], u1: [60, 45] };

const clamp = (v: number) => Math.max(0, Math.min(1, v));
const zoomed = (r: R, z: number, rate: number): R | null => {
  const d = Math.abs(r[1] - r[0]);
  if ((d >= 1 && z >= 1) || (d <= 1e-3 && z <= 1)) return null;
  const by = (d * (z - 1) * rate) / 2;
  const a = clamp(r[0] - by);
  const b = clamp(r[1] + by);
  return [Math.min(a, b), Math.max(a, b)];
};
const moved = (r: R, px: number, size: number, reversed: boolean): R | null => {
  const d = r[1] - r[0];
  const v = (reversed ? -1 : 1) * px;
  if (Math.abs(px) < 1e-3 || d >= 1 || !(size > 0)) return null;
  const by = v > 0 ? Math.min(1 - r[1], v / size) : Math.max(-r[0], v / size);
  return by === 0 ? null : [r[0] + by, r[1] + by];
};
const near = (a: any, b: any, by = 1e-9) => (Array.isArray(a) && Array.isArray(b) ? a.length === b.length && a.every((x, i) => Math.abs(x - b[i]) < by) : a === b || (a == null && b == null));

check<Case>({
  id: 'I06',
  level: 'model_checking',
  rule:
    'all sequences (to the depth) of wheel zooms in and out, wheel scrolls, pointer presses, moves and releases, and double clicks, for each navigation interaction (zoom, scroll, drag, roam) with each option (realtime or at the end, reversed, rate, single dimensions) on each target (scales, scales with filtered data, data zooms, scroll bars, given ranges); ' +
    'the visible range, positions of elements, filtered data and range reported to listeners are compared with a model after every gesture, and the view after removal of the interaction with the initial one',
  *cases(ctx) {
    const targets: Target[] = ['scale', 'data', 'preset', 'datazoom', 'scrollbar', 'range', 'getter'];
    // removed while moves are delayed
    for (const target of ['scale', 'data', 'preset'] as Target[])
      for (const type of ['view-zoom', 'view-scroll', 'view-drag', 'view-roam'])
        for (const ops of sequences(['in', 'sc', 'd', 'm1', 'm2', 'u1', 'dbl'], ctx.thorough ? 4 : 3, 1))
          yield { type, target, options: type === 'view-roam' ? { scroll: { enable: true }, throttle: 50 } : { throttle: 50 }, ops, held: target !== 'preset', late: true };
    for (const target of targets) {
      const deep = ctx.thorough ? (target === 'scale' || target === 'data' || target === 'range' ? 1 : 0) : target === 'scale' ? 0 : -1;
      for (const options of [{}, { realtime: false }, { rate: 3 }, { enableY: false }, { enableX: false }])
        for (const ops of sequences(['in', 'out', 'in2', 'sc', 'u', 'dbl'], 4 + deep, 1)) yield { type: 'view-zoom', target, options, ops, held: false };
      for (const options of [{}, { realtime: false }, { reversed: true }, { enableY: false }])
        for (const ops of sequences(['sc', 'scb', 'scf', 'in', 'u'], 4 + deep, 1)) yield { type: 'view-scroll', target, options, ops, held: target !== 'preset' };
      for (const options of [{}, { realtime: false }, { reversed: true }, { enableX: false }])
        for (const ops of sequences(['d', 'm1', 'm2', 'm3', 'u', 'u1'], 4 + deep, 1)) if (ops.includes('d')) yield { type: 'view-drag', target, options, ops, held: target !== 'preset' };
      for (const options of [{}, { scroll: { enable: true }, drag: { enable: false } }, { zoom: { realtime: false }, drag: { realtime: false } }, { scroll: { enable: true, realtime: false, reversed: true }, drag: { reversed: true } }])
        for (const ops of sequences(['in', 'out', 'sc', 'd', 'm1', 'u1', 'dbl'], 4 + deep, 1)) yield { type: 'view-roam', target, options, ops, held: false };
    }
  },
  run(c, ctx) {
    try {
      run(c, ctx);
    } finally {
      releaseAll();
    }
  }
});

function run(c: Case, ctx: any) {
  // a visible range from the beginning lets scrolling and dragging act at once
  const initial: R | null = c.target === 'preset' || c.held ? [0.25, 0.75] : null;
  const rows = XS.map((x, i) => ({ k: 'p' + i, x, y: x }));
  const comps = c.target === 'datazoom' || c.target === 'scrollbar';
  const filtered = c.target === 'data';
  const marks: any[] = [
    {
      type: 'symbol',
      id: 'm',
      from: { data: 'd' },
      key: 'k',
      encode: { update: { x: { scale: 'sx', field: 'x' }, y: { scale: 'sy', field: 'y' } } }
    }
  ];
  const both: R = initial ?? [0, 1];
  if (comps)
    ['x', 'y'].forEach(dim => {
      const common: any = { x: 0, y: 0, width: dim === 'x' ? W : 10, height: dim === 'x' ? 10 : Y };
      if (c.target === 'datazoom') marks.push({ type: 'component', componentType: 'datazoom', id: 'c' + dim, encode: { update: { ...common, start: both[0], end: both[1], orient: dim === 'x' ? 'bottom' : 'left' } } });
      else marks.push({ type: 'component', componentType: 'scrollbar', id: 'c' + dim, encode: { update: { ...common, direction: dim === 'x' ? 'horizontal' : 'vertical', range: both.slice() } } });
    });
  const v = view(
    {
      width: W,
      height: Y,
      padding: 0,
      data: [{ id: 'd', values: rows }],
      scales: [
        { id: 'sx', type: 'linear', domain: [0, 10], range: [0, W] },
        { id: 'sy', type: 'linear', domain: [0, 10], range: [0, Y] }
      ],
      marks
    } as any,
    {},
    false
  );
  const scale = (dim: string) => v.getScaleById('s' + dim) as any;
  const scaled = c.target === 'scale' || c.target === 'both' || c.target === 'preset';
  if (initial && scaled) ['x', 'y'].forEach(d => scale(d).setRangeFactor(initial.slice()));
  v.run();
  const start = snapshot(v);
  const given: Record<string, R> = { x: [...both] as R, y: [...both] as R };
  const heard: any[] = [];
  const options: any = { throttle: 0, ...c.options };
  ['start', 'update', 'end', 'reset'].forEach(t => (options['on' + t[0].toUpperCase() + t.slice(1)] = (p: any) => {
    heard.push([t, p.viewRange]);
    // a range which is kept outside: the listener takes it over
    if (c.target === 'getter' && p.viewRange) ['x', 'y'].forEach(d => p.viewRange[d] && (given[d] = p.viewRange[d]));
  }));
  ['x', 'y'].forEach(dim => {
    const D = dim.toUpperCase();
    if (scaled || filtered) options['scale' + D] = dim === 'x' ? 'sx' : scale('y');
    if (filtered) options['dataTarget' + D] = { data: 'd', filter: dim };
    if (comps) options['linkedComponent' + D] = dim === 'x' ? 'cx' : v.getMarkById('cy');
    if (c.target === 'range') options['range' + D] = [...both];
    if (c.target === 'getter') options['range' + D] = () => given[dim];
  });
  v.interaction(c.type, options);

  if (c.late) {
    for (const op of c.ops) {
      if (WHEEL[op]) fire(v, 'wheel', null, { canvas: { x: 20, y: 20 }, ...WHEEL[op] });
      else if (op === 'dbl') fire(v, 'dblclick');
      else pointer(v, op === 'd' ? 'pointerdown' : op[0] === 'm' ? 'pointermove' : 'pointerup', POS[op][0], POS[op][1], null, { pointerId: 1 });
      ctx.step();
    }
    v.removeInteraction(c.type);
    if (scaled && initial) ['x', 'y'].forEach(d => (scale(d).setRangeFactor(initial.slice()), scale(d).commit()));
    v.run();
    eq(snapshot(v), start, 'removed', `${c.type} on ${c.target} removed right after ${c.ops.join(' ')}`);
    vtime.advance(200);
    v.run();
    eq(snapshot(v), start, 'late', `${c.type} on ${c.target} some time after its removal after ${c.ops.join(' ')}`);
    ctx.compare(2);
    return;
  }

  // --- the model
  const zoomOpt = c.type === 'view-roam' ? { realtime: true, enable: true, rate: 1, ...c.options.zoom } : { realtime: true, rate: 1, ...c.options };
  const scrollOpt = c.type === 'view-roam' ? { realtime: true, enable: false, reversed: false, ...c.options.scroll } : { realtime: true, reversed: false, ...c.options };
  const dragOpt = c.type === 'view-roam' ? { realtime: true, enable: true, reversed: false, ...c.options.drag } : { realtime: true, reversed: false, ...c.options };
  const dims = ['x', 'y'].filter(d => c.options['enable' + d.toUpperCase()] !== false);
  const zooms = c.type === 'view-zoom' || (c.type === 'view-roam' && zoomOpt.enable);
  const scrolls = c.type === 'view-scroll' || (c.type === 'view-roam' && scrollOpt.enable);
  const drags = c.type === 'view-drag' || (c.type === 'view-roam' && dragOpt.enable);
  const has = scaled || c.target === 'range' || c.target === 'getter' || comps;
  const range: Record<string, R> = { x: (has ? [...both] : [0, 1]) as R, y: (has ? [...both] : [0, 1]) as R };
  // a data filter starts with everything
  const size: Record<string, number> = { x: W, y: Y };
  if (c.target === 'range' || c.target === 'getter') size.x = size.y = 1;
  const measure = () =>
    comps &&
    ['x', 'y'].forEach(d => {
      const b: any = v.getMarkById('c' + d).getBounds();
      size[d] = d === 'x' ? b.x2 - b.x1 : b.y2 - b.y1;
    });
  // the components tell their changes through the event manager of the stage
  pointer(v, 'pointerover', 0, 0);
  let pendingZoom: number | null = null;
  let pendingScroll: { x: number; y: number } | null = null;
  let zoomStarted = false;
  let dragAt: [number, number] | null = null;
  const zoom = (z: number) => dims.forEach(d => (range[d] = zoomed(range[d], z, zoomOpt.rate) ?? range[d]));
  const move = (by: { x: number; y: number }, reversed: boolean) => dims.forEach(d => (range[d] = moved(range[d], (by as any)[d], size[d], reversed) ?? range[d]));
  let gen = 0;
  for (const op of c.ops) {
    gen++;
    ctx.step();
    measure();
    const before = { x: [...range.x] as R, y: [...range.y] as R };
    if (WHEEL[op]) {
      const w = WHEEL[op];
      fire(v, 'wheel', null, { canvas: { x: 20, y: 20 }, ...w });
      if (w.ctrlKey && zooms) {
        const z = Math.pow(1.0005, -w.deltaY * Math.pow(16, w.deltaMode));
        zoomStarted = true;
        if (zoomOpt.realtime) {
          zoom(z);
          // zooming in never shows more, zooming out never less
          if (zoomOpt.rate === 1) dims.forEach(d => ok((range[d][1] - range[d][0] - (before[d as 'x'][1] - before[d as 'x'][0])) * (z - 1) >= -1e-12, 'law', () => 'model'));
        } else pendingZoom = (pendingZoom ?? 1) * z;
      } else {
        if (zooms) zoomStarted = true;
        if (!w.ctrlKey && scrolls) {
          if (scrollOpt.realtime) move({ x: w.deltaX, y: w.deltaY }, scrollOpt.reversed);
          else pendingScroll = { x: (pendingScroll?.x ?? 0) + w.deltaX, y: (pendingScroll?.y ?? 0) + w.deltaY };
        }
      }
    } else if (op === 'dbl') {
      fire(v, 'dblclick');
      if (zooms && zoomStarted) {
        dims.forEach(d => (range[d] = c.target === 'range' ? ([...both] as R) : [0, 1]));
        if (c.target === 'getter') dims.forEach(d => (range[d] = before[d as 'x']));
        zoomStarted = false;
      }
    } else {
      const [x, y] = POS[op];
      if (op === 'd') {
        pointer(v, 'pointerdown', x, y, null, { pointerId: 1 });
        if (drags) dragAt = [x, y];
      } else if (op[0] === 'm') {
        pointer(v, 'pointermove', x, y, null, { pointerId: 1 });
        if (drags && dragAt && dragOpt.realtime) {
          move({ x: x - dragAt[0], y: y - dragAt[1] }, dragOpt.reversed);
          dragAt = [x, y];
        }
      } else {
        pointer(v, 'pointerup', x, y, null, { pointerId: 1 });
        if (zooms && zoomStarted && pendingZoom !== null) zoom(pendingZoom), (pendingZoom = null);
        if (scrolls && pendingScroll) move(pendingScroll, scrollOpt.reversed), (pendingScroll = null);
        if (drags && dragAt) {
          if (!dragOpt.realtime) move({ x: x - dragAt[0], y: y - dragAt[1] }, dragOpt.reversed);
          dragAt = null;
        }
      }
    }
    vtime.advance(1);
    v.run();
    vtime.advance(1);
    const what = `${c.type} on ${c.target} after ${c.ops.slice(0, gen).join(' ')}`;
    ['x', 'y'].forEach(d => {
      ctx.compare();
      const want = range[d];
      const got = visible(v, c, d, given, heard);
      // the size of a data zoom depends on its texts, which change between the two parts of one gesture
      if (got !== undefined) ok(near(got, want, c.target === 'datazoom' ? 2e-3 : 1e-9), `range:${c.type}:${c.target}`, () => `${what}: visible range of ${d} is ${show(got)}, expected ${show(want)}`);
      // laws of gestures
      ok(want[0] >= 0 && want[1] <= 1 && want[0] <= want[1], 'law', () => `${what}: model`);
      if (scaled) {
        const f = want;
        const els = v.getMarkById('m').elements as any[];
        els.forEach(e => {
          const r = e.getDatum()[d] / 10;
          const at = e.getGraphicItem().attribute[d];
          const pos = ((r - f[0]) / (f[1] - f[0])) * (d === 'x' ? W : Y);
          ok(Math.abs(at - pos) < 1e-6 * Math.max(1, Math.abs(pos)), 'position', () => `${what}: ${d} of ${e.key} is ${at}, expected ${pos}`);
        });
      }
    });
    if (filtered) {
      const want = rows.filter(r => ['x', 'y'].every(d => (r as any)[d] / 10 >= range[d][0] - 1e-12 && (r as any)[d] / 10 <= range[d][1] + 1e-12)).map(r => r.k);
      eq((v.getMarkById('m').elements as any[]).map(e => e.key), want, 'filtered', `${what}: elements in ${show(range)}`);
    }
    ctx.state([c.type, c.target, c.options, range, dragAt, pendingZoom, pendingScroll, zoomStarted]);
  }
  if (scaled || filtered) {
    v.removeInteraction(c.type);
    if (scaled && initial) ['x', 'y'].forEach(d => (scale(d).setRangeFactor(initial.slice()), scale(d).commit()));
    v.run();
    eq(snapshot(v), start, 'removed', `${c.type} on ${c.target} removed after ${c.ops.join(' ')}`);
  }
}
function snapshot(v: any) {
  return (v.getMarkById('m').elements as any[]).map(e => [e.key, Math.round(e.getGraphicItem().attribute.x * 1e6) / 1e6, Math.round(e.getGraphicItem().attribute.y * 1e6) / 1e6]);
}
function visible(v: any, c: Case, dim: string, given: Record<string, R>, heard: any[]): R | undefined {
  if (c.target === 'datazoom') {
    const s = v.getMarkById('c' + dim).getStartEndValue();
    return [s.start, s.end];
  }
  if (c.target === 'scrollbar') return v.getMarkById('c' + dim).getScrollRange();
  if (c.target === 'getter') return given[dim];
  if (c.target === 'range') {
    const last = heard.map(h => h[1]?.[dim]).filter(Boolean);
    return last[last.length - 1];
  }
  if (c.target === 'data') return undefined;
  return v.getScaleById('s' + dim).getRangeFactor() ?? [0, 1];
}

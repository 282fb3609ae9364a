// I07: tooltips and crosshairs. Every sequence of pointer moves, leaves, pauses, changes of data and rebindings, against a model of what is under the pointer.
import { view, releaseAll, vtime } from '../lib/vg';
import { pointer } from '../lib/events';
import { check, eq, ok, sequences, show } from '../lib/kit';

type Case =
  | { kind: 'tip'; config: string; ops: string[] }
  | { kind: 'dim'; type: string; scale: string; filter: string; at: string; ops: string[] }
  | { kind: 'cross'; type: string; shape: string; scale: string; at: string; custom: string; ops: string[] };

const ROWS = [
  { k: 'a', x: 10, y: 1, s: 'circle', z: 0 },
  { k: 'b', x: 50, y: 2, s: 'square', z: '' },
  { k: 'c', x: 90, y: 3, s: 'star', z: 5 }
];
const TIPS: Record<string, any> = {
  fields: { title: { value: { field: 'k' } }, content: [{ key: { field: 'k' }, value: { field: 'y' }, symbol: { field: 's' } }, { key: { field: 'z' }, value: { field: 'z' } }, { key: 'fixed', value: (d: any) => d.y * 10 }] },
  constant: { title: 'T', content: { key: { text: 'K', fill: 'red' }, value: { field: 'y' }, visible: (d: any) => d.k !== 'b' } },
  functions: { title: (d: any) => ({ value: { text: 'f' + d.k } }), content: (d: any) => ({ key: { text: d.k }, value: { text: String(d.y) } }) },
  signals: { title: { key: (d: any, p: any) => d.k + p.sig }, content: [{ value: { field: 'y' } }], dependency: ['sig'], attributes: (d: any, p: any) => ({ offsetX: d.y + p.sig }) },
  handlers: { title: { value: { field: 'k' } }, content: [], trigger: 'pointerdown', triggerOff: 'pointerup' },
  sticky: { title: { value: { field: 'k' } }, content: [{ visible: false, value: { field: 'y' } }], triggerOff: 'none' }
};
const wrap = (x: any) => (x === undefined || x === null ? undefined : typeof x === 'object' ? x : { text: x });
const row = (r: any, d: any, p: any) => {
  const at = (v: any) => (typeof v === 'function' ? v(d, p) : v && typeof v === 'object' && 'field' in v ? d[v.field] : v);
  const vis = at(r.visible);
  const s = at(r.symbol);
  return { visible: vis === undefined ? true : vis, key: wrap(at(r.key)), value: wrap(at(r.value)), shape: s === undefined ? undefined : typeof s === 'object' ? s : { symbolType: s } };
};
const said = (o: any, datum: any, p: any) => {
  const title = o.title === undefined ? undefined : typeof o.title === 'function' ? o.title(datum) : row(typeof o.title === 'string' ? { value: o.title } : o.title, datum, p);
  const list = (x: any) => (Array.isArray(x) ? x : [x]);
  const content = o.content === undefined ? undefined : typeof o.content === 'function' ? list(o.content(datum)) : ([] as any[]).concat(...list(datum).map((d: any) => list(o.content).map((r: any) => row(r, d, p))));
  return { title, content };
};
// the texts which a row asks for
const cell = (r: any) => (r ? [r.visible === false ? 'hidden' : '', r.key?.text ?? '', r.key?.fill ?? '', r.value?.text ?? '', r.shape?.symbolType ?? ''].join('/') : '');

const shapes = [
  ['x', 'line'], ['y', 'line'], ['x', 'rect'], ['y', 'rect'], ['angle', 'line'], ['angle', 'rect'], ['radius', 'line'], ['radius', 'rect'], ['radius-polygon', 'line'], ['radius-polygon', 'rect']
];
// the places of the pointer, inside the container and around it
const AT: Record<string, [number, number]> = { p: [16, 9], q: [70, 44], r: [105, 50], s: [62, 20], o1: [-3, 20], o2: [125, 20], o3: [50, -2], o4: [50, 66] };
const GW = 120;
const GH = 60;

const layerOf = (v: any) => v.renderer.stage().defaultLayer;
const children = (v: any) => layerOf(v).getChildren().map((x: any) => x._uid);

function tip(c: any, ctx: any) {
  const o = TIPS[c.config];
  let data = ROWS.map(r => ({ ...r }));
  const v = view(
    {
      signals: [{ id: 'sig', value: 7 }],
      data: [{ id: 't', values: data }],
      marks: [
        { type: 'rect', id: 'm', from: { data: 't' }, key: 'k', encode: { update: { x: { field: 'x' }, y: 10, width: 20, height: 20, fill: 'red' } } },
        { type: 'rect', id: 'other', encode: { update: { x: 10, y: 40, width: 20, height: 20, fill: 'blue' } } }
      ]
    },
    { width: 120, height: 80 }
  );
  const before = children(v);
  let inst: any = v.interaction('tooltip', { selector: '#m', ...o });
  const on = o.trigger ?? 'pointermove';
  const off = o.triggerOff ?? 'pointerleave';
  // what was under the pointer when it was seen last; rows as they were then
  let under: any = null;
  let seen = false;
  let settled = true;
  let bound = true;
  const marks = (k: string) => (k === 'o' ? v.getMarkById('other').elements[0] : v.getMarkById('m').elements.find((e: any) => e.key === k || e.getDatum().k === k));
  const XY: Record<string, [number, number]> = { a: [15, 15], b: [55, 20], o: [15, 45], '0': [110, 70] };
  const comp = () => layerOf(v).getChildren().filter((x: any) => !before.includes(x._uid))[0];
  const verify = (what: string) => {
    const t: any = comp();
    if (!bound) {
      eq(children(v), before, 'removed', 'graphics after ' + what);
      return;
    }
    ok(!!t, 'component', what + ': there is no tooltip');
    if (!seen) return;
    eq(t.attribute.visible !== false, !!under, 'visible', 'after ' + what + ' the tooltip is shown');
    if (!under) return;
    const want = said(o, under.datum, { sig: 7 });
    eq(cell(t.attribute.title), cell(want.title), 'title', 'title after ' + what);
    eq((t.attribute.content ?? []).map(cell), (want.content ?? []).map(cell), 'content', 'rows after ' + what);
    eq([t.attribute.pointerX, t.attribute.pointerY], under.at, 'position', 'position after ' + what);
    eq([t.attribute.parentBounds.x1, t.attribute.parentBounds.y1, t.attribute.parentBounds.x2, t.attribute.parentBounds.y2], [0, 0, 120, 80], 'bounds', 'bounds after ' + what);
    if (o.attributes) eq(t.attribute.offsetX, under.datum.y + 7, 'attributes', 'attributes after ' + what);
    ctx.compare(4);
  };
  c.ops.forEach((op: string, i: number) => {
    const what = c.ops.slice(0, i + 1).join('');
    if (op === 't') {
      vtime.advance(30);
      settled = true;
    } else if (op === 'd') {
      vtime.advance(30);
      settled = true;
      data = data.map(r => ({ ...r, y: r.y + 100 }));
      v.getDataById('t').values(data);
      v.run();
    } else if (op === 'l') {
      if (bound || off !== 'none') pointer(v, off === 'none' ? 'pointerleave' : off, 119, 79, null);
      if (bound && off !== 'none') {
        under = null;
        seen = true;
        // it disappears at once
        settled = true;
      }
    } else if (op === 'u' || op === 'x') {
      if (bound) v.removeInteraction(inst);
      bound = false;
      seen = false;
      under = null;
      if (op === 'u') {
        inst = v.interaction('tooltip', { selector: '#m', ...o });
        bound = true;
      }
      settled = true;
    } else {
      const el = op === '0' ? null : marks(op);
      pointer(v, on, XY[op][0], XY[op][1], el ? el.getGraphicItem() : null);
      if (bound) {
        seen = true;
        under = op === 'a' || op === 'b' ? { datum: { ...data.find(r => r.k === op) }, at: XY[op] } : null;
        settled = false;
        if (i === 0) settled = true;
      }
    }
    if (settled) verify(what);
    ctx.step();
  });
  vtime.advance(50);
  verify(c.ops.join('') + ' and a pause');
  // nothing is shown later
  if (bound) v.removeInteraction(inst);
  bound = false;
  vtime.advance(50);
  verify(c.ops.join('') + ' and the removal');
  ctx.state(c.config + JSON.stringify(under) + bound + seen);
}

// a scale of each kind along a length, and what it says of a place
function scaleOf(kind: string, length: number) {
  const size = 3;
  if (kind === 'linear') return { spec: { type: 'linear', domain: [0, 10], range: [0, length] }, band: 0, step: 0, invert: (p: number) => (p / length) * 10, center: (p: number) => p, start: (p: number) => p };
  if (kind === 'point') {
    const step = length / (size - 1);
    const i = (p: number) => Math.max(0, Math.min(2, Math.round(p / step)));
    return { spec: { type: 'point', domain: ['a', 'b', 'c'], range: [0, length] }, band: 0, step, invert: (p: number) => 'abc'[i(p)], center: (p: number) => i(p) * step, start: (p: number) => i(p) * step };
  }
  const pad = kind === 'padded' ? 0.2 : 0;
  // n steps with inner and outer paddings of the same share
  const step = length / (size - pad + pad * 2);
  const band = step * (1 - pad);
  const start = (i: number) => (length - step * (size - pad)) / 2 + i * step;
  const i = (p: number) => [0, 1, 2].sort((a, b) => Math.abs(start(a) + band / 2 - p) - Math.abs(start(b) + band / 2 - p))[0];
  return { spec: { type: 'band', domain: ['a', 'b', 'c'], range: [0, length], padding: pad }, band, step, invert: (p: number) => 'abc'[i(p)], center: (p: number) => start(i(p)) + band / 2, start: (p: number) => start(i(p)) };
}
const lengthOf = (type: string) => (type === 'x' ? GW : type === 'y' ? GH : type === 'angle' ? Math.PI * 2 : 75);
const angleOf = (c: number[], p: number[]) => {
  const a = Math.atan2(p[1] - c[1], p[0] - c[0]);
  return a < 0 ? a + Math.PI * 2 : a;
};

function scene(scale: any, at: string, filter = '') {
  const origin = at === 'group' ? [30, 20] : [0, 0];
  const inner: any[] = [
    { type: 'rect', id: 'm', from: { data: 't' }, key: 'k', encode: { update: { x: { field: 'x' }, y: 10, width: 20, height: 20, fill: 'red' } } },
    { type: 'rect', id: 'avoid', encode: { update: { x: 40, y: 40, width: 20, height: 10, fill: 'blue' } } }
  ];
  const v = view(
    {
      scales: [{ id: 's', ...scale }],
      data: [{ id: 't', values: ROWS.map((r, i) => ({ ...r, v: [0, 3, 8][i] })).concat([{ k: 'a', x: 70, y: 9, s: 'star', z: 1, v: 5 }]) }],
      marks: at === 'group' ? [{ type: 'group', id: 'g', encode: { update: { x: origin[0], y: origin[1], width: GW, height: GH } }, marks: inner }] : inner
    },
    at === 'group' ? { width: 200, height: 120 } : { width: GW, height: GH }
  );
  return { v, origin };
}

function dim(c: any, ctx: any) {
  const length = lengthOf(c.type);
  const s = scaleOf(c.scale, length);
  const { v, origin } = scene(s.spec, c.at);
  const before = children(v);
  let data: any[] = v.getDataById('t').getValue().slice();
  const o: any = {
    title: (d: any) => ({ value: { text: String(d.length) } }),
    content: [{ key: { field: 'k' }, value: { field: 'y' } }]
  };
  const filter = c.filter === 'k' ? 'k' : c.filter === 'eq' ? (d: any, x: any) => d.k === x : (d: any, x: any) => Math.abs(d.v - x) < 2.5;
  const center = c.type === 'angle' ? { x: 100, y: 50 } : undefined;
  v.interaction('dimension-tooltip', { scale: c.filter === 'eq' ? v.getScaleById('s') : 's', tooltipType: c.type, target: { data: 't', filter }, avoidMark: '#avoid', container: c.at === 'group' ? '#g' : undefined, center, ...o });
  const mid = center ? [center.x, center.y] : [GW / 2, GH / 2];
  let under: any = null;
  let seen = false;
  c.ops.forEach((op: string, i: number) => {
    const what = c.ops.slice(0, i + 1).join(' ');
    if (op === 'l') {
      pointer(v, 'pointerleave', 1, 1, null);
      under = null;
      seen = true;
    } else if (op === 'd') {
      data = data.map(r => ({ ...r, y: r.y + 50 })).reverse();
      v.getDataById('t').values(data);
      v.run();
    } else {
      const p = op === 'v' ? [50, 45] : AT[op];
      const avoid = op === 'v';
      pointer(v, 'pointermove', p[0] + origin[0], p[1] + origin[1], avoid ? v.getMarkById('avoid').elements[0].getGraphicItem() : null);
      seen = true;
      if (avoid || p[0] < 0 || p[0] > GW || p[1] < 0 || p[1] > GH) under = null;
      else {
        const along = c.type === 'x' ? p[0] : c.type === 'y' ? p[1] : c.type === 'radius' ? Math.hypot(p[0] - mid[0], p[1] - mid[1]) : angleOf(mid, p);
        const x: any = s.invert(along);
        under = { at: p, rows: data.filter(d => (c.filter === 'near' ? Math.abs(d.v - x) < 2.5 : d.k === x)).map(d => ({ ...d })) };
      }
    }
    if (i % 2 === 0 || i === c.ops.length - 1) vtime.advance(30);
    else return;
    if (!seen) return;
    const t: any = layerOf(v).getChildren().filter((x: any) => !before.includes(x._uid))[0];
    ok(!!t, 'component', what + ': there is no tooltip');
    eq(t.attribute.visible !== false, !!under, 'dim:visible', 'after ' + what + ' the tooltip is shown');
    if (!under) return;
    eq([t.attribute.pointerX, t.attribute.pointerY], under.at, 'dim:position', 'position after ' + what);
    // without anything to say, the rows are left as they are
    if (under.rows.length) {
      eq(t.attribute.title?.value?.text, String(under.rows.length), 'dim:title', 'title after ' + what);
      eq((t.attribute.content ?? []).map(cell), under.rows.map((d: any) => cell(row(o.content[0], d, {}))), 'dim:content', 'rows after ' + what);
    }
    ctx.step();
    ctx.compare(4);
  });
  ctx.state(c.type + c.scale + JSON.stringify(under));
}

const near = (a: any, b: any) => typeof a === 'number' && typeof b === 'number' && Math.abs(a - b) < 1e-6;
function cross(c: any, ctx: any) {
  const along = c.type === 'x' ? 'x' : c.type === 'y' ? 'y' : c.type === 'angle' ? 'angle' : 'radius';
  const length = lengthOf(along);
  let s = scaleOf(c.scale, length);
  const { v, origin } = scene(s.spec, c.at);
  const before = children(v);
  const straight = c.type === 'x' || c.type === 'y';
  const center = c.custom === 'center' ? { x: 50, y: 25 } : undefined;
  const spec: any = { scale: c.custom === 'size' ? v.getScaleById('s') : 's', crosshairType: c.type, crosshairShape: c.shape, container: c.at === 'group' ? '#g' : undefined };
  if (center) spec.center = center;
  if (c.custom === 'center' && !straight) spec.radius = 28;
  const sized = c.custom === 'size' && straight && c.shape === 'rect' && c.scale === 'linear';
  if (sized) spec.attributes = { rectStyle: c.type === 'x' ? { width: 24 } : { height: 24 } };
  else if (c.custom === 'size') spec.attributes = () => ({ zIndex: 3 });
  let inst = v.interaction('crosshair', spec);
  const mid = center ? [center.x, center.y] : [GW / 2, GH / 2];
  const limit = spec.radius ?? Math.min(GW, GH) / 2;
  let under: number[] | null = null;
  let seen = false;
  c.ops.forEach((op: string, i: number) => {
    const what = c.ops.slice(0, i + 1).join(' ');
    if (op === 'l') {
      pointer(v, 'pointerleave', 1, 1, null);
      under = null;
      seen = true;
    } else if (op === 'u') {
      v.removeInteraction(inst);
      eq(children(v), before, 'cross:removed', 'graphics after ' + what);
      inst = v.interaction('crosshair', spec);
      seen = false;
      under = null;
    } else if (op === 'd') {
      // half of the range
      const half = length / 2;
      s = scaleOf(c.scale, half);
      v.getScaleById('s').range([0, half]);
      v.run();
      return;
    } else {
      const p = AT[op];
      pointer(v, 'pointermove', p[0] + origin[0], p[1] + origin[1], null);
      seen = true;
      under = p[0] < 0 || p[0] > GW || p[1] < 0 || p[1] > GH ? null : p;
      ctx.step();
    }
    if (!seen) return;
    const t: any = layerOf(v).getChildren().filter((x: any) => !before.includes(x._uid))[0];
    ok(!!t, 'cross:component', what + ': there is no crosshair');
    eq(t.attribute.visible !== false, !!under, 'cross:visible', 'after ' + what + ' the crosshair is shown');
    if (!under) return;
    const a = t.attribute;
    const child = t.getChildren()[0].attribute;
    if (c.custom === 'size' && !sized) eq(a.zIndex, 3, 'cross:attributes', 'attributes after ' + what);
    const value = c.type === 'x' ? under[0] : c.type === 'y' ? under[1] : along === 'angle' ? angleOf(mid, under) : Math.hypot(under[0] - mid[0], under[1] - mid[1]);
    const want = s.center(value);
    const at = (got: any, expected: any, sig: string) => ok(near(got, expected), 'cross:' + sig, `${what}: ${sig} of ${show(c)} is ${got}, expected ${expected}`);
    // drawn where the container is
    const ox = (a.x ?? 0) + 0;
    const oy = (a.y ?? 0) + 0;
    ctx.compare(3);
    if (straight && c.shape === 'line') {
      const [w, h] = c.type === 'x' ? [0, GH] : [GW, 0];
      at(a.start.x + ox, (c.type === 'x' ? want : 0) + origin[0], 'start x');
      at(a.start.y + oy, (c.type === 'y' ? want : 0) + origin[1], 'start y');
      at(a.end.x - a.start.x, w, 'width');
      at(a.end.y - a.start.y, h, 'height');
    } else if (straight) {
      // a band of one step, or of the given size about the pointer
      const size = sized ? 24 : c.scale === 'linear' ? 10 : s.step;
      const from = c.scale === 'band' || c.scale === 'padded' ? s.start(value) : want - size / 2;
      at(child.x + ox, (c.type === 'x' ? from : 0) + origin[0], 'x');
      at(child.y + oy, (c.type === 'y' ? from : 0) + origin[1], 'y');
      at(child.width, c.type === 'x' ? size : GW, 'width');
      at(child.height, c.type === 'y' ? size : GH, 'height');
    } else if (c.type === 'angle' && c.shape === 'line') {
      at(a.start.x + ox, mid[0] + origin[0], 'start x');
      at(a.start.y + oy, mid[1] + origin[1], 'start y');
      at(a.end.x - a.start.x, limit * Math.cos(want), 'end x');
      at(a.end.y - a.start.y, limit * Math.sin(want), 'end y');
    } else if (c.type === 'angle') {
      const angle = c.scale === 'linear' ? Math.PI / 6 : s.step;
      at(child.x + ox, mid[0] + origin[0], 'center x');
      at(child.y + oy, mid[1] + origin[1], 'center y');
      at(child.outerRadius, limit, 'radius');
      at(child.endAngle - child.startAngle, angle, 'angle');
      at(Math.cos((child.startAngle + child.endAngle) / 2), Math.cos(want), 'direction');
      at(Math.sin((child.startAngle + child.endAngle) / 2), Math.sin(want), 'direction');
    } else {
      const radius = c.scale === 'linear' ? Math.min(limit, want) : want;
      if (c.type === 'radius-polygon') {
        at(a.center.x + ox, mid[0] + origin[0], 'center x');
        at(a.center.y + oy, mid[1] + origin[1], 'center y');
        at(a.radius, radius, 'radius');
        const first = /^M([^,]+),([^L]+)L/.exec(child.path);
        ok(!!first, 'cross:path', 'no outline');
        at(+first[1], a.center.x + radius, 'outline');
      } else {
        // the circle itself has the place of the component
        at(child.x + (c.shape === 'line' ? 0 : ox), mid[0] + origin[0], 'center x');
        at(child.y + (c.shape === 'line' ? 0 : oy), mid[1] + origin[1], 'center y');
        at(child.outerRadius, c.shape === 'line' ? radius : radius + s.step / 2, 'radius');
        if (c.shape === 'rect') at(child.innerRadius, radius - s.step / 2, 'inner radius');
      }
    }
  });
  ctx.state(c.type + c.shape + c.scale + JSON.stringify(under));
}

check<Case>({
  id: 'I07',
  level: 'model_checking',
  rule:
    'all sequences (to the depth) of pointer moves onto elements, other marks and blank areas, leaves, pauses, changes of data and removals of the interaction, for tooltips with every kind of row; moves inside and around the container for tooltips of a dimension and for crosshairs, for each type, shape, kind of scale, container and custom option; ' +
    'visibility, rows, position and geometry of the component are compared with a model of what is under the pointer',
  *cases(ctx) {
    for (const config of Object.keys(TIPS)) {
      const depth = config === 'fields' ? (ctx.thorough ? 6 : 4) : ctx.thorough ? 5 : 3;
      for (const ops of sequences(['a', 'b', 'o', '0', 'l', 't', 'd'], depth, depth)) yield { kind: 'tip', config, ops };
      for (const ops of sequences(['a', 'b', 'o', 'l', 'u', 'x'], ctx.thorough ? 4 : 3, 1)) if (ops.includes('u') || ops.includes('x')) yield { kind: 'tip', config, ops };
    }
    for (const type of ['x', 'y', 'radius', 'angle'])
      for (const scale of ['band', 'padded', 'linear'])
        for (const filter of scale === 'linear' ? ['near'] : ['k', 'eq'])
          for (const at of ['group', 'root'])
            for (const ops of sequences(['p', 'q', 's', 'o1', 'o4', 'v', 'l', 'd'], ctx.thorough ? 4 : at === 'group' && type !== 'y' ? 3 : 2, 1)) yield { kind: 'dim', type, scale, filter, at, ops };
    for (const [type, shape] of shapes)
      for (const scale of ['band', 'padded', 'point', 'linear'])
        for (const at of ['group', 'root'])
          for (const custom of ['', 'size', 'center'])
            for (const ops of sequences(ctx.thorough ? ['p', 'q', 'r', 'o1', 'o2', 'o3', 'o4', 'l', 'd', 'u'] : ['p', 'r', 'o1', 'o4', 'l', 'd', 'u'], ctx.thorough ? 3 : 2, 1)) yield { kind: 'cross', type, shape, scale, at, custom, ops };
  },
  run(c, ctx) {
    try {
      if (c.kind === 'tip') tip(c, ctx);
      else if (c.kind === 'dim') dim(c, ctx);
      else cross(c, ctx);
    } finally {
      releaseAll();
    }
  }
});


// C02: components show the current scale, data, target, options, theme and signals.
import { newView, releaseAll } from '../lib/vg';
import { check, eq, firstDiff, ok, sequences, show } from '../lib/kit';

type W = any;
type Edit = { n: string; w: (w: W) => void; f: (v: any, w: W) => void };
type C = { kind: string; edits: string[] };

const ROWS = [
  [{ k: 'a', v: 4, g: 'p' }, { k: 'b', v: 7, g: 'q' }],
  [{ k: 'b', v: 9, g: 'q' }, { k: 'c', v: 1, g: 'p' }, { k: 'a', v: 5, g: 'q' }],
  []
];
const DOMS: any[] = [[0, 10], [2, 5], [0, 100]];
const BANDS: any[] = [['a', 'b', 'c'], ['c', 'x'], ['a', 'a', 'b']];
const COLS: any[] = [['red', 'blue'], ['#00ff00', 'tan', 'navy']];
const SEQ: any[] = [['#ffffff', '#ff0000'], ['#00ff00', '#000000'], [5, 20]];
const SHAPES: any[] = [['circle', 'square'], ['star', 'wye', 'cross']];
const theme = (name: string, n: number, c: string) => ({
  name, padding: 0,
  components: {
    axis: { tick: { length: n }, label: { style: { fill: c } } },
    circleAxis: { tick: { length: n } },
    grid: { depth: n },
    circleGrid: { depth: n },
    discreteLegend: { items: [{ shape: { style: { size: n }, fill: c } }], title: { text: c } },
    colorLegend: { railWidth: 30 + n },
    sizeLegend: { railWidth: 30 + n },
    dataLabel: { zIndex: n },
    rectLabel: { offset: n, data: [{ fontSize: n }] }, symbolLabel: { offset: n + 1, data: [{ fontSize: 1 }] }, pointLabel: { offset: n + 2, smartInvert: false },
    lineLabel: { offset: n + 3, smartInvert: false }, lineDataLabel: { offset: n + 4, smartInvert: false },
    slider: { railWidth: 40 + n }, title: { textStyle: { fill: c } }, scrollbar: { width: n, height: n + 1 },
    datazoom: { brushSelect: n > 4 }, discretePlayer: { interval: 100 + n }, continuousPlayer: { interval: 50 + n }
  }
});
const THEMES: any[] = [theme('one', 3, 'red'), theme('two', 5, 'blue')];

const scaleSpec: Record<string, (w: W) => any> = {
  lin: w => ({ type: 'linear', domain: DOMS[w.dom], range: [0, 60] }),
  band: w => ({ type: 'band', domain: BANDS[w.band], range: [0, 60] }),
  col: w => ({ type: 'ordinal', domain: BANDS[w.band], range: COLS[w.col] }),
  seq: w => ({ type: 'linear', domain: DOMS[w.dom], range: SEQ[w.seq] }),
  shp: w => ({ type: 'ordinal', domain: BANDS[w.band], range: SHAPES[w.shp] }),
  shq: w => ({ type: 'ordinal', domain: BANDS[w.band], range: ['arrow'] }),
  px: w => ({ type: 'linear', domain: DOMS[w.dom], range: { coordinate: 'cart', dimension: 'x' } }),
  py: w => ({ type: 'linear', domain: DOMS[w.dom], range: { coordinate: 'cart', dimension: 'y', isSubshaft: true } }),
  pr: w => ({ type: 'linear', domain: DOMS[w.dom], range: { coordinate: 'pol', dimension: 'r' } }),
  pt: w => ({ type: 'band', domain: BANDS[w.band], range: { coordinate: 'pol', dimension: 'theta' } })
};
const ENC: Record<string, any> = {
  none: {},
  const: { x: 3, y: 4 },
  sig: { x: { signal: 's' }, y: 2 },
  scl: { x: { scale: 'lin', value: 1 }, y: { scale: 'band', value: 'b', band: 0.5, offset: 1 } },
  fn: { x: { callback: (d: any, el: any, p: any) => p.s * 2, dependency: ['s'] } },
  one: { signal: 'o' },
  all: { callback: (d: any, el: any, p: any) => ({ x: p.s, y: 9 }), dependency: ['s'] }
};
const OPT: Record<string, any> = {
  none: undefined,
  two: 2,
  seven: 7,
  sig: { signal: 's' },
  fn: { callback: (...a: any[]) => a[a.length - 1].s + 1, dependency: ['s'] },
  yes: true,
  ysig: { callback: (...a: any[]) => a[a.length - 1].s > 4, dependency: ['s'] }
};

const START = { s: 3, dom: 0, band: 0, col: 0, seq: 0, shp: 0, rows: 0, size: 60, theme: 0, tgt: 'sy', enc: 'none', scale: 'lin', co: 50 };
const TEXT: Record<string, any> = { none: undefined, t: 'hello', sig: { signal: 's' }, fn: OPT.fn, arr: ['p', 'q'] };
const LSTYLE: Record<string, any> = { none: undefined, pos: { position: 'top' }, line: { type: 'line', offset: 4 }, fn: { callback: (m: any, p: any) => ({ offset: p.s, position: m.markType }), dependency: ['s'] } };
const LENC: Record<string, any> = {
  none: {},
  fld: { text: { field: 'k' } },
  fn: { text: { callback: (d: any, el: any, p: any) => `${d.k}${p.s}${p.labelIndex ?? ''}`, dependency: ['s'] }, fill: 'red' },
  scl: { text: { scale: 'lin', field: 'v' }, dx: { scale: 'band', field: 'k' } },
  all: (d: any) => ({ text: d.v, dy: 1 })
};

/** specs become property of the view */
const cl = (x: any): any => (Array.isArray(x) ? x.map(cl) : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).map(([k, y]) => [k, cl(y)])) : x);

function component(kind: string, w: W): any {
  const base = { type: 'component', id: 'c', componentType: kind, encode: { update: ENC[w.enc] } };
  switch (kind) {
    case 'axis': return { ...base, scale: w.scale, axisType: w.type, tickCount: OPT[w.tick], inside: OPT[w.inside], baseValue: OPT[w.base] };
    case 'grid': return { ...base, ...(w.axis ? { target: 'ax' } : {}), scale: w.scale, gridType: w.type, gridShape: w.shape, tickCount: OPT[w.tick], inside: OPT[w.inside], baseValue: OPT[w.base] };
    case 'legend': return { ...base, scale: w.scale, legendType: w.type, shapeScale: w.shape };
    case 'label': return { ...base, target: w.tgt, labelStyle: LSTYLE[w.style], size: w.lsize ? { width: 11, height: 12 } : undefined, encode: { update: LENC[w.lenc ?? 'none'] } };
    case 'slider': return { ...base, min: OPT[w.min], max: OPT[w.max] };
    case 'title': return { ...base, title: TEXT[w.title], subTitle: TEXT[w.sub] };
    case 'scrollbar': return { ...base, container: w.cont, direction: w.dir, position: w.pos, encode: { update: w.enc === 'none' ? {} : { range: [0, 0.5], ...ENC[w.enc] } } };
    case 'datazoom': return { ...base, preview: w.data ? { data: w.data, x: PREV[w.px], y: PREV[w.py] } : undefined, encode: { update: { position: { x: 0, y: 0 }, size: { width: 50, height: 10 }, ...(w.enc === 'const' ? { orient: 'bottom', start: 0.1 } : {}) } } };
    case 'player': return { ...base, source: w.src === 'arr' ? [1, 2, 3] : w.src, playerType: w.type, encode: { update: { position: { x: 0, y: 0 }, size: { width: 50, height: 10 }, total: 100, disableTriggerEvent: true, ...(w.enc === 'const' ? { interval: 7 } : {}) } } };
  }
}
const PREV: Record<string, any> = { none: undefined, k: { scale: 'band', field: 'k' }, v: { scale: 'lin', field: 'v' }, n: { scale: 'lin', field: 'v', offset: 3 } };

function spec(kind: string, w: W): any {
  return {
    padding: 0,
    theme: THEMES[w.theme],
    signals: [{ id: 's', value: w.s }, { id: 'o', value: { x: w.s, y: w.s + 1 } }],
    data: [{ id: 'd', values: ROWS[w.rows] }, { id: 'e', values: [{ k: 'c', v: 2 }] }],
    coordinates: [{ id: 'cart', type: 'cartesian', start: [0, w.co], end: [w.co, 0] }, { id: 'pol', type: 'polar', start: [0, 0], end: [w.co, w.co] }],
    scales: Object.keys(scaleSpec).map(id => ({ id, ...scaleSpec[id](w) })),
    marks: [
      {
        id: 'g', type: 'group', encode: { update: { x: 1, width: w.size, height: 50 } },
        marks: [
          { id: 'sy', type: 'symbol', from: { data: 'd' }, key: 'k', encode: { update: { x: { scale: 'lin', field: 'v' }, y: 5, size: 4, fill: '#112233' } } },
          { id: 'r', type: 'rect', from: { data: 'd' }, key: 'k', encode: { update: { x: { scale: 'band', field: 'k' }, y: 5, width: 4, height: 9, fill: '#aa2233' } } },
          { id: 'l', type: 'line', from: { data: 'd' }, groupBy: 'g', encode: { update: { x: { scale: 'lin', field: 'v' }, y: 5, stroke: '#123456' } } },
          { id: 'h', type: 'group', encode: { update: { x: 1, width: 30, height: w.size / 2 } } },
          ...(kind === 'grid' ? [{ type: 'component', id: 'ax', componentType: 'axis', scale: w.axis ?? 'lin', axisType: w.atype, encode: { update: {} } }] : []),
          component(kind, w)
        ]
      }
    ]
  };
}
const c = (v: any) => v.getMarkById('c');
const set = (key: string, value: any, f: (v: any) => void): Edit => ({ n: `${key}=${value}`, w: w => { w[key] = value; }, f });

const common: Edit[] = [
  set('s', 5, v => { v.getSignalById('s').value(5); v.getSignalById('o').value({ x: 5, y: 6 }); }),
  { n: 'dom=1', w: w => { w.dom = 1; }, f: v => ['lin', 'seq', 'px', 'py', 'pr'].forEach(id => v.getScaleById(id).domain(DOMS[1])) },
  { n: 'band=1', w: w => { w.band = 1; }, f: v => ['band', 'col', 'shp', 'shq', 'pt'].forEach(id => v.getScaleById(id).domain(BANDS[1])) },
  set('theme', 1, v => v.setCurrentTheme(THEMES[1])),
  set('size', 44, v => v.getMarkById('g').encode('width', 44) && v.getMarkById('h').encode('height', 22)),
  set('enc', 'const', v => c(v).encode(cl(ENC.const))),
  set('enc', 'sig', v => c(v).encode(cl(ENC.sig))),
  set('enc', 'scl', v => c(v).encode(cl(ENC.scl))),
  set('enc', 'all', v => c(v).encodeState('update', cl(ENC.all))),
  set('enc', 'one', v => c(v).encodeState('update', cl(ENC.one))),
  set('enc', 'fn', v => c(v).encodeState('update', cl(ENC.fn)))
];
const pick = (...n: string[]) => common.filter(e => n.some(x => e.n === x || e.n.startsWith(x + '='))).map(e => ({ ...e }));
const encs = pick('enc');
const EDITS: Record<string, Edit[]> = {
  axis: [
    ...pick('s', 'dom', 'band', 'theme'), ...encs,
    set('co', 30, v => { v.getGrammarById('cart').start([0, 30]).end([30, 0]); v.getGrammarById('pol').end([30, 30]); }),
    ...['lin', 'band', 'px', 'py', 'pr', 'pt'].map(id => set('scale', id, v => c(v).scale(id))),
    set('scale', undefined, v => c(v).scale(undefined)),
    ...['circle', 'line', undefined].map(t => set('type', t, v => c(v).axisType(t))),
    ...['two', 'seven', 'sig', 'fn', 'none'].map(t => set('tick', t, v => c(v).tickCount(OPT[t]))),
    ...['yes', 'ysig', 'none'].map(t => set('inside', t, v => c(v).inside(OPT[t]))),
    ...['two', 'sig', 'none'].map(t => set('base', t, v => c(v).baseValue(OPT[t])))
  ],
  grid: [
    ...pick('s', 'dom', 'theme', 'enc=const'),
    set('co', 30, v => { v.getGrammarById('cart').start([0, 30]).end([30, 0]); v.getGrammarById('pol').end([30, 30]); }),
    ...['band', 'py', 'pr', 'pt'].map(id => set('scale', id, v => c(v).scale(id))),
    ...['lin', 'px', 'pt'].map(id => ({ n: `axis=${id}`, w: (w: W) => { w.axis = id; }, f: (v: any) => { v.getMarkById('ax').scale(id); c(v).target('ax'); } })),
    { n: 'axis=', w: (w: W) => { w.axis = undefined; }, f: (v: any) => { v.getMarkById('ax').scale('lin'); c(v).target(undefined); } },
    { n: 'ascale=pt', w: (w: W) => { if (w.axis) w.axis = 'pt'; }, f: (v: any, w: W) => { if (w.axis) v.getMarkById('ax').scale('pt'); } },
    ...['circle', undefined].map(t => set('atype', t, v => v.getMarkById('ax').axisType(t))),
    ...['circle', 'line', undefined].map(t => set('type', t, v => c(v).gridType(t))),
    ...['circle', 'polygon', 'line'].map(t => set('shape', t, v => c(v).gridShape(t))),
    ...['two', 'sig', 'none'].map(t => set('tick', t, v => c(v).tickCount(OPT[t]))),
    ...['yes', 'ysig', 'none'].map(t => set('inside', t, v => c(v).inside(OPT[t]))),
    ...['two', 'sig', 'none'].map(t => set('base', t, v => c(v).baseValue(OPT[t])))
  ],
  legend: [
    ...pick('s', 'dom', 'band', 'theme'), ...encs,
    set('col', 1, v => v.getScaleById('col').range(COLS[1])),
    set('seq', 1, v => v.getScaleById('seq').range(SEQ[1])),
    set('seq', 2, v => v.getScaleById('seq').range(SEQ[2])),
    set('shp', 1, v => v.getScaleById('shp').range(SHAPES[1])),
    ...['lin', 'col', 'seq', 'shp', undefined].map(id => set('scale', id, v => c(v).scale(id))),
    ...['shp', 'shq', undefined].map(id => set('shape', id, v => c(v).shapeScale(id))),
    ...['auto', 'discrete', 'color', 'size', undefined].map(t => set('type', t, v => c(v).legendType(t)))
  ],
  label: [
    ...pick('s', 'dom', 'theme', 'size'),
    set('rows', 1, v => v.getDataById('d').values(ROWS[1])),
    set('rows', 2, v => v.getDataById('d').values(ROWS[2])),
    ...['sy', 'r', 'l', ['sy', 'r'], undefined].map(t => set('tgt', t, v => c(v).target(t))),
    ...['pos', 'line', 'fn', 'none'].map(t => set('style', t, v => c(v).labelStyle(LSTYLE[t]))),
    set('lsize', true, v => c(v).size({ width: 11, height: 12 })),
    set('lsize', false, v => c(v).size(undefined)),
    ...['fld', 'fn', 'scl', 'all'].map(t => set('lenc', t, v => c(v).encodeState('update', cl(LENC[t]))))
  ],
  slider: [...pick('s', 'theme'), ...encs, ...['two', 'seven', 'sig', 'fn', 'none'].flatMap(t => [set('min', t, v => c(v).min(OPT[t])), set('max', t, v => c(v).max(OPT[t]))])],
  title: [...pick('s', 'theme'), ...encs, ...['t', 'sig', 'fn', 'arr', 'none'].flatMap(t => [set('title', t, v => c(v).title(TEXT[t])), set('sub', t, v => c(v).subTitle(TEXT[t]))])],
  scrollbar: [
    ...pick('s', 'theme', 'size', 'enc=const', 'enc=sig', 'enc=scl'),
    ...['horizontal', 'vertical', undefined].map(t => set('dir', t, v => c(v).direction(t))),
    ...['top', 'bottom', 'left', 'right', undefined].map(t => set('pos', t, v => c(v).position(t))),
    ...['h', 'g', 'sy', undefined].map(t => set('cont', t, v => c(v).container(t)))
  ],
  datazoom: [
    ...pick('s', 'dom', 'theme', 'band'), 
    set('enc', 'const', v => c(v).encode({ orient: 'bottom', start: 0.1 })),
    set('rows', 1, v => v.getDataById('d').values(ROWS[1])),
    ...[['d', 'k', 'v'], ['d', 'v', 'k'], ['e', 'k', 'n'], ['d', 'n', 'none'], [undefined, 'k', 'v']].map(([d, x, y]) => ({
      n: `preview=${d},${x},${y}`, w: (w: W) => { w.data = d; w.px = x; w.py = y; }, f: (v: any) => c(v).preview(d, PREV[x], PREV[y])
    }))
  ],
  player: [
    ...pick('s', 'theme'),
    set('enc', 'const', v => c(v).encode({ interval: 7 })),
    set('rows', 1, v => v.getDataById('d').values(ROWS[1])),
    ...['d', 'e', 'arr', undefined].map(t => set('src', t, v => c(v).source(t === 'arr' ? [1, 2, 3] : t))),
    ...['auto', 'discrete', 'continuous', undefined].map(t => set('type', t, v => c(v).playerType(t)))
  ]
};
EDITS.scrollbar.forEach(e => {
  if (e.n === 'enc=const' || e.n === 'enc=sig' || e.n === 'enc=scl') e.f = v => c(v).encode(cl({ range: [0, 0.5], ...ENC[e.n.slice(4)] }));
});
const clean = (x: any): any => {
  if (typeof x === 'function') return undefined;
  if (Array.isArray(x)) return x.map(clean);
  if (x && typeof x === 'object' && Object.getPrototypeOf(x) !== Object.prototype && Object.getPrototypeOf(x) !== null) return String(x.constructor?.name);
  if (x && typeof x === 'object') {
    const r: any = {};
    Object.keys(x).filter(k => !/VGRAMMAR_/.test(k)).sort().forEach(k => {
      const y = clean(x[k]);
      if (y !== undefined) r[k] = y;
    });
    return r;
  }
  return x;
};
const only = (a: any, b: any): any => {
  if (!a || !b || typeof a !== 'object' || typeof b !== 'object' || Array.isArray(a) !== Array.isArray(b)) return a;
  if (Array.isArray(a)) return a.map((x, i) => only(x, b[i]));
  const r: any = {};
  Object.keys(b).forEach(k => k in a && (r[k] = only(a[k], b[k])));
  return r;
};
function observe(v: any, kind: string): any {
  const m = c(v);
  const gi = m.elements[0]?.getGraphicItem();
  if (!gi) return null;
  const res: any = { type: gi.constructor.name, n: m.elements.length, attribute: clean(gi.attribute), parent: gi.parent === v.getMarkById('g').getGroupGraphicItem() };
  if (kind === 'datazoom') {
    const data = gi.attribute.previewData ?? [];
    const f = (n: string) => data.map((d: any) => gi[n]?.(d));
    res.preview = [f('_previewPointsX'), f('_previewPointsY'), f('_previewPointsX1'), f('_previewPointsY1')];
    res.value = [0, 0.25, 1].map(r => gi._statePointToData?.(r));
  }
  return res;
}

const GIVEN: Record<string, string> = { none: '', fn: 'x' };
const COMPONENTS_OF = { color: ['seq'], size: ['lin', 'seq'], auto: null as any };
/** options which the component of the kind has no meaning for are not given */
function legal(kind: string, w: W): boolean {
  if (kind === 'axis') return w.type !== 'circle' || w.scale === 'pt';
  if (kind === 'grid') {
    const scale = w.axis ?? w.scale;
    if (w.shape && w.shape !== 'line' && !/^p[xyr]/.test(String(scale))) return false;
    return (w.type !== 'circle' || scale === 'pt') && (w.atype !== 'circle' || w.axis === 'pt');
  }
  if (kind === 'legend') {
    if (w.type === 'color') return w.scale === 'seq' && w.seq < 2;
    if (w.type === 'size') return COMPONENTS_OF.size.includes(w.scale);
  }
  return true;
}
/** what the component shows, from the state of the world alone */
const num = (t: string, w: W): any => ({ two: 2, seven: 7, sig: w.s, fn: w.s + 1, yes: true, ysig: w.s > 4 } as any)[t];
const uniq = (xs: any[]) => xs.filter((x, i) => xs.indexOf(x) === i);
const lin = (w: W, v: number) => ((v - DOMS[w.dom][0]) / (DOMS[w.dom][1] - DOMS[w.dom][0])) * 60;
const bandAt = (w: W, k: string) => {
  const d = uniq(BANDS[w.band]);
  return d.includes(k) ? (60 / d.length) * d.indexOf(k) : undefined;
};
function given(w: W): any {
  switch (w.enc) {
    case 'const': return { x: 3, y: 4 };
    case 'sig': return { x: w.s, y: 2 };
    case 'scl': return { x: lin(w, 1), ...(w.band === 0 || w.band === 2 ? { y: bandAt(w, 'b')! + 30 / uniq(BANDS[w.band]).length + 1 } : {}) };
    case 'fn': return { x: w.s * 2 };
    case 'one': return { x: w.s, y: w.s + 1 };
    case 'all': return { x: w.s, y: 9 };
    default: return {};
  }
}
function semantics(kind: string, w: W, v: any): Record<string, [any, any]> {
  const gi = c(v).elements[0].getGraphicItem();
  const a = gi.attribute;
  const r: Record<string, [any, any]> = {};
  if (!['scrollbar', 'datazoom', 'player', 'label'].includes(kind)) Object.entries(given(w)).forEach(([ch, x]) => (r[ch] = [a[ch], x]));
  const id = kind === 'grid' ? w.axis ?? w.scale : w.scale;
  switch (kind) {
    case 'axis':
    case 'grid': {
      if (!id) break;
      const ticks = v.getScaleById(id).getScale().tickData(num(w.tick, w));
      const items = kind === 'axis' ? a.items[0] : a.items;
      r.items = [items.map((i: any) => [i.label, i.rawValue, i.value]), ticks.map((t: any) => [t.tick, t.tick, t.value])];
      if (kind === 'axis') r.type = [gi.constructor.name.replace(/^_|\d+$/g, ''), (w.type ?? (id === 'pt' ? 'circle' : 'line')) === 'circle' ? 'CircleAxis' : 'LineAxis'];
      else r.type = [gi.constructor.name.replace(/^_|\d+$/g, ''), (w.type ?? (w.axis ? w.atype : undefined) ?? (id === 'pt' ? 'circle' : 'line')) === 'circle' ? 'CircleAxisGrid' : 'LineAxisGrid'];
      break;
    }
    case 'legend': {
      if (!id) break;
      const cont = id === 'lin' || id === 'seq';
      const type = w.type && w.type !== 'auto' ? w.type : cont ? (id === 'seq' && w.seq < 2 ? 'color' : 'size') : 'discrete';
      r.type = [gi.constructor.name.replace(/^_|\d+$/g, ''), { discrete: 'DiscreteLegend', color: 'ColorContinuousLegend', size: 'SizeContinuousLegend' }[type as string]];
      const dom = cont ? DOMS[w.dom] : uniq(BANDS[w.band]);
      if (type === 'discrete') {
        r.labels = [a.items.map((i: any) => [i.label, i.id, i.index]), dom.map((d: any, i: number) => [String(d), i === 0 && d === 0 ? a.items[i]?.id : d, i])];
        if (id === 'col') r.fill = [a.items.map((i: any) => [i.shape.fill, i.shape.stroke]), dom.map((d: any, i: number) => [COLS[w.col][i % COLS[w.col].length], COLS[w.col][i % COLS[w.col].length]])];
        if (w.shape === 'shq') r.shape = [a.items.map((i: any) => i.shape.symbolType), dom.map(() => 'arrow')];
        if (w.shape === 'shp' && !cont) r.shape = [a.items.map((i: any) => i.shape.symbolType), dom.map((d: any, i: number) => SHAPES[w.shp][i % SHAPES[w.shp].length])];
      } else {
        r.range = [[a.min, a.max], dom];
        if (type === 'color') r.colors = [a.colors, SEQ[w.seq]];
      }
      break;
    }
    case 'label': {
      const targets = w.tgt === undefined ? [] : Array.isArray(w.tgt) ? w.tgt : [w.tgt];
      r.count = [a.dataLabels.length, targets.length];
      const rows: any[] = w.rows === 1 ? ROWS[1] : w.rows === 2 ? [] : ROWS[0];
      const text = (d: any, i: number) => ({ fld: d.k, fn: `${d.k}${w.s}${i}`, scl: lin(w, d.v), all: d.v } as any)[w.lenc];
      targets.forEach((t: string, i: number) => {
        const groups = t === 'l' ? uniq(rows.map(d => d.g)).map(g => rows.filter(d => d.g === g)) : rows.map(d => [d]);
        r['text' + i] = [a.dataLabels[i].data.map((d: any) => d.text ?? null).sort(), groups.flat().map((d: any) => text(d, i) ?? null).sort()];
        r['base' + i] = [a.dataLabels[i].getBaseMarks().length, groups.length];
      });
      r.size = [a.size, w.lsize ? { width: 11, height: 12 } : { width: w.size, height: 50 }];
      break;
    }
    case 'slider': {
      const min = num(w.min, w) ?? 0, max = num(w.max, w) ?? 1;
      r.min = [a.min, min];
      r.max = [a.max, max];
      r.value = [a.value, [min, max]];
      break;
    }
    case 'title': {
      const t = (n: string) => ({ t: 'hello', sig: w.s, fn: w.s + 1, arr: ['p', 'q'] } as any)[n];
      if (t(w.title) !== undefined) r.title = [a.text, t(w.title)];
      if (t(w.sub) !== undefined) r.sub = [a.subtext, t(w.sub)];
      break;
    }
    case 'scrollbar': {
      const horizontal = w.dir ? w.dir === 'horizontal' : w.pos ? /top|bottom/.test(w.pos) : true;
      const size = w.cont === 'h' ? { width: 30, height: w.size / 2 } : { width: w.size, height: 50 };
      const th = THEMES[w.theme].components.scrollbar;
      r.direction = [a.direction, horizontal ? 'horizontal' : 'vertical'];
      const box: any = horizontal
        ? { x: 0, width: size.width, height: th.height, y: w.pos === 'top' ? 0 : size.height - th.height }
        : { y: 0, height: size.height, width: th.width, x: w.pos === 'left' ? 0 : size.width - th.width };
      Object.assign(box, given(w));
      Object.keys(box).forEach(ch => (r[ch] = [a[ch], box[ch]]));
      break;
    }
    case 'datazoom': {
      if (!w.data) break;
      const rows: any[] = w.data === 'e' ? [{ k: 'c', v: 2 }] : ROWS[w.rows];
      const at = (p: string, d: any) => ({ k: bandAt(w, d.k), v: lin(w, d.v), n: lin(w, d.v) + 3 } as any)[p];
      r.px = [rows.map((d, i) => gi._previewPointsX(a.previewData[i])), rows.map(d => at(w.px, d))];
      r.py = [rows.map((d, i) => gi._previewPointsY(a.previewData[i])), rows.map(d => at(w.py, d))];
      r.n = [a.previewData.length, rows.length];
      break;
    }
    case 'player': {
      const rows: any[] = w.src === 'arr' ? [1, 2, 3] : w.src === 'e' ? [{ k: 'c', v: 2 }] : w.src === 'd' ? ROWS[w.rows] : [];
      r.data = [a.data.map((d: any) => d.k ?? d), rows.map((d: any) => d.k ?? d)];
      r.type = [gi.constructor.name.replace(/^_|\d+$/g, ''), w.type === 'continuous' ? 'ContinuousPlayer' : 'DiscretePlayer'];
    }
  }
  return r;
}
const find = (kind: string, n: string) => EDITS[kind].find(e => e.n === n)!;

function start(kind: string): W {
  const w: W = { ...START };
  if (kind === 'legend') w.scale = 'col';
  if (kind === 'grid') w.scale = 'px';
  if (kind === 'datazoom') { w.data = 'd'; w.px = 'k'; w.py = 'v'; }
  if (kind === 'player') w.src = 'd';
  return w;
}

check<C>({
  id: 'C02',
  level: 'model-checked',
  rule:
    'all sequences (to the depth) of edits of one component of each kind (axis, grid, legend, label, slider, title, scroll bar, data zoom, player): its scale, shape scale, target, container, source, preview, type, options and encoding (constants, signals, scales, functions), and of the domains and ranges of the scales, the coordinates, data, signals, theme and sizes; ' +
    'after each sequence the component is compared with that of a view built from the final spec, and with what follows from the state alone (ticks, items and colours, texts, limits, boxes, previewed points)',
  assumptions: 'component graphics of the component library merge attributes, so attributes which are not specified any more are not judged; types of components are combined with scales they have a meaning for only',
  *cases(ctx) {
    for (const kind of Object.keys(EDITS)) {
      const names = EDITS[kind].map(e => e.n);
      for (const edits of sequences(names, ctx.thorough && names.length < 32 ? 3 : 2, 0)) {
        const w = start(kind);
        if (edits.every(n => (find(kind, n).w(w), legal(kind, w)))) yield { kind, edits };
      }
    }
  },
  run(k, ctx) {
    const w = start(k.kind);
    try {
      const v = newView();
      v.parseSpec(cl(spec(k.kind, w)));
      v.run();
      for (const n of k.edits) {
        const e = find(k.kind, n);
        e.w(w);
        e.f(v, w);
        v.run();
        ctx.step();
      }
      const u = newView();
      u.parseSpec(cl(spec(k.kind, w)));
      u.run();
      const seen = semantics(k.kind, w, v);
      Object.keys(seen).forEach(x => (ctx.compare(), eq(seen[x][0], seen[x][1], `${k.kind}!${x}`, `${x} of the ${k.kind} after [${k.edits.join(' ')}]`)));
      const a = observe(v, k.kind);
      const b = observe(u, k.kind);
      ctx.state(show(b, 4000));
      // attributes which are not specified any more are left as they are
      if (b) {
        if (/axis|grid/.test(k.kind) && (!/^p/.test(String(w.axis ?? w.scale)) || w.type === 'line')) ['start', 'end'].forEach(x => delete b.attribute[x]);
        ['x', 'y'].filter(x => GIVEN[w.enc] && !GIVEN[w.enc].includes(x)).forEach(x => k.kind !== 'scrollbar' && delete b.attribute[x]);
        if (a) a.attribute = only(a.attribute, b.attribute);
      }
      if (k.kind === 'datazoom' && !w.data && a) delete a.preview, delete b.preview;
      eq(a, b, `${k.kind}:${(firstDiff(a, b) ?? '').split(':')[0].slice(0, 60)}`, `${k.kind} after [${k.edits.join(' ')}] against a fresh view`);
    } finally {
      releaseAll();
    }
  },
  nontrivial: c => c.edits.length > 0
});

// J01: projections reflect their current configuration and fit their data.
import { check, eq, ok, product, sequences, tuples } from '../lib/kit';
import { newView, releaseAll } from '../lib/vg';
import { registerProjection, registerGeoTransforms, projection as lookup } from '@visactor/vgrammar-projection';
// the reference: d3-geo itself, set up from the final definitions only
import * as d3 from '@repo/vgrammar-projection/node_modules/d3-geo/src/index.js';

registerProjection();
registerGeoTransforms();
const D: any = d3;
const TYPES: Record<string, string> = {
  albers: 'geoAlbers', albersUsa: 'geoAlbersUsa', azimuthalEqualArea: 'geoAzimuthalEqualArea', azimuthalEquidistant: 'geoAzimuthalEquidistant',
  conicConformal: 'geoConicConformal', conicEqualArea: 'geoConicEqualArea', conicEquidistant: 'geoConicEquidistant', equalEarth: 'geoEqualEarth',
  equirectangular: 'geoEquirectangular', gnomonic: 'geoGnomonic', identity: 'geoIdentity', mercator: 'geoMercator', naturalEarth1: 'geoNaturalEarth1',
  orthographic: 'geoOrthographic', stereographic: 'geoStereographic', transverseMercator: 'geoTransverseMercator'
};
const SETTERS = ['clipAngle', 'clipExtent', 'scale', 'translate', 'center', 'rotate', 'precision', 'reflectX', 'reflectY', 'parallels'];
const poly = (x: number, y: number, w: number, h: number) => ({ type: 'Polygon', coordinates: [[[x, y], [x, y + h], [x + w, y + h], [x + w, y], [x, y]]] });
/** inside every projection, albersUsa included */
const A: any = { type: 'Feature', k: 0, geometry: poly(-100, 35, 10, 5) };
const B: any = { type: 'Feature', k: 1, geometry: poly(-90, 30, 4, 12) };
const P: any = { type: 'Feature', k: 2, geometry: { type: 'Point', coordinates: [-95, 38] } };
const L: any = { type: 'Feature', k: 3, geometry: { type: 'LineString', coordinates: [[-110, 40], [-80, 33]] } };
const GEO = [A, B, P, L];
const POINTS: [number, number][] = [[-100, 40], [-90, 33], [-95, 38], [-85, 36]];
const EXTENT: any = [[10, 20], [210, 140]];
const EXTENT2: any = [[0, 0], [50, 300]];

/** a projection in the sense of d3, with the final definitions; s is the value of the signal */
function reference(def: any, s: number) {
  const p = D[TYPES[Object.keys(TYPES).find(t => t.toLowerCase() === def.type.toLowerCase())!]]();
  const val = (k: string) => {
    const v = def[k];
    if (v === null || v === undefined) return undefined;
    return typeof v === 'function' ? v(null, { s }) : v.signal ? s : v.callback ? v.callback(null, { s }) : v;
  };
  SETTERS.forEach(k => val(k) !== undefined && p[k] && p[k](val(k)));
  const path = D.geoPath().projection(p);
  if (val('pointRadius') !== undefined) path.pointRadius(val('pointRadius'));
  const fit = val('fit');
  let data: any = fit;
  if (Array.isArray(fit)) {
    const features = fit.reduce((r: any[], f: any) => r.concat(f.type === 'FeatureCollection' ? f.features : f.type === 'Feature' ? [f] : [{ type: 'Feature', geometry: f }]), []);
    data = { type: 'FeatureCollection', features };
  }
  if (fit && val('extent')) p.fitExtent(val('extent'), data);
  else if (fit && val('size')) p.fitSize(val('size'), data);
  const target = fit && (val('extent') || (val('size') && [[0, 0], val('size')]));
  return { p, path, data, target };
}

type Case = { type: string; def?: any; ops: string[]; via?: string };
/** the values of definitions are written as names, to keep cases printable */
const VALUES: Record<string, any> = {
  A, B, AB: [A, B], FC: { type: 'FeatureCollection', features: [A, L] }, MIX: [{ type: 'FeatureCollection', features: [A] }, L, B.geometry], G: B.geometry, ONE: [A],
  E1: EXTENT, E2: EXTENT2, S1: [120, 90],
  SIG: { signal: 's' }, FN: (p: any, params: any) => 70 + 1, CB: { callback: (p: any, params: any) => params.s * 2, dependency: ['s'] },
  CBS: { callback: (p: any, params: any) => [params.s, 60], dependency: ['s'] },
  CBE: { callback: (p: any, params: any) => [[5, 5], [params.s, 2 * params.s]], dependency: ['s'] },
  CBF: { callback: (p: any, params: any) => (params.s > 100 ? A : B), dependency: ['s'] },
  CBT: { callback: (p: any, params: any) => [params.s, -params.s], dependency: ['s'] }
};
const named = (v: any) => (typeof v === 'string' && v in VALUES ? VALUES[v] : v);
const resolve = (def: any) => {
  const r: any = {};
  Object.keys(def).forEach(k => (r[k] = k === 'type' ? def[k] : named(def[k])));
  return r;
};

/** edits of a projection: name -> the definitions it changes (null withdraws) */
const EDITS: Record<string, any> = {
  scale: { scale: 300 }, 'scale=signal': { scale: 'SIG' }, 'scale=null': { scale: null }, translate: { translate: [11, 22] }, center: { center: [5, 7] }, rotate: { rotate: [90, -30] },
  'rotate=callback': { rotate: 'CBT' }, parallels: { parallels: [20, 50] }, clip: { clipExtent: [[0, 0], [300, 200]] }, reflect: { reflectX: true },
  orthographic: { type: 'orthographic' }, conic: { type: 'conicEqualArea' }, mercator: { type: 'Mercator' }
};
const METHODS: Record<string, [string, any]> = {
  'fit A': ['fit', 'A'], 'fit AB': ['fit', 'AB'], 'fit callback': ['fit', 'CBF'], 'fit none': ['fit', null],
  'extent 1': ['extent', 'E1'], 'extent callback': ['extent', 'CBE'], 'extent none': ['extent', null],
  'size 1': ['size', 'S1'], 'size callback': ['size', 'CBS'], 'size none': ['size', null],
  'radius 9': ['pointRadius', 9], 'radius signal': ['pointRadius', 'SIG'], 'radius none': ['pointRadius', null]
};
const OPS = [...Object.keys(EDITS), ...Object.keys(METHODS), 'signal', 'reset', 'data'];
const FEW = ['scale', 'scale=signal', 'scale=null', 'rotate=callback', 'orthographic', 'conic', 'fit A', 'fit callback', 'fit none', 'extent callback', 'size 1', 'size none', 'radius signal', 'radius none', 'signal', 'reset', 'data'];

function vertices(x: any): [number, number][] {
  if (Array.isArray(x)) return typeof x[0] === 'number' ? [x as [number, number]] : x.reduce((r, y) => r.concat(vertices(y)), []);
  return vertices(x.features ?? x.geometry ?? x.coordinates);
}
function samePaths(got: any[], want: any[], sig: string, what: string) {
  eq(got.length, want.length, sig, `number of ${what}`);
  const shape = (x: any) => x && x.replace(/-?[\d.]+(e-?\d+)?/g, '#');
  const numbers = (x: any) => ((x && x.match(/-?[\d.]+(e-?\d+)?/g)) || []).map(Number);
  got.forEach((g, i) => {
    const w = numbers(want[i]);
    ok(shape(g) === shape(want[i]) && numbers(g).every((n: number, j: number) => Math.abs(n - w[j]) <= 1e-6), sig, `${what} ${i}: ${g}, expected ${want[i]}`);
  });
}
function judge(c: Case, v: any, def: any, s: number, geo: any[], ctx: any) {
  const { p, path, data, target } = reference(resolve(def), s);
  const g = v.getCustomizedById('p');
  const out = g.output();
  const near = (a: any, b: any) => (!a || !b ? !a === !b : a.every((x: number, i: number) => Math.abs(x - b[i]) <= 1e-9 * (1 + Math.abs(b[i])) || (!isFinite(x) && !isFinite(b[i]))));
  POINTS.forEach(q => {
    const at = out(q);
    ok(near(at, p(q)), 'maps', `${q} is mapped to ${at}, expected ${p(q)}`);
    if (p.invert && at && at.every((x: number) => isFinite(x))) {
      const back = out.invert(at);
      ok(near(back, p.invert(p(q))), 'inverts', `${at} is inverted to ${back}`);
    }
  });
    eq(out.path.pointRadius(), path.pointRadius(), 'radius', 'point radius');
  if (target && !def.clipExtent && !def.clipAngle) {
    // the corners; lines between them are bent, which d3 takes into account at its own precision
    const pts = vertices(data).map(q => out(q));
    // parts on the far side of the globe are not drawn
    const visible = (q: any) => !p.invert || near(out.invert(out(q)), q);
    if (vertices(data).every(visible)) {
    const b = [0, 1].map(i => [Math.min(...pts.map((q: any) => q[i])), Math.max(...pts.map((q: any) => q[i]))]);
    const size = [0, 1].map(i => target[1][i] - target[0][i]);
    const e = 0.001 * Math.max(...size);
    const slack = 0.1 * Math.max(...size);
    ok([0, 1].every(i => b[i][0] >= target[0][i] - e && b[i][1] <= target[1][i] + e), 'fits', `bounds ${b} outside ${target}`);
    ok([0, 1].every(i => Math.abs(b[i][0] - target[0][i] - (target[1][i] - b[i][1])) <= slack), 'centred', `bounds ${b} are not centred in ${target}`);
    ok([0, 1].some(i => b[i][0] - target[0][i] <= slack), 'touches', `bounds ${b} do not touch ${target}`);
    }
  }
  const strings = geo.map(f => path(f.geometry) ?? undefined);
  samePaths(v.getDataById('d').getValue().map((d: any) => d.path ?? undefined), strings, 'data-path', 'paths of the data');
  samePaths(v.getDataById('raw').getValue().map((d: any) => d?.data ?? undefined), geo.map(f => { path.pointRadius(2); return path(f) ?? undefined; }), 'data-raw', 'paths without name');
  path.pointRadius(out.path.pointRadius());
  const m = v.getMarkById('m');
  samePaths(m.elements.map((e: any) => e.getGraphicAttribute('path') ?? undefined), strings, 'mark-path', 'paths of the mark');
  const copy = out.copy();
  POINTS.forEach(q => ok(near(copy(q), p(q)), 'copy', `a copy maps ${q} to ${copy(q)}, expected ${p(q)}`));
  eq(copy.path.pointRadius(), out.path.pointRadius(), 'copy', 'point radius of a copy');
  copy.scale(77);
  POINTS.forEach(q => ok(near(out(q), p(q)), 'copy', `a changed copy changes the projection`));
  ctx.compare(POINTS.length * 2 + 3);
  ctx.state([POINTS.map(q => p(q)), strings]);
}
function shapes(v: any) {
  v.getMarkById('n').elements.forEach((e: any) => {
    const gi = e.getGraphicItem();
    ok(gi.datum === e.getDatum(), 'shape-datum', `the graphic of shape ${e.key} has other data than its element`);
    ok(gi.attribute.path === e.getDatum().path, 'shape-path', `shape ${e.key} is drawn with another path than that of its data`);
  });
}
const fresh = (geo: any[]) => geo.map(f => ({ ...f }));

check<Case>({
  id: 'J01',
  level: 'exhaustive within bounds, on the real code',
  rule: 'projection, paths and inverse == d3-geo set up from the final definitions, fitted data touch the box; after every sequence of edits, signal changes and data changes',
  assumptions: ['d3-geo computes the projections (a dependency); the grammar has to configure it'],
  *cases(ctx) {
    // definitions
    for (const type of [...Object.keys(TYPES), 'MERCATOR', 'equalearth']) {
      for (const [scale, translate, rotate, center, fit, box, radius] of product(
        [undefined, 400, 'SIG', 'FN', 'CB'], [undefined, [11, 22], 'CBT'], [undefined, [90, -30, 5]], [undefined, [5, 7]], [undefined, 'A', 'CBF', 'MIX'], ['', 'E1', 'S1', 'CBE', 'CBS', 'both'], [undefined, 9, 'SIG']
      )) {
        if (!ctx.thorough && ((radius === 9 && fit) || (rotate && center) || (scale === 'FN' && translate) || (fit === undefined && box) || (fit && scale && translate))) continue;
        const def: any = { type, scale, translate, rotate, center, fit, pointRadius: radius };
        if (box === 'both') Object.assign(def, { extent: 'E1', size: 'S1' });
        else if (box) def[box === 'S1' || box === 'CBS' ? 'size' : 'extent'] = box;
        Object.keys(def).forEach(k => def[k] === undefined && delete def[k]);
        yield { type, def, ops: fit === 'CBF' || scale === 'SIG' || scale === 'CB' || radius === 'SIG' ? ['signal'] : [] };
      }
      for (const [fit, box] of product(['B', 'AB', 'FC', 'G', 'ONE', 'MIX'], ['E1', 'E2', 'S1']))
        for (const more of [{}, { clipAngle: 60 }, { clipExtent: [[0, 0], [30, 30]] }, { precision: 2 }, { reflectX: true }, { reflectY: true }, { parallels: [20, 50] }])
          yield { type, def: { type, fit, [box === 'S1' ? 'size' : 'extent']: box, ...more }, ops: [] };
    }
    // histories
    for (const type of ['mercator', 'conicEqualArea', 'identity'])
      for (const def of [{ type }, { type, fit: 'B', extent: 'E1', size: 'S1', pointRadius: 3 }, { type, scale: 'SIG', size: 'CBS', fit: 'CBF' }]) {
        for (const ops of sequences(OPS, 2, 1)) yield { type, def, ops };
        for (const ops of sequences(FEW, ctx.thorough ? 4 : 3, 3)) if (ctx.thorough || type !== 'identity') yield { type, def, ops };
      }
  },
  run(c, ctx) {
    try {
      let s = 80;
      const def: any = { ...(c.def ?? { type: c.type }) };
      let geo = GEO;
      const v: any = newView();
      v.parseSpec({
        signals: [{ id: 's', value: s }],
        projections: [{ id: 'p', ...resolve(def) }],
        data: [
          { id: 'd', values: fresh(geo) },
          { id: 'raw', values: fresh(geo) },
          { id: 'e', values: fresh(geo) }
        ],
        marks: [{ id: 'm', type: 'path', from: { data: 'e' }, key: 'k', transform: [{ type: 'geoPath', field: 'geometry', projection: { customized: 'p' }, as: 'shape' }], encode: { update: { path: { field: 'shape' } } } }, { id: 'n', type: 'shape', from: { data: 'd' }, key: 'k', encode: { update: { path: { field: 'path' } } } }]
      });
      // data are parsed before projections
      v.getDataById('d').transform([{ type: 'geoPath', field: 'geometry', projection: { customized: 'p' }, as: 'path' }]);
      v.getDataById('raw').transform([{ type: 'geoPath', projection: { customized: 'p' }, pointRadius: 2 }]);
      v.run();
      ctx.step();
      judge(c, v, def, s, geo, ctx);
      shapes(v);
      const p = v.getCustomizedById('p');
      c.ops.forEach(op => {
        if (op in EDITS) {
          Object.assign(def, EDITS[op]);
          p.configure(resolve({ type: def.type, ...EDITS[op] }));
        } else if (op in METHODS) {
          const [method, value] = METHODS[op];
          def[method] = value;
          p[method](named(value));
        } else if (op === 'signal') {
          s = s === 80 ? 130 : 80;
          v.getSignalById('s').value(s);
        } else if (op === 'reset') {
          Object.keys(def).forEach(k => !['type', 'fit', 'extent', 'size', 'pointRadius'].includes(k) && delete def[k]);
          p.configure(null);
        } else if (op === 'data') {
          geo = geo === GEO ? [L, A] : GEO;
          ['d', 'raw', 'e'].forEach(id => v.getDataById(id).values(fresh(geo)));
        }
        v.run();
        ctx.step();
        judge(c, v, def, s, geo, ctx);
      shapes(v);
      });
    } finally {
      releaseAll();
    }
  },
  nontrivial: () => true
});

// D04: a scale equals the scale built afresh from its current spec and inputs, after any history of edits.
import { view, releaseAll } from '../lib/vg';
import { check, eq, ok, sequences, show } from '../lib/kit';

type Op = string;
type Case = { type: string; ops: Op[] };

const CONT = ['linear', 'pow', 'sqrt', 'log', 'symlog'];
const BAND = ['band', 'point'];

// op name -> [applies to spec model, calls API]
const DOM: Record<string, any> = {
  Dc: [1, 20],
  Dc2: [5, 3],
  Dd: { data: 'd', field: 'v' },
  Dk: { data: 'd', field: 'k' },
  Ds: { signal: 'dom' },
  Dm: { datas: [{ data: 'd', field: 'v' }, { data: 'e', field: ['v', 'u'] }] },
  Df: { callback: (s: any, p: any) => [1, p.n + 1], dependency: ['n'] },
  Dmix: { data: 'mix', field: 'v' },
  Dsort: { data: 'd', field: 'k', sort: (a: any, b: any) => (a < b ? 1 : -1) }
};
const RNG: Record<string, any> = {
  Rc: [0, 100],
  Rc2: [90, 10],
  Rs: { signal: 'rng' },
  Rx: { coordinate: 'c', dimension: 'x' },
  Ry: { coordinate: 'c', dimension: 'y', reversed: true },
  Rcol: ['red', 'green', 'blue']
};
const CFG: Record<string, Record<string, any>> = {
  linear: { nice: { nice: true }, nonice: { nice: false }, nice3: { nice: 3 }, zero: { zero: true }, nozero: { zero: false }, minmax: { min: -5, max: 50 }, msig: { max: { signal: 'n' } }, round: { roundRange: true }, round0: { roundRange: false }, clamp: { config: { clamp: true } }, noclamp: { config: { clamp: false } }, nmin: { niceMin: true }, ts: { tickCount: { signal: 'n' } }, null: null },
  band: { p: { padding: 0.3 }, p0: { padding: 0 }, pi: { paddingInner: 0.5 }, pi0: { paddingInner: 0 }, po: { paddingOuter: 0.5 }, po0: { paddingOuter: 0 }, rd: { round: true }, rd0: { round: false }, al: { align: 0 }, al1: { align: 1 }, ps: { paddingInner: { signal: 'frac' } }, null: null },
  point: { p: { padding: 0.3 }, p0: { padding: 0 }, rd: { round: true }, rd0: { round: false }, al: { align: 0 }, al1: { align: 1 }, ps: { padding: { signal: 'frac' } }, null: null },
  pow: { ex: { exponent: 2 }, ex3: { exponent: 3 }, zero: { zero: true }, nozero: { zero: false }, null: null },
  log: { b2: { base: 2 }, b10: { base: 10 }, bs: { base: { signal: 'n' } }, null: null, nice: { nice: true }, nonice: { nice: false } },
  symlog: { c1: { constant: 1 }, c5: { constant: 5 }, zero: { zero: true }, null: null },
  sqrt: { zero: { zero: true }, nozero: { zero: false }, nice: { nice: true }, null: null },
  ordinal: { unk: { unknown: 'grey' }, null: null },
  quantize: { nice: { nice: true }, nonice: { nice: false }, zero: { zero: true }, null: null },
  quantile: {},
  threshold: {},
  time: { nice: { nice: true }, nonice: { nice: false }, null: null },
  identity: {}
};
const DOMS: Record<string, string[]> = {
  linear: ['Dc', 'Dc2', 'Dd', 'Ds', 'Dm', 'Df', 'Dmix'],
  pow: ['Dc', 'Dd', 'Ds'], sqrt: ['Dc', 'Dd', 'Ds'], log: ['Dc', 'Dd', 'Ds'], symlog: ['Dc', 'Dd', 'Ds'],
  band: ['Dk', 'Dsort', 'Ds', 'Dm'], point: ['Dk', 'Ds'], ordinal: ['Dk', 'Ds', 'Dm'],
  quantize: ['Dc', 'Dd', 'Ds'], quantile: ['Dd', 'Ds', 'Dm'], threshold: ['Dc', 'Ds'], time: ['Dc', 'Dd'], identity: ['Dc']
};
const RNGS: Record<string, string[]> = {
  linear: ['Rc', 'Rc2', 'Rs', 'Rx', 'Ry'], band: ['Rc', 'Rc2', 'Rs', 'Rx', 'Ry'], point: ['Rc', 'Rx'],
  pow: ['Rc', 'Rx'], sqrt: ['Rc', 'Rx'], log: ['Rc', 'Rx'], symlog: ['Rc', 'Rx'],
  ordinal: ['Rcol', 'Rs'], quantize: ['Rcol', 'Rs'], quantile: ['Rcol'], threshold: ['Rcol'], time: ['Rc', 'Rx'], identity: []
};
const INPUT_OPS = ['data', 'dom', 'rng', 'n', 'coord', 'e'];

function world() {
  return {
    n: 30, frac: 0.25, dom: [2, 9] as any[], rng: [10, 60] as any[], gen: 0,
    d: [{ k: 'a', v: 3 }, { k: 'b', v: 12 }, { k: 'c', v: 7 }],
    e: [{ v: 40, u: 2 }], mix: [{ v: 4 }, { v: undefined }, { v: 9 }, { v: null }, { v: '20' }],
    c: [0, 0, 100, 80]
  };
}
function bump(w: any, op: string) {
  w.gen++;
  switch (op) {
    case 'data': w.d = w.gen % 2 ? [{ k: 'c', v: 9 }, { k: 'd', v: 1 }] : [{ k: 'a', v: 2 }, { k: 'b', v: 6 }, { k: 'e', v: 25 }, { k: 'a', v: 4 }]; break;
    case 'dom': w.dom = [w.dom[0] + 1, w.dom[1] + 7]; break;
    case 'rng': w.rng = [w.rng[0] + 5, w.rng[1] + 30]; break;
    case 'n': w.n += 11; w.frac = w.frac === 0.25 ? 0 : 0.25; break;
    case 'coord': w.c = [5, 5, 100 + w.gen, 60]; break;
    case 'e': w.e = [{ v: 41 + w.gen, u: -3 }]; break;
  }
}
function spec(type: string, m: any, w: any) {
  const s: any = { id: 'sc', type, ...m.cfg };
  if (m.domain) s.domain = DOM[m.domain];
  if (m.range) s.range = RNG[m.range];
  return {
    padding: 0,
    signals: [{ id: 'n', value: w.n }, { id: 'frac', value: w.frac }, { id: 'dom', value: w.dom }, { id: 'rng', value: w.rng }],
    data: [{ id: 'd', values: w.d.map((x: any) => ({ ...x })) }, { id: 'e', values: w.e.map((x: any) => ({ ...x })) }, { id: 'mix', values: w.mix.map((x: any) => ({ ...x })) }],
    coordinates: [{ id: 'c', type: 'cartesian', start: [w.c[0], w.c[1]], end: [w.c[2], w.c[3]] }],
    scales: [s],
    marks: [{ type: 'symbol', id: 'm', from: { data: 'd' }, encode: { update: { x: type === 'ordinal' ? 1 : { scale: 'sc', field: type === 'band' || type === 'point' || type === 'ordinal' ? 'k' : 'v' } } } }]
  };
}
function observe(v: any, type: string) {
  const sc = v.getScaleById('sc').output();
  const disc = ['band', 'point', 'ordinal'].includes(type);
  const probes = disc ? ['a', 'b', 'c', 'd', 'e', 'zz', 2, 9, 40] : [-10, -1, 0, 1, 2, 3.3, 5, 7, 9, 12, 20, 31, 55, 1000];
  // probing an ordinal scale with an unknown value extends its implicit domain: probe a clone
  const o: any = { type: sc.type, domain: sc.domain(), range: sc.range && sc.range() };
  const pr = type === 'ordinal' ? sc.clone() : sc;
  o.map = probes.map(p => pr.scale(p));
  if (!disc && sc.invert) o.invert = [-7, 0, 10, 35, 60, 99].map(p => sc.invert(p));
  if ((type === 'band' || type === 'point') && sc.invert) o.invert = [-7, 0, 10, 35, 60, 99].map(p => sc.invert(p));
  if (!disc && sc.ticks) o.ticks = sc.clone().ticks(4);
  if (sc.bandwidth) o.band = [sc.bandwidth(), sc.step()];
  const el = v.getMarkById('m').elements;
  o.mark = el.map((e: any) => e.getGraphicItem().attribute.x);
  return o;
}

check<Case>({
  id: 'D04',
  level: 'model_checking',
  rule:
    'for each of the 13 scale types: every sequence (to the depth) of domain()/range()/configure() edits and of changes of the inputs they reference; ' +
    'oracle: (1) the scale of a view built afresh from the final spec and inputs, (2) an independent computation of domain, range and mapping for linear/band/point/ordinal',
  assumptions: ['tick generation and interpolation internals of @visactor/vscale are taken as given'],
  *cases(ctx) {
    for (const type of Object.keys(CFG)) {
      const cfg = Object.keys(CFG[type]).map(k => 'C' + k);
      const ops = [...DOMS[type], ...RNGS[type], ...cfg, ...INPUT_OPS];
      const deep = type === 'linear' || type === 'band';
      for (const s of sequences(ops, 2, 0)) yield { type, ops: s };
      if (ctx.thorough) {
        for (const s of sequences(ops, 3, 3)) yield { type, ops: s };
      } else if (deep || ops.length <= 14) {
        // depth 3: config edits between a domain edit and an input change
        const mid = [...cfg, 'Rx', 'Rs'].filter(o => o[0] === 'C' || RNGS[type].includes(o));
        for (const a of [...cfg, ...DOMS[type]]) for (const b of mid) for (const z of [...cfg.slice(0, 4), 'data', 'n', DOMS[type][0]]) yield { type, ops: [a, b, z] };
      }
    }
  },
  run(c, ctx) {
    try {
      const { type } = c;
      const w = world();
      const m: any = { domain: DOMS[type][0], range: RNGS[type][0], cfg: {} };
      const v = view(spec(type, m, w));
      const sc = v.getScaleById('sc');
      const apply = (op: string) => {
        if (op[0] === 'D') {
          sc.domain(DOM[op]);
          m.domain = op;
        } else if (op[0] === 'R') {
          sc.range(RNG[op]);
          m.range = op;
        } else if (op[0] === 'C') {
          const cfg = CFG[type][op.slice(1)];
          sc.configure(cfg ? { ...cfg } : null);
          m.cfg = cfg ? { ...m.cfg, ...cfg } : {};
        } else {
          bump(w, op);
          if (op === 'data') v.getDataById('d').values(w.d.map(x => ({ ...x })));
          if (op === 'e') v.getDataById('e').values(w.e.map(x => ({ ...x })));
          if (op === 'dom') v.getSignalById('dom').value(w.dom);
          if (op === 'rng') v.getSignalById('rng').value(w.rng);
          if (op === 'n') {
            v.getSignalById('n').value(w.n);
            v.getSignalById('frac').value(w.frac);
          }
          if (op === 'coord') {
            const co = v.getCoordinateById('c');
            co.start([w.c[0], w.c[1]]);
            co.end([w.c[2], w.c[3]]);
          }
        }
      };
      // a band/point/ordinal scale fed with a 2-number signal range for colours etc. stays within its own alphabet
      const steps = [...c.ops, 'data', 'n', 'coord'];
      steps.forEach((op, i) => {
        apply(op);
        v.run();
        ctx.step();
        const fresh = view(spec(type, m, w));
        const a = observe(v, type);
        const b = observe(fresh, type);
        const what = `${type} after ${steps.slice(0, i + 1).join(',')} (spec ${show({ d: m.domain, r: m.range, cfg: m.cfg })})`;
        for (const k of Object.keys(b)) {
          eq(a[k], b[k], `differs-from-fresh:${k}`, `${what}: ${k}`);
          ctx.compare();
        }
        independent(type, m, w, b, what);
        ctx.state([type, m, b]);
        fresh.release();
      });
    } finally {
      releaseAll();
    }
  }
});

function evalRange(m: any, w: any) {
  switch (m.range) {
    case 'Rs': return w.rng;
    case 'Rx': return [w.c[0], w.c[2]];
    case 'Ry': return [w.c[1], w.c[3]];
    default: return RNG[m.range];
  }
}
function independent(type: string, m: any, w: any, o: any, what: string) {
  const range = evalRange(m, w);
  let dom: any[];
  switch (m.domain) {
    case 'Dd': dom = w.d.map((x: any) => x.v); break;
    case 'Dk': dom = w.d.map((x: any) => x.k); break;
    case 'Dsort': dom = w.d.map((x: any) => x.k).sort((a: any, b: any) => (a < b ? 1 : -1)); break;
    case 'Ds': dom = w.dom; break;
    case 'Df': dom = [1, w.n + 1]; break;
    case 'Dmix': dom = [4, 9, 20]; break;
    case 'Dm': dom = [...w.d.map((x: any) => x.v), ...w.e.map((x: any) => x.v), ...w.e.map((x: any) => x.u)]; break;
    default: dom = DOM[m.domain];
  }
  if (type === 'linear') {
    const cfg = m.cfg;
    if (cfg.nice || cfg.niceMin) return;
    if (['Dd', 'Dm', 'Dmix'].includes(m.domain)) dom = [Math.min(...dom), Math.max(...dom)];
    let [lo, hi] = dom;
    const max = cfg.max === undefined ? undefined : cfg.max === 50 ? 50 : w.n;
    if (cfg.zero || cfg.min !== undefined || max !== undefined) {
      const a = Math.min(lo, hi);
      const b = Math.max(lo, hi);
      lo = cfg.zero && a > 0 ? 0 : cfg.min !== undefined ? Math.min(a, cfg.min) : a;
      hi = cfg.zero && b < 0 ? 0 : max !== undefined ? Math.max(b, max) : b;
    }
    eq(o.domain, [lo, hi], 'linear-domain', `${what}: domain`);
    eq(o.range, range, 'linear-range', `${what}: range`);
    const clamp = cfg.config && cfg.config.clamp;
    [-10, -1, 0, 1, 2, 3.3, 5, 7, 9, 12, 20, 31, 55, 1000].forEach((x, i) => {
      let t = (x - lo) / (hi - lo);
      if (clamp) t = Math.max(0, Math.min(1, t));
      let y = range[0] + t * (range[1] - range[0]);
      if (cfg.roundRange) {
        ok(Math.abs(o.map[i] - y) <= 0.5 + 1e-6, 'linear-map', `${what}: scale(${x}) = ${o.map[i]}, unrounded ${y}`);
      } else eq(o.map[i], y, 'linear-map', `${what}: scale(${x})`);
    });
  } else if (type === 'ordinal') {
    const uniq = Array.from(new Set(dom));
    // values encoded outside the domain extend an implicit ordinal scale at its end
    eq(o.domain.slice(0, uniq.length), uniq, 'ordinal-domain', `${what}: domain`);
    ['a', 'b', 'c', 'd', 'e', 'zz', 2, 9, 40].forEach((x, i) => {
      const idx = uniq.indexOf(x);
      if (idx >= 0) eq(o.map[i], range[idx % range.length], 'ordinal-map', `${what}: scale(${x})`);
      else if (m.cfg.unknown) eq(o.map[i], m.cfg.unknown, 'ordinal-unknown', `${what}: scale(${x})`);
    });
  } else if (type === 'band' || type === 'point') {
    const uniq = Array.from(new Set(dom));
    eq(o.domain, uniq, 'band-domain', `${what}: domain`);
    eq(o.range, range, 'band-range', `${what}: range`);
    const cfg = m.cfg;
    if (cfg.round) return;
    let pi = type === 'point' ? 1 : 0;
    let po = 0;
    const f = (x: any) => (x && x.signal ? w.frac : x);
    if (cfg.padding !== undefined) {
      po = f(cfg.padding);
      if (type === 'band') pi = Math.min(1, po);
    }
    if (cfg.paddingInner !== undefined && type === 'band') pi = Math.min(1, f(cfg.paddingInner));
    if (cfg.paddingOuter !== undefined) po = f(cfg.paddingOuter);
    const align = cfg.align === undefined ? 0.5 : cfg.align;
    const n = uniq.length;
    const rev = range[1] < range[0];
    const start = rev ? range[1] : range[0];
    const stop = rev ? range[0] : range[1];
    const space = Math.max(1, n - pi + po * 2);
    const step = (stop - start) / space;
    const s0 = start + (stop - start - step * (n - pi)) * align;
    const bw = step * (1 - pi);
    const pos = uniq.map((_, i) => s0 + step * i);
    if (rev) pos.reverse();
    ['a', 'b', 'c', 'd', 'e'].forEach((x, i) => {
      const idx = uniq.indexOf(x);
      if (idx >= 0) eq(o.map[i], pos[idx], 'band-map', `${what}: scale(${x})`);
    });
    eq(o.band, [bw, step], 'band-width', `${what}: bandwidth and step`);
  }
}

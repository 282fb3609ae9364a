// I08: fish eyes. Every sequence of entering, moving, leaving, pausing, resetting and changing scales, against a model of where the lens is.
import { LinearScale, BandScale } from '@visactor/vscale';
import { view, releaseAll, vtime } from '../lib/vg';
import { pointer } from '../lib/events';
import { check, eq, ok, sequences, show } from '../lib/kit';

type Case = { config: string; scale: string; ops: string[] };
const W = 100;
const H = 80;
const XS = [0, 2, 4, 5, 7, 10];
const KS = ['a', 'b', 'c', 'd', 'e', 'f'];
const CONFIGS: Record<string, any> = {
  both: { scaleX: 'sx', scaleY: 'sy' },
  radius: { scaleX: 'sx', scaleY: 'sy', radiusX: 30, radiusY: 25, distortionX: 4 },
  ratio: { scaleX: 'sx', scaleY: 'sy', radiusRatioX: 0.5, radiusRatioY: 0.3, distortionY: 1 },
  onlyX: { scaleX: 'sx', scaleY: 'sy', radiusX: 40, radiusY: 40, enableY: false },
  onlyY: { scaleY: 'sy', radiusY: 40, radiusX: 40 },
  sticky: { scaleX: 'sx', scaleY: 'sy', radiusX: 40, radiusY: 40, triggerOff: 'dblclick' },
  marks: { scaleX: 'sx', scaleY: 'sy', radiusX: 40, radiusY: 40, selector: '#m' },
  custom: { scaleX: 'sx', scaleY: 'sy', radiusX: 40, trigger: 'pointerdown', updateTrigger: 'pointerover', endTrigger: 'pointerup', shouldStart: (e: any) => e.canvasX > 20 }
};
// places: p and q inside, o outside the view
const AT: Record<string, [number, number]> = { e: [25, 20], E: [10, 70], m: [50, 42], M: [91, 11], o: [130, 90] };

function run(c: Case, ctx: any) {
  const o = CONFIGS[c.config];
  const band = c.scale === 'band';
  const range: Record<string, [number, number]> = { x: [0, W], y: [H, 0] };
  const rows = XS.map((x, i) => ({ k: KS[i], x: band ? KS[i] : x, y: x }));
  const v = view(
    {
      scales: [
        band ? { id: 'sx', type: 'band', domain: KS, range: range.x } : { id: 'sx', type: 'linear', domain: [0, 10], range: range.x },
        { id: 'sy', type: 'linear', domain: [0, 10], range: range.y }
      ],
      data: [{ id: 'd', values: rows }],
      marks: [{ type: 'symbol', id: 'm', from: { data: 'd' }, key: 'k', encode: { update: { x: { scale: 'sx', field: 'x' }, y: { scale: 'sy', field: 'y' }, size: 4 } } }]
    } as any,
    { width: W, height: H }
  );
  let inst: any = v.interaction('fish-eye', { ...o, scaleX: o.scaleX && v.getScaleById('sx'), throttle: 100 });
  const dims = ['x', 'y'].filter(d => o['enable' + d.toUpperCase()] !== false && o['scale' + d.toUpperCase()]);
  let active = false;
  let focus: [number, number] | null = null;
  // moves are handled at once when none has been in the last 100 ms, the last one of several after that
  let last = -1e9;
  let pending: [number, number] | null = null;
  let bound = true;
  const flush = () => {
    if (pending && active) focus = pending;
    pending = null;
  };
  const expected = (d: string, row: any) => {
    const s: any = d === 'x' && band ? new BandScale() : new LinearScale();
    s.domain(d === 'x' && band ? KS : [0, 10]).range(range[d]);
    if (focus && dims.includes(d)) {
      const D = d.toUpperCase();
      s.fishEye({ distortion: o['distortion' + D] ?? 2, radius: o['radius' + D], radiusRatio: o['radiusRatio' + D], focus: focus[d === 'x' ? 0 : 1] });
    }
    return s.scale(row[d]);
  };
  const verify = (what: string) => {
    v.getMarkById('m').elements.forEach((e: any) => {
      const row = rows.find(r => r.k === e.key);
      ['x', 'y'].forEach(d => {
        const got = e.getGraphicItem().attribute[d];
        const want = expected(d, row);
        ok(Math.abs(got - want) < 1e-6, 'position:' + (focus ? 'magnified' : 'plain'), () => `${what}: ${d} of ${e.key} is ${got}, expected ${want}`);
      });
    });
    // the order of values is kept
    if (!band) {
      const at = v.getMarkById('m').elements.map((e: any) => e.getGraphicItem().attribute.x);
      ok(at.every((x: number, i: number) => !i || (range.x[1] > 0 ? x >= at[i - 1] - 1e-9 : x <= at[i - 1] + 1e-9)), 'order', () => `${what}: ${show(at)}`);
    }
    ctx.compare(rows.length * 2);
  };
  c.ops.forEach((op: string, i: number) => {
    const what = `${c.config} after ${c.ops.slice(0, i + 1).join(' ')}`;
    const target = () => (o.selector ? v.getMarkById('m').elements[2].getGraphicItem() : null);
    const go = (type: string, p: [number, number], g: any) => pointer(v, type, p[0], p[1], g);
    ctx.step();
    if (op === 't') {
      vtime.advance(150);
      flush();
    } else if (op === 'e' || op === 'E') {
      go(o.trigger ?? 'pointerenter', AT[op], target());
      if (bound && !active && (!o.shouldStart || AT[op][0] > 20)) {
        active = true;
        focus = AT[op];
      }
    } else if (op === 'm' || op === 'M' || op === 'o' || op === 'b') {
      // over a blank area
      const p = op === 'b' ? AT.m : AT[op];
      const g = op === 'b' ? null : target();
      const handled = bound && (o.selector ? op !== 'b' : op !== 'o');
      const type = o.updateTrigger ?? 'pointermove';
      const now = vtime.now();
      go(type, p, g);
      if (bound) {
        if (now - last >= 100 && !pending) {
          last = now;
          if (handled && active) focus = p;
        } else pending = handled ? p : null;
      }
    } else if (op === 'l') {
      go(o.endTrigger ?? 'pointerleave', AT.o, target());
      if (bound && !o.triggerOff && active) {
        active = false;
        focus = null;
        pending = null;
        last = -1e9;
      }
    } else if (op === 'r') {
      go('dblclick', AT.m, target());
      if (bound && o.triggerOff && active) {
        active = false;
        focus = null;
        pending = null;
        last = -1e9;
      }
    } else if (op === 's') {
      range.x = range.x[0] === 0 ? [20, 90] : [0, W];
      v.getScaleById('sx').range(range.x);
      v.run();
    } else if (op === 'x') {
      v.removeInteraction(inst);
      v.run();
      bound = false;
      active = false;
      focus = null;
      pending = null;
    } else if (op === 'u') {
      if (bound) v.removeInteraction(inst);
      inst = v.interaction('fish-eye', { ...o, throttle: 100 });
      v.run();
      bound = true;
      active = false;
      focus = null;
      pending = null;
      last = -1e9;
    }
    verify(what);
    ctx.state([c.config, c.scale, active, focus, pending, bound, range]);
  });
  vtime.advance(150);
  flush();
  verify(`${c.config} some time after ${c.ops.join(' ')}`);
}

check<Case>({
  id: 'I08',
  level: 'model_checking',
  rule:
    'all sequences (to the depth) of entering, moving (inside, outside and over blank areas), leaving, pausing, resetting, changes of scales and removals, for fish eyes of each dimension, radius, distortion, trigger and selector on continuous and band scales; ' +
    'the positions of all elements are compared after every event, and after the last delay, with those of new scales with a lens where the model has it',
  *cases(ctx) {
    const d = ctx.thorough ? 6 : 4;
    for (const config of Object.keys(CONFIGS))
      for (const scale of ['linear', 'band']) {
        const ops = ['e', 'm', 'M', 'l', 't', 's', 'x', ...(config === 'sticky' ? ['r'] : []), ...(config === 'marks' ? ['b'] : config === 'both' ? ['o', 'E'] : config === 'custom' ? ['E'] : []), ...(ctx.thorough || config === 'radius' ? ['u'] : [])];
        for (const s of sequences(ops, scale === 'linear' ? d : d - 1, 1)) if (s.some(o => o === 'e' || o === 'E')) yield { config, scale, ops: s };
        // several moves, pauses and returns
        if (scale === 'linear') for (const s of sequences(['m', 'M', 'l', 'e', 't'], d, d)) yield { config, scale, ops: ['e', ...s] };
      }
  },
  run(c, ctx) {
    try {
      run(c, ctx);
    } finally {
      releaseAll();
    }
  }
});
void eq;

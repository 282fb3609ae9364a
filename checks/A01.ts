// A01: an animated view converges to its un-animated twin. Every interleaving of edits and clock ticks on both, compared at rest.
import { newView, releaseAll, vtime } from '../lib/vg';
import { check, eq, ok, fail, sequences, show } from '../lib/kit';

const TABLES: any[][] = [
  [],
  [{ k: 'a', v: 3, g: 'x' }],
  [{ k: 'a', v: 5, g: 'x' }, { k: 'b', v: 2, g: 'y' }],
  [{ k: 'b', v: 8, g: 'y' }, { k: 'c', v: 4, g: 'x' }, { k: 'a', v: 1, g: 'x' }]
];
const rows = (t: number) => TABLES[t].map(r => ({ ...r }));
const D = 100;

type Conf = { imm?: any; type: string; exit: number; animation: any; shape?: any; states?: any; group?: boolean };
const seq = (type: string, options?: any, extra?: any) => ({ type, duration: D, ...(options ? { options } : {}), ...extra });
/** exit: how long an exit animation lasts from its start; 0 without one */
const CONFS: Record<string, Conf> = {
  fade: { type: 'rect', exit: D, animation: { enter: seq('fadeIn'), update: seq('update'), exit: seq('fadeOut') } },
  grow: { type: 'rect', exit: D, imm: { type: 'growHeightIn', duration: D }, animation: { enter: seq('growHeightIn'), update: { channel: ['x', 'y', 'height'], duration: D, easing: 'linear' }, exit: seq('growHeightOut') } },
  growNeg: { type: 'rect', exit: D, animation: { enter: seq('growWidthIn', { orient: 'negative', overall: 40 }), update: seq('update'), exit: seq('growWidthOut', { orient: 'negative' }) } },
  growX1: { type: 'rect', shape: 'x1', exit: D, animation: { enter: seq('growCenterIn'), update: seq('update'), exit: seq('growCenterOut') } },
  interval: { type: 'interval', shape: 'x1', exit: D, animation: { enter: seq('growWidthIn'), update: seq('update'), exit: seq('fadeOut') } },
  scale: { type: 'symbol', exit: D, animation: { enter: seq('scaleIn'), update: seq('update', null, { oneByOne: 20 }), exit: seq('scaleOut') } },
  stop: { type: 'symbol', exit: D, animation: { enter: seq('fadeIn', null, { controlOptions: { stopWhenStateChange: true } }), update: seq('update', null, { controlOptions: { stopWhenStateChange: true } }), exit: seq('fadeOut') } },
  stopPart: { type: 'symbol', exit: D, animation: { enter: { channel: { x: { from: 0 }, size: { from: 0 } }, duration: D, controlOptions: { stopWhenStateChange: true } }, update: { channel: ['y'], duration: D, controlOptions: { stopWhenStateChange: true } }, exit: seq('fadeOut') } },
  partial: { type: 'symbol', exit: D, animation: { enter: { channel: { x: { from: 0 }, size: { from: 0 } }, duration: D }, update: { channel: ['y'], duration: D }, exit: seq('fadeOut') } },
  noexit: { type: 'rect', exit: 0, animation: { enter: seq('fadeIn'), update: seq('update') } },
  exitonly: { type: 'text', exit: D, animation: { exit: seq('fadeOut') } },
  slices: {
    type: 'symbol', exit: 2 * D,
    animation: {
      enter: { timeSlices: [{ effects: { type: 'fadeIn' }, duration: 50 }, { effects: [{ type: 'scaleIn' }, { channel: { x: { from: 0 } } }], duration: 50 }] },
      update: seq('update'),
      exit: { timeSlices: [{ effects: { type: 'scaleOut' }, duration: D }, { effects: { type: 'fadeOut' }, duration: 50, delay: 50 }] }
    }
  },
  multi: { type: 'rect', exit: D, animation: { enter: [seq('fadeIn', null, { duration: 50 }), seq('growHeightIn')], update: [{ channel: ['x'], duration: 50 }, { channel: ['y', 'height'], duration: D }], exit: [seq('fadeOut', null, { duration: 50 }), seq('growHeightOut')] } },
  channel: { type: 'symbol', exit: D, animation: { enter: { channel: { x: { from: 0 }, size: { from: 0, to: (d: any, e: any) => e.getFinalAnimationAttribute('size') } }, duration: D }, update: { channel: ['x', 'y', 'size', 'fill'], duration: D }, exit: { channel: { x: { to: 0 }, opacity: { to: 0 } }, duration: D } } },
  delays: { type: 'rect', exit: 30 + 10 + D + 20, animation: { enter: seq('fadeIn', null, { delay: 20, delayAfter: 30, oneByOne: true }), update: seq('update', null, { startTime: 40 }), exit: seq('fadeOut', null, { startTime: 30, delay: 10, delayAfter: 20 }) } },
  total: { type: 'rect', exit: D, animation: { enter: seq('fadeIn', null, { totalTime: 60 }), update: seq('update', null, { totalTime: 150 }), exit: seq('fadeOut', null) } },
  line: { type: 'line', exit: D, animation: { enter: seq('fadeIn'), update: seq('update'), exit: seq('fadeOut') } },
  lineGrow: { type: 'line', exit: D, animation: { enter: seq('growPointsXIn'), update: { channel: ['points'], duration: D }, exit: seq('growPointsXOut') } },
  areaClip: { type: 'area', exit: D, animation: { enter: seq('clipIn'), update: seq('update'), exit: seq('clipOut') } },
  areaGrow: { type: 'area', exit: D, animation: { enter: seq('growPointsYIn'), update: seq('update'), exit: seq('growPointsYOut') } },
  arc: { type: 'arc', exit: D, animation: { enter: seq('growAngleIn'), update: seq('update'), exit: seq('growAngleOut') } },
  arcR: { type: 'arc', exit: D, animation: { enter: seq('growRadiusIn', { orient: 'outside' }), update: seq('update'), exit: seq('growRadiusOut') } },
  move: { type: 'text', exit: D, animation: { enter: seq('moveIn', { direction: 'x', offset: 10 }), update: seq('update', { excludeChannels: ['y'] }), exit: seq('moveOut', { direction: 'y', orient: 'negative' }) } },
  rotate: { type: 'rect', shape: 'angle', exit: D, animation: { enter: seq('rotateIn'), update: seq('update'), exit: seq('rotateOut') } },
  state: { type: 'rect', exit: D, states: true, animation: { state: { duration: D }, enter: seq('fadeIn'), update: seq('update'), exit: seq('fadeOut') } },
  stateGrow: { type: 'rect', exit: D, imm: { type: 'growHeightIn', duration: D }, states: true, animation: { enter: seq('growHeightIn'), update: seq('update'), exit: seq('growHeightOut') } },
  stateFade: { type: 'symbol', exit: D, states: true, animation: { enter: seq('fadeIn', null, { oneByOne: 20 }), update: { channel: ['x', 'fill', 'size'], duration: D }, exit: seq('fadeOut') } },
  textDelay: { type: 'text', exit: D + 30, animation: { enter: seq('fadeIn', null, { delay: 30 }), update: seq('update', null, { delay: 30 }), exit: seq('fadeOut', null, { delay: 30 }) } },
  stateOnly: { type: 'symbol', exit: 0, states: true, animation: { state: { duration: 60, easing: 'linear' } } },
  loop: { type: 'symbol', exit: 2 * 50, animation: { enter: seq('fadeIn', null, { loop: 2, duration: 50 }), update: seq('update', null, { loop: 2 }), exit: seq('fadeOut', null, { loop: 2, duration: 50 }) } },
  part: { type: 'rect', exit: 0, animation: { enter: { partitioner: (d: any) => d.k !== 'b', timeSlices: [{ effects: { type: 'fadeIn' }, duration: D }] }, update: { sort: (a: any, b: any) => b.v - a.v, oneByOne: 30, timeSlices: [{ effects: { type: 'update' }, duration: 50 }] } } },
  custom: { type: 'rect', exit: D, animation: { enter: { channel: { x: { from: 0 } }, duration: D, custom: (r: number, f: any, t: any, out: any) => { out.x = (f.x || 0) + (t.x - (f.x || 0)) * r; } }, update: seq('update'), exit: seq('fadeOut') } }
};

function build(conf: Conf, animated: boolean, t: number) {
  const v = newView();
  const enc: any = {
    rect: { x: { field: 'v' }, y: (d: any) => d.v * 2, width: 6, height: (d: any) => d.v + 1, fill: 'red' },
    interval: { x: { field: 'v' }, y: (d: any) => d.v * 2, width: 6, height: (d: any) => d.v + 1, fill: 'red' },
    symbol: { x: { field: 'v' }, y: 7, size: (d: any) => d.v * 3, fill: 'red' },
    text: { x: { field: 'v' }, y: (d: any) => d.v + 3, text: (d: any) => d.k + d.v, fill: 'red', fontSize: 10 },
    line: { x: { field: 'v' }, y: (d: any) => d.v * 3, stroke: 'red' },
    area: { x: { field: 'v' }, y: (d: any) => d.v * 3, y1: 40, fill: 'red' },
    arc: { x: 20, y: 20, startAngle: (d: any) => d.v, endAngle: (d: any) => d.v + 1, innerRadius: 2, outerRadius: (d: any) => 10 + d.v, fill: 'red' }
  };
  let update = enc[conf.type];
  if (conf.shape === 'x1') update = { x: { field: 'v' }, x1: (d: any) => d.v + 9, y: 2, y1: (d: any) => d.v + 12, fill: 'red' };
  if (conf.shape === 'angle') update = { ...update, angle: (d: any) => d.v };
  const collection = conf.type === 'line' || conf.type === 'area';
  v.parseSpec({
    data: [{ id: 'd', values: rows(t) }],
    signals: [{ id: 's', value: 'red' }],
    marks: [
      {
        id: 'm', type: conf.type, from: { data: 'd' }, key: 'k', ...(collection ? { groupBy: 'g' } : {}),
        encode: { update: { ...update, ...(collection ? { lineWidth: 2 } : {}), stroke: { signal: 's' } }, exit: { cursor: 'none' }, hi: { fill: 'blue', lineWidth: 4, ...(conf.type === 'rect' ? { height: 33 } : {}) }, lo: { fillOpacity: 0.5 } },
        ...(animated ? { animation: conf.animation } : {})
      }
    ]
  });
  v.run();
  return v;
}
const COLOR: Record<string, string> = { red: 'rgb(255,0,0)', blue: 'rgb(0,0,255)', green: 'rgb(0,128,0)' };
const IGNORE = new Set(['pickable', 'cursor', 'keepDirIn3d', 'fillPickable', 'strokePickable', 'childrenPickable', 'clipRangeByDimension']);
function norm(x: any): any {
  if (typeof x === 'string') return COLOR[x] || x.replace(/rgba?\((\d+),(\d+),(\d+),1\)/, 'rgb($1,$2,$3)');
  if (typeof x === 'number') return Math.round(x * 1e6) / 1e6 + 0;
  if (Array.isArray(x)) return x.map(norm);
  if (x && typeof x === 'object') {
    const o: any = {};
    // plain values of points
    for (const k of Object.keys(x)) if (x[k] !== undefined && k !== 'context') o[k] = norm(x[k]);
    return o;
  }
  return x;
}
const AUX: Record<string, any> = { opacity: 1, fillOpacity: 1, strokeOpacity: 1, scaleX: 1, scaleY: 1, angle: 0, clipRange: 1, visible: true, lineWidth: 1 };
const val = (gi: any, k: string) => {
  const a = gi.attribute[k];
  return norm(a === undefined || a === null ? AUX[k] : a);
};

type Case = { conf: string; ops: string[] };
check<Case>({
  id: 'A01',
  level: 'model_checking',
  rule:
    'for every animation configuration of a catalogue (built-in types, channels, slices, several timelines per state, delays, one by one, loops, total time, state animations, custom interpolation, stop on change) on seven mark types: every sequence (to the depth) of data sets, encoding changes, signal changes, state changes, immediate animations and clock ticks at, before and after the boundaries; ' +
    'a twin view without animations gets the same edits; after every step the elements alive are compared and exits must be gone exactly when their animation has ended; when the clock has run out attributes, graphics and elements have to be equal and no animator, reserved element or ticker work may be left',
  assumptions: ['attributes which are absent without animations may be present with their default (opacity, scale, angle, clipRange) afterwards'],
  *cases(ctx) {
    const data = ['T0', 'T1', 'T2', 'T3'];
    for (const conf of Object.keys(CONFS)) {
      const state = CONFS[conf].states ? ['S+', 'S-', 'U'] : [];
      const alphabet = [...data, 'E', 'P', 'w30', 'w99', 'w130', ...state];
      const depth = ctx.thorough ? (CONFS[conf].states ? 4 : 5) : 3;
      for (const s of sequences(alphabet, depth, 1)) {
        // two ticks in a row are one tick
        if (s.some((o, i) => o[0] === 'w' && i > 0 && s[i - 1][0] === 'w')) continue;
        if (s[s.length - 1][0] === 'w' || s[0] === 'T2') continue;
        yield { conf, ops: s };
      }
      // longer histories around exit and re-entering
      for (const s of sequences(['T1', 'T2', 'T0', 'w30', 'w70'], ctx.thorough ? 7 : 5, 4)) {
        if (s.some((o, i) => i > 0 && (s[i - 1] === o || (o[0] === 'w' && s[i - 1][0] === 'w')))) continue;
        if (s[0] === 'T2' || s[0][0] === 'w' && s.length > 4 && !ctx.thorough) continue;
        yield { conf, ops: s };
      }
      for (const s of sequences(['T1', 'T3', 'A', 'B', 'w30', 'w130', 'X', 'Y'], ctx.thorough ? 4 : 3, 2)) if (s.some(o => o === 'A' || o === 'B' || o === 'X' || o === 'Y')) yield { conf, ops: s };
    }
  },
  nontrivial: c => c.ops.length > 1,
  run(c, ctx) {
    try {
      const conf = CONFS[c.conf];
      const V = build(conf, true, 2);
      // the twin; its (empty) rendering does not take part in the clock
      const W = build(conf, false, 2);

      // key -> start of the exit animation
      const exits = new Map<string, number>();
      let table = 2;
      const keysOf = (t: number) => new Set<string>(conf.type === 'line' || conf.type === 'area' ? TABLES[t].map(r => r.g) : TABLES[t].map(r => r.k));
      const m = () => V.getMarkById('m');
      const mw = () => W.getMarkById('m');
      let enc = 0;
      let sig = 0;
      let immediate = false;
      let disabled = false;
      const keyed = (mark: any) => new Map<string, any>([...mark.elementMap.values()].map((e: any) => [String(conf.type === 'line' || conf.type === 'area' ? e.groupKey : e.key), e]));
      const observe = (where: string) => {
        ctx.compare();
        const els = m().elements;
        eq(els.map((e: any) => e.key).join(), mw().elements.map((e: any) => e.key).join(), 'elements', `elements ${where}`);
        const now = keysOf(table);
        // which keys may be seen, which have to
        const seen = keyed(m());
        const children = m().graphicItem.children.filter((x: any) => x).length;
        eq(children, seen.size, 'graphics', `graphics of the mark ${where}`);
        now.forEach(k => ok(seen.has(k), 'lost', `element ${k} is lost ${where}`));
        seen.forEach((e, k) => {
          if (now.has(k)) return ok(e.diffState !== 'exit', 'dying', `element ${k} is still exiting ${where}, although its key is back`);
          const start = exits.get(k);
          ok(conf.exit > 0 && start !== undefined, 'stays', `element ${k} stays without an exit animation ${where}`);
          // a frame takes 16.7 ms; animations start with the next frame after they are created
          if (!immediate) ok(vtime.now() - start <= conf.exit + 40, 'overdue', `element ${k} stays ${Math.round(vtime.now() - start)} ms after its exit ${where} (takes ${conf.exit})`);
        });
        if (!immediate && !disabled)
          exits.forEach((start, k) => {
            if (!now.has(k) && !seen.has(k)) ok(vtime.now() - start >= conf.exit - 0.01, 'early', `element ${k} is gone ${Math.round(vtime.now() - start)} ms after its exit ${where} (takes ${conf.exit})`);
          });
      };
      c.ops.forEach((op, i) => {
        const where = `after ${c.ops.slice(0, i + 1).join(' ')}`;
        ctx.step();
        if (op[0] === 'w') {
          vtime.advance(+op.slice(1));
          observe(where);
          return;
        }
        for (const v of [V, W]) {
          const mark = v.getMarkById('m');
          if (op[0] === 'T') v.getDataById('d').values(rows(+op[1]));
          else if (op === 'E') {
            // encodings with other positions and sizes
            if (conf.type === 'symbol') mark.encode({ size: enc ? (d: any) => d.v * 3 : 33, y: enc ? 7 : 17 });
            else if (conf.type === 'arc') mark.encode({ outerRadius: enc ? (d: any) => 10 + d.v : 30 });
            else if (conf.type === 'line' || conf.type === 'area') mark.encode({ y: (d: any) => d.v * (enc ? 3 : 2) });
            else if (conf.shape === 'x1') mark.encode({ x: (d: any) => d.v + (enc ? 0 : 4), fill: 'green' });
            else mark.encode({ y: (d: any) => d.v * (enc ? 2 : 4), fill: enc ? 'red' : 'green' });
          } else if (op === 'P') v.getSignalById('s').value(sig ? 'red' : 'blue');
          else if (op === 'S+') mark.elements.forEach((e: any) => e.addState('hi'));
          else if (op === 'S-') mark.elements.forEach((e: any) => e.clearStates());
          else if (op === 'U') mark.elements.slice(0, 1).forEach((e: any) => e.useStates(['lo', 'hi']));
          else if (v === V && op === 'A') mark.animate.run(conf.imm || { type: 'fadeIn', duration: D });
          else if (v === V && op === 'B') mark.animate.runAnimationByState('enter');
          else if (v === V && op === 'X') mark.animate.stop();
          else if (v === V && op === 'Y') {
            mark.animate.disable();
            mark.animate.enable();
          }
          if ('TEP'.includes(op[0])) v.run();
        }
        if (op[0] === 'T') {
          const next = keysOf(+op[1]);
          const prev = keysOf(table);
          prev.forEach(k => { if (!next.has(k)) exits.set(k, vtime.now()); });
          // an element which comes back while it exits is the same one: it keeps its states
          if (conf.states)
            next.forEach(k => {
              const [e, f] = [keyed(m()).get(k), keyed(mw()).get(k)];
              if (!prev.has(k) && e && f && e.getStates().length) f.useStates(e.getStates().slice());
            });
          next.forEach(k => exits.delete(k));
          table = +op[1];
        }
        if (op === 'E') enc = 1 - enc;
        if (op === 'P') sig = 1 - sig;
        if (op === 'A' || op === 'B') immediate = true;
        if (op === 'X' || op === 'Y') {
          disabled = true;
          exits.forEach((s, k) => { ok(!keyed(m()).has(k), 'stopped', `element ${k} is still exiting ${where}, although animations are stopped`); });
        }
        ctx.state([c.conf, table, enc, sig, [...exits].map(([k, s]) => [k, Math.round(vtime.now() - s)]), m().animate ? m().animate.getAnimatorCount() : 0]);
        observe(where);
      });
      // at rest
      for (let i = 0; i < 12; i++) vtime.advance(100);
      const end = 'at rest';
      observe(end);
      
      eq(m().elementMap.size, mw().elementMap.size, 'rest-elements', 'elements left at rest');
      eq(m().animate.getAnimatorCount(), 0, 'rest-animators', 'animators left at rest');
      ok(!m().animate.isAnimating(), 'rest-animating', 'the mark is still animating at rest');
      ok(!V.animate.isAnimating(), 'rest-view', 'the view is still animating at rest');
      const kw = keyed(mw());
      keyed(m()).forEach((e, k) => {
        const f = kw.get(k);
        const [g, h] = [e.getGraphicItem(), f.getGraphicItem()];
        ok(!e.isReserved, 'rest-reserved', `element ${k} is reserved at rest`);
        eq(e.diffState === 'exit', false, 'rest-status', `element ${k} is exiting at rest`);
        const names = [...new Set([...Object.keys(g.attribute), ...Object.keys(h.attribute)])].filter(n => !IGNORE.has(n)).sort();
        names.forEach(n => eq(val(g, n), val(h, n), 'rest-attribute', `attribute ${n} of element ${k} at rest`));
        eq(e.getStates().join(), f.getStates().join(), 'rest-states', `states of element ${k}`);
      });
    } finally {
      releaseAll();
    }
  }
});

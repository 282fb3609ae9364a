// D02: dependency bookkeeping of marks over every history of spec edits.
import { view, attrs, releaseAll } from '../lib/vg';
import { check, eq, ok, sequences } from '../lib/kit';

// a slot value: what it shows (as a function of the world) and what it depends on
type V = 'c' | 's1' | 's2' | 'sc' | 'cb1' | 'cb12' | 'scI' | 's1I' | 'cbI2';
type Op =
  | ['ch', string, V] // encode(channel, value)
  | ['obj', Record<string, V>] // encode({..})
  | ['clr', Record<string, V>] // encode({..}, true)
  | ['clr1', string, V] // encode(channel, value, true)
  | ['fn', V] // encode(whole function with dependency) -> {x,y,width}
  | ['st', string, V] // encodeState('hot', channel, value)
  | ['state', V | null] // mark.state(...)
  | ['dep', string[]] // mark.depend
  | ['tr', string] // mark.transform
  | ['join', string]
  | ['coord', string | null]
  | ['parse', string]; // whole re-parse with init spec
type Case = { init: string; ops: Op[] } | SlotCase;

// other grammars: slots which are assigned one of several values
type Slot = Record<string, [any, string[]]>;
type SlotCase = { kind: string; set: [string, string][] };
const cb = (f: (p: any) => any, ...dependency: string[]) => ({ callback: (a: any, b: any) => f(b ?? a), dependency });
const refOf = (id: string) => ({ signal: id });
const KINDS: Record<string, { make: (v: any) => any; slots: Record<string, Slot> }> = {
  linear: {
    make: v => v.scale('linear'),
    slots: {
      domain: { c: [[0, 1], []], n: [null, []], s: [refOf('two'), ['two']], d: [{ data: 'd', field: 'v' }, ['d']], dd: [{ datas: [{ data: 'd', field: 'v' }, { data: 'd2', field: 'v' }] }, ['d', 'd2']], f: [{ callback: (sc: any, p: any) => [0, p.s1], dependency: ['s1'] }, ['s1']] },
      range: { c: [[0, 9], []], n: [null, []], s: [refOf('two'), ['two']], k: [{ coordinate: 'c1', dimension: 'x' }, ['c1']], f: [{ callback: (sc: any, p: any) => [p.s1, p.s2], dependency: ['s1', 's2'] }, ['s1', 's2']] },
      // configurations add up, nothing resets them
      zero: { z: [refOf('b'), ['b']], c: [true, []] },
      min: { m: [refOf('s1'), ['s1']], b: [cb((p: any) => (p.b ? 1 : 2), 'b'), ['b']] },
      configure: { n: [null, []] },
      depend: { n: [null, []], s: ['s1', ['s1']], d: [['s2', 's1', 's2'], ['s1', 's2']] }
    }
  },
  log: {
    make: v => v.scale('log').domain([1, 100]).range([0, 9]),
    slots: {
      base: { s: [refOf('s2'), ['s2']], c: [10, []] },
      ticks: { s: [refOf('s1'), ['s1']], c: [3, []], n: [null, []], f: [refOf('s2'), ['s2']] },
      tickCount: { s: [refOf('s1'), ['s1']], n: [null, []], c: [4, []] },
      configure: { n: [null, []] },
      depend: { n: [null, []], s: ['s1', ['s1']] }
    }
  },
  data: {
    make: v => v.data([{ v: 1 }]),
    slots: {
      load: { v: [['values', [{ v: 1 }]], []], d: [['source', 'd'], ['d']], dd: [['source', ['d', 'd2']], ['d', 'd2']], d2: [['source', 'd2'], ['d2']] },
      transform: { n: [null, []], f: [[{ type: 'filter', callback: (r: any, p: any) => r.v < p.s1, dependency: 's1' }], ['s1']], g: [[{ type: 'filter', callback: (r: any, p: any) => r.v < p.s1 + p.s2, dependency: ['s2', 's1'] }], ['s1', 's2']], m: [[{ type: 'map', callback: (r: any) => r.v, as: 'w' }, { type: 'filter', callback: () => true, dependency: ['d2'] }], ['d2']] },
      depend: { n: [null, []], s: ['s1', ['s1']], d: [['d', 's1'], ['d', 's1']] }
    }
  },
  signal: {
    make: v => v.signal(1),
    slots: {
      update: { n: [null, []], s: [refOf('s1'), ['s1']], f: [{ callback: (x: any, p: any) => p.s1 + p.s2, dependency: ['s1', 's2'] }, ['s1', 's2']], d: [{ callback: (x: any, p: any) => p.d.length, dependency: 'd' }, ['d']], sc: [{ callback: (x: any, p: any) => p.sc.scale(1), dependency: ['sc', 's1'] }, ['sc', 's1']] },
      depend: { n: [null, []], s: ['s1', ['s1']], d: [['d', 's1'], ['d', 's1']] }
    }
  },
  coordinate: {
    make: v => v.coordinate('cartesian'),
    slots: {
      start: { c: [[0, 0], []], n: [null, []], s: [refOf('two'), ['two']], f: [cb(p => [p.s1, p.s1], 's1'), ['s1']] },
      end: { c: [[9, 9], []], n: [null, []], s: [refOf('two'), ['two']], f: [cb(p => [p.s1, p.s2], 's1', 's2'), ['s1', 's2']] },
      translate: { n: [null, []], s: [refOf('two'), ['two']] },
      rotate: { n: [null, []], s: [refOf('s1'), ['s1']] },
      scale: { n: [null, []], f: [cb(p => [p.s2, 1], 's2'), ['s2']] },
      transpose: { n: [null, []], s: [refOf('b'), ['b']] },
      depend: { n: [null, []], s: ['s1', ['s1']] }
    }
  }
};
function* slotCases(depth: number): Generator<SlotCase> {
  for (const kind of Object.keys(KINDS)) {
    const all: [string, string][] = [];
    for (const [slot, o] of Object.entries(KINDS[kind].slots)) for (const k of Object.keys(o)) all.push([slot, k]);
    for (const set of sequences(all, depth, 1)) yield { kind, set };
  }
}
function runSlots(c: SlotCase, ctx: any) {
  try {
    const w: any = { s1: 1, s2: 2, two: [0, 5], b: true, d: [{ v: 1 }, { v: 2 }], d2: [{ v: 7 }], max: 10 };
    const v = view({
      padding: 0,
      signals: ['s1', 's2', 'two', 'b'].map(id => ({ id, value: w[id] })),
      data: [{ id: 'd', values: w.d }, { id: 'd2', values: w.d2 }],
      coordinates: [{ id: 'c1', type: 'cartesian', start: [0, 0], end: [100, 80] }],
      scales: [{ id: 'sc', type: 'linear', domain: [0, 10], range: [0, 100] }],
      marks: []
    } as any);
    ['o1', 'o2', 'o3'].forEach(o => v.signal().id(o).update({ callback: () => 0, dependency: ['s1', 's2', 'two', 'b', 'd', 'd2', 'c1', 'sc'] }));
    const g = KINDS[c.kind].make(v);
    g.id('x');
    let evals = 0;
    const evaluate = g.evaluate;
    g.evaluate = function (...a: any[]) {
      evals++;
      return evaluate.apply(this, a);
    };
    const now: Record<string, string> = {};
    const change = (id: string) => {
      if (id === 'c1') v.getGrammarById(id).commit();
      else if (id === 'sc') v.getGrammarById(id).range([0, (w.max += 5)]);
      else if (id === 'd' || id === 'd2') v.getGrammarById(id).values((w[id] = w[id].map((r: any) => ({ v: r.v + 1 }))));
      else v.getGrammarById(id).value((w[id] = id === 'two' ? [0, w.two[1] + 1] : id === 'b' ? !w.b : w[id] + 1));
    };
    const probe = (id: string, what: string) => {
      const wanted = Object.entries(now).some(([slot, k]) => KINDS[c.kind].slots[slot][k][1].includes(id));
      evals = 0;
      change(id);
      v.run();
      ctx.step();
      eq(evals, wanted ? 1 : 0, wanted ? 'missing-dependency' : 'stale-dependency', `${what}: evaluations of the ${c.kind} for a change of ${id}`);
      ctx.compare();
    };
    v.run();
    c.set.forEach(([slot, k], i) => {
      const value = KINDS[c.kind].slots[slot][k][0];
      const copy = (x: any): any => (Array.isArray(x) ? x.map(copy) : x && typeof x === 'object' ? Object.fromEntries(Object.entries(x).map(([n, y]) => [n, copy(y)])) : x);
      if (slot === 'load') g[value[0]](copy(value[1]));
      else if (slot === 'zero' || slot === 'min' || slot === 'base') g.configure({ [slot]: copy(value) });
      else if (slot === 'ticks') g.configure({ tickCount: copy(value) });
      else g[slot](copy(value));
      if (slot === 'tickCount') delete now.ticks;
      if (slot === 'ticks') delete now.tickCount;
      now[slot] = k;
      if (slot === 'configure') ['zero', 'min', 'base', 'ticks', 'tickCount'].forEach(x => delete now[x]);
      v.run();
      ctx.state([c.kind, now]);
      if (i === c.set.length - 1) ['s1', 's2', 'two', 'b', 'd', 'd2', 'c1', 'sc', 's1'].forEach(id => probe(id, `after ${JSON.stringify(c.set)}`));
    });
  } finally {
    releaseAll();
  }
}


const CH = ['x', 'y', 'width'];
const INITS: Record<string, Record<string, V>> = {
  same: { x: 's1', y: 's1', width: 's1' },
  mixed: { x: 'sc', y: 's1', width: 'cb12' },
  cb: { x: 'cb1', y: 'cb1', width: 'cb1' },
  scale3: { x: 'sc', y: 'sc', width: 'sc' },
  c: { x: 'c', y: 'c', width: 'c' }
};
const DEPS: Record<V, string[]> = {
  c: [], s1: ['s1'], s2: ['s2'], sc: ['sc'], cb1: ['s1'], cb12: ['s1', 's2'], scI: ['sc'], s1I: ['s1'], cbI2: ['s2']
};

check<Case>({
  id: 'D02',
  level: 'model_checking',
  rule:
    'every initial encoding x every sequence of mark API edits (encode / encodeState / state / transform / join / coordinate / depend / parse) up to the depth; ' +
    'every sequence of assignments of constants, signals, data, coordinates, callbacks and nothing to the slots of scales, data, signals and coordinates; after every edit the view runs, then each of the sources is changed in turn and the mark must be re-evaluated exactly when the current spec references it and show the current values',
  *cases(ctx) {
    yield* slotCases(ctx.thorough ? 4 : 3);
    const vals: V[] = ['c', 's1', 's2', 'sc', 'cb12'];
    const chOps: Op[] = [];
    for (const ch of CH) for (const v of vals) chOps.push(['ch', ch, v]);
    const other: Op[] = [
      ['obj', { x: 's2', y: 'c' }],
      ['obj', { x: 'scI', width: 's1I' }],
      ['clr', { x: 's1' }],
      ['clr', {}],
      ['clr1', 'y', 's2'],
      ['fn', 'cb1'],
      ['fn', 'cbI2'],
      ['st', 'y', 's2'],
      ['st', 'y', 's1'],
      ['st', 'y', 'c'],
      ['state', 'cb1'],
      ['state', 's2'],
      ['state', null],
      ['dep', ['s1']],
      ['dep', ['s2', 's1']],
      ['dep', ['s1', 's1']],
      ['dep', []],
      ['tr', 's1'],
      ['tr', 's2'],
      ['tr', 'none'],
      ['join', 'd'],
      ['join', 'd2'],
      ['coord', 'c1'],
      ['coord', 'c2'],
      ['coord', null],
      ['parse', 'same'],
      ['parse', 'mixed']
    ];
    const all = [...chOps, ...other];
    // depth 2 over the whole alphabet, from every init
    for (const init of Object.keys(INITS)) for (const ops of sequences(all, 2)) yield { init, ops };
    // depth 3 over channel edits (reference counting over several slots)
    const small: Op[] = [];
    for (const ch of CH) for (const v of ['c', 's1', 'cb12'] as V[]) small.push(['ch', ch, v]);
    small.push(['st', 'y', 's1'], ['state', 'cb1'], ['state', null], ['dep', ['s1']], ['tr', 's1'], ['tr', 'none'], ['clr', { x: 's1' }], ['fn', 'cb1'], ['parse', 'same']);
    for (const init of ['same', 'cb', 'mixed']) for (const ops of sequences(small, 3, 3)) yield { init, ops };
    if (ctx.thorough) {
      for (const init of Object.keys(INITS)) for (const ops of sequences(all, 3, 3)) yield { init, ops };
      const tiny: Op[] = [...chOps.filter(o => o[2] !== 'cb12' && o[2] !== 'sc'), ['fn', 'cb1'], ['clr', {}], ['st', 'y', 's1']];
      for (const init of ['same', 'mixed']) for (const ops of sequences(tiny, 4, 4)) yield { init, ops };
    }
  },
  run(c, ctx) {
    if ('kind' in c) return runSlots(c, ctx);
    try {
      const w: any = { s1: 1, s2: 2, s3: 3, scMax: 100, d: [{ k: 'a', v: 1 }, { k: 'b', v: 2 }], d2: [{ k: 'a', v: 5 }] };
      const view_ = view({
        padding: 0,
        signals: ['s1', 's2', 's3'].map(id => ({ id, value: w[id] })),
        data: [{ id: 'd', values: w.d }, { id: 'd2', values: w.d2 }],
        coordinates: [
          { id: 'c1', type: 'cartesian', start: [0, 0], end: [100, 80] },
          { id: 'c2', type: 'cartesian', start: [0, 0], end: [100, 80] }
        ],
        scales: [{ id: 'sc', type: 'linear', domain: [0, 10], range: [0, 100] }],
        marks: []
      });
      // others use the same sources
      ['o1', 'o2', 'o3'].forEach(o => view_.signal().id(o).update({ callback: (x: any, p: any) => `${p.s1}${p.s2}${p.s3}${p.sc}${p.d}${p.d2}`, dependency: ['s1', 's2', 's3', 'sc', 'd', 'd2'] }));
      const S = (id: string) => view_.getGrammarById(id);
      const enc = (v: V, ch: string): any => {
        switch (v) {
          case 'c': return 7;
          case 's1': return { signal: 's1' };
          case 's2': return { signal: 's2' };
          case 's1I': return { signal: S('s1') };
          case 'sc': return { scale: 'sc', field: 'v' };
          case 'scI': return { scale: S('sc'), field: 'v' };
          case 'cb1': return { callback: (d: any, el: any, p: any) => d.v * 1000 + p.s1, dependency: 's1' };
          case 'cb12': return { callback: (d: any, el: any, p: any) => d.v * 1000 + p.s1 * 10 + p.s2, dependency: ['s1', 's2'] };
          case 'cbI2': return { callback: (d: any, el: any, p: any) => d.v * 1000 + p.s2, dependency: [S('s2')] };
        }
      };
      const val = (v: V, d: any): any => {
        switch (v) {
          case 'c': return 7;
          case 's1': case 's1I': return w.s1;
          case 's2': return w.s2;
          case 'sc': case 'scI': return (d.v / 10) * w.scMax;
          case 'cb1': return d.v * 1000 + w.s1;
          case 'cb12': return d.v * 1000 + w.s1 * 10 + w.s2;
          case 'cbI2': return d.v * 1000 + w.s2;
        }
      };
      const fnEnc = (v: V) => {
        const e = enc(v, 'x');
        return { callback: (d: any, el: any, p: any) => { const r = e.callback(d, el, p); return { x: r, y: r + 1, width: r + 2 }; }, dependency: e.dependency };
      };
      const tr = (t: string) => (t === 'none' ? null : [{ type: 'filter', callback: (d: any, p: any) => d.v > p[t] - 50, dependency: [t] }]);
      // model of the mark's spec
      let m: any;
      let mark: any;
      const initModel = (name: string) => ({ update: { ...INITS[name] } as Record<string, V>, fn: null as V, hot: {} as Record<string, V>, state: null as V, dep: m ? m.dep : [], tr: 'none', join: 'd', coord: null as string });
      const initSpec = (name: string) => ({
        type: 'rect', id: 'r', from: { data: 'd' }, key: 'k', dependency: [] as any[],
        encode: { update: Object.fromEntries(CH.map(ch => [ch, enc(INITS[name][ch], ch)])) }
      });
      mark = view_.mark('rect', view_.rootMark).parse(initSpec(c.init));
      m = initModel(c.init);
      let evals = 0;
      mark.addEventListener('beforeElementEncode', () => evals++);
      const refs = (): Set<string> => {
        const s = new Set<string>();
        const add = (v: V) => v && DEPS[v].forEach(x => s.add(x));
        if (m.fn) add(m.fn);
        else Object.values(m.update).forEach(add as any);
        Object.values(m.hot).forEach(add as any);
        if (m.state) add(m.state);
        m.dep.forEach((x: string) => s.add(x));
        if (m.tr !== 'none') s.add(m.tr);
        s.add(m.join);
        if (m.coord) s.add(m.coord);
        return s;
      };
      // attributes written once stay on the graphic until overwritten: track the last written value per channel
      const shown: Record<string, any[]> = {};
      const rows = () => w[m.join].filter((d: any) => m.tr === 'none' || d.v > w[m.tr] - 50);
      const expectAttrs = () => {
        const data = rows();
        return data.map((d: any) => {
          const a: any = {};
          if (m.fn) {
            const r = val(m.fn, d);
            Object.assign(a, { x: r, y: r + 1, width: r + 2 });
          } else for (const ch of Object.keys(m.update)) a[ch] = val(m.update[ch], d);
          if (isHot()) for (const ch of Object.keys(m.hot)) a[ch] = val(m.hot[ch], d);
          return a;
        });
      };
      const isHot = () => m.state && (m.state === 'cb1' ? w.s1 % 2 === 0 : w.s2 % 2 === 0);
      const stateSpec = (v: V): any =>
        v === null ? null : { callback: (d: any, el: any, p: any) => (p[v === 'cb1' ? 's1' : 's2'] % 2 === 0 ? ['hot'] : []), dependency: v === 'cb1' ? 's1' : 's2' };
      const compare = (what: string) => {
        const els = mark.elements;
        const exp = expectAttrs();
        eq(els.map((e: any) => e.getDatum().k), rows().map((d: any) => d.k), 'wrong-elements', what + ': element keys');
        els.forEach((e: any, i: number) => {
          const a = attrs(e);
          for (const ch of Object.keys(exp[i])) {
            eq(a[ch], exp[i][ch], 'stale-attribute', () => `${what}: ${ch} of ${e.key}`);
            ctx.compare();
          }
        });
        void shown;
      };
      const probe = (id: string, what: string, expectEval: boolean) => {
        evals = 0;
        if (id === 'sc') {
          w.scMax += 10;
          S('sc').range([0, w.scMax]);
        } else if (id === 'c1' || id === 'c2') {
          S(id).commit();
        } else if (id === 'd' || id === 'd2') {
          w[id] = w[id].map((d: any) => ({ ...d, v: d.v + 1 }));
          S(id).values(w[id]);
        } else {
          w[id] += 1;
          S(id).value(w[id]);
        }
        view_.run();
        ctx.step();
        if (expectEval) ok(evals > 0, 'missing-dependency', () => `${what}: the mark references ${id}, but changing ${id} did not re-evaluate it`);
        else ok(evals === 0, 'stale-dependency', () => `${what}: the mark no longer references ${id}, but changing ${id} re-evaluated it`);
        ok(evals <= 1, 'evaluated-twice', () => `${what}: mark evaluated ${evals} times for one change of ${id}`);
        compare(`${what}, after changing ${id}`);
      };
      const apply = (op: Op) => {
        switch (op[0]) {
          case 'ch':
            if (m.fn) return false; // a single channel on top of a function encoder: not specified
            mark.encode(op[1], enc(op[2], op[1]));
            m.update[op[1]] = op[2];
            break;
          case 'obj':
          case 'clr': {
            if (m.fn && op[0] === 'obj') return false;
            if (m.fn) return false;
            const o = Object.fromEntries(Object.keys(op[1]).map(ch => [ch, enc(op[1][ch], ch)]));
            if (op[0] === 'clr') {
              mark.encode(o, true);
              m.update = { ...op[1] };
            } else {
              mark.encode(o);
              Object.assign(m.update, op[1]);
            }
            m.fn = null;
            break;
          }
          case 'clr1':
            if (m.fn) return false;
            mark.encode(op[1], enc(op[2], op[1]), true);
            m.update = { [op[1]]: op[2] };
            break;
          case 'fn':
            mark.encode(fnEnc(op[1]), true);
            m.fn = op[1];
            m.update = {};
            break;
          case 'st':
            mark.encodeState('hot', op[1], enc(op[2], op[1]));
            m.hot[op[1]] = op[2];
            break;
          case 'state':
            mark.state(stateSpec(op[1]));
            // dropping the state function keeps the states the elements already have
            if (op[1] === null && isHot()) m.stuck = true;
            m.state = op[1];
            break;
          case 'dep':
            mark.depend(op[1]);
            m.dep = op[1];
            break;
          case 'tr':
            mark.transform(tr(op[1]));
            m.tr = op[1];
            break;
          case 'join':
            mark.join(op[1], 'k');
            m.join = op[1];
            break;
          case 'coord':
            mark.coordinate(op[1]);
            m.coord = op[1];
            break;
          case 'parse':
            mark.parse(initSpec(op[1]));
            m = initModel(op[1]);
            m.dep = [];
            break;
        }
        return true;
      };
      view_.run();
      compare('initially');
      let i = 0;
      for (const op of c.ops) {
        const before = JSON.stringify(m);
        if (apply(op) === false) return;
        if (m.coord && !m.fn && !('x' in m.update && 'y' in m.update)) return; // coordinates transform whole points
        if (m.stuck) return; // element states survive: covered by the element-state property
        view_.run();
        ctx.step();
        compare(`after op ${i} ${JSON.stringify(op)}`);
        ctx.state([before, op, w.s1 % 2, w.s2 % 2]);
        i++;
      }
      const r = refs();
      const what = `after ${JSON.stringify(c.ops)}`;
      for (const id of ['s1', 's2', 's3', 'sc', 'd', 'd2', 'c1', 'c2', 's1']) probe(id, what, r.has(id));
    } finally {
      releaseAll();
    }
  }
});

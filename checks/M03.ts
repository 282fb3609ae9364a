// M03: element states. Sequences of state operations / data updates on real elements against an overlay model.
import { view, releaseAll } from '../lib/vg';
import { check, eq, ok, sequences, show } from '../lib/kit';

type Op = [string, ...any[]];
type Case = { type: string; sort?: 0 | 1; spec?: 'fn' | 'sig' | 'const'; ops: Op[]; gname?: boolean };
type Row = { k: string; v: number; w: number };
const ROWS: Record<string, Row[]> = {
  D1: [{ k: 'a', v: 2, w: 1 }, { k: 'b', v: 8, w: 5 }],
  D2: [{ k: 'b', v: 7, w: 3 }, { k: 'a', v: 4, w: 6 }],
  D3: [{ k: 'b', v: 1, w: 9 }]
};
// channels of the normal encoding and of the states, as [spec, value]; 'fx' is a function encoder
type Ch = Record<string, [any, (r: Row, s: number) => any]>;
const c = (v: any): [any, any] => [v, () => v];
const f = (n: 'v' | 'w'): [any, any] => [{ field: n }, (r: Row) => r[n]];
const sg: [any, any] = [{ signal: 's' }, (r: Row, s: number) => s];
const TYPES: Record<string, { enter: Ch; update: Ch; states: Record<string, Ch> }> = {
  rect: {
    enter: { stroke: c('black'), cornerRadius: f('w') },
    update: { x: f('v'), y: sg, width: c(10), fill: c('red') },
    states: { p: { fill: c('blue'), x: f('w') }, q: { fill: c('green'), opacity: c(0.5), lineWidth: sg }, r: { stroke: c('gold'), x: c(0) } }
  },
  symbol: {
    enter: { stroke: c('black') },
    update: { x: f('v'), y: c(3), shape: c('rect'), fill: c('red'), size: sg },
    states: { p: { shape: c('circle'), size: f('w') }, q: { image: c('im'), fillOpacity: c(0.25) }, r: { shape: c('cross'), fill: c('blue'), background: c('bg') } }
  },
  symbol2: {
    enter: { image: c('img0') },
    update: { x: f('v'), y: c(3), symbolType: c('rect'), fill: c('red'), fillOpacity: c(0.75) },
    states: { p: { shape: c('circle') }, q: { fill: c('gold'), fillOpacity: c(0.25) }, r: { image: c('other'), background: c('bg') } }
  },
  rule: {
    enter: { stroke: c('black') },
    update: { x: f('v'), y: c(3), x1: sg, y1: f('w') },
    states: { p: { x1: c(50), stroke: c('red') }, q: { x: f('w'), y: c(40) }, r: { y1: c(0), x1: c(60), lineWidth: c(4) } }
  },
  text: {
    enter: { maxLineWidth: c(70) },
    update: { x: f('v'), y: c(1), text: c('hello'), fill: c('red') },
    states: { p: { limit: c(20) }, q: { autoLimit: f('v'), text: c('bye'), fill: c('blue') }, r: { maxLineWidth: c(5), text: f('w') } }
  },
  text2: {
    enter: { stroke: c('black') },
    update: { x: f('v'), y: c(1), text: f('k' as any), limit: sg, autoLimit: c(30) },
    states: { p: { limit: c(20), x: c(9) }, q: { autoLimit: c(2) }, r: { text: c('other') } }
  },
  line: {
    enter: { stroke: c('black') },
    update: { x: f('v'), y: f('w'), lineWidth: sg },
    states: { p: { stroke: c('red') }, q: { lineWidth: c(9), stroke: c('blue') }, r: { strokeOpacity: c(0.5) } }
  }
};
const FX: Ch = { fx: [null, null] } as any;
void FX;
/** what is visible, from layers of channels */
function visible(type: string, layers: any[]): any {
  const m: any = Object.assign({}, ...layers);
  if (type === 'rule') {
    const { x, y, x1, y1, ...rest } = m;
    return { ...rest, points: [{ x, y }, { x: x1, y: y1 }] };
  }
  if (type.startsWith('text')) {
    const { limit, autoLimit, maxLineWidth, ...rest } = m;
    const w = Math.min(limit ?? Infinity, autoLimit ?? Infinity);
    return { ...rest, maxLineWidth: w === Infinity ? maxLineWidth : w };
  }
  if (type.startsWith('symbol')) {
    const { shape, symbolType, image, fill, background, ...rest } = m;
    let st: any;
    for (const l of layers) st = l.shape ?? l.symbolType ?? st;
    return { ...rest, symbolType: st, fill: image ? false : fill, background: image ? image : background };
  }
  return m;
}
const KEYS = ['x', 'y', 'width', 'fill', 'stroke', 'opacity', 'lineWidth', 'cornerRadius', 'size', 'symbolType', 'background', 'points', 'text', 'maxLineWidth', 'strokeOpacity'];

check<Case>({
  id: 'M03',
  level: 'model_checking',
  rule:
    'every sequence (to the depth) of addState / removeState / updateStates / useStates / clearStates, with and without runtime attributes, interleaved with data, signal and encoding changes, on marks of seven kinds with overlapping constant, field, signal and function state encodings, ' +
    'with and without stateSort and state specs; after each operation visible attributes, active states and return values of every element are compared with an overlay model',
  *cases(ctx) {
    const A: Op[] = [['add', 'p'], ['add', 'q'], ['add', ['q', 'r']], ['add', 'nope'], ['rm', 'p'], ['rm', ['q', 'r']], ['upd', { p: true, q: false }], ['upd', { q: true, r: true, p: false }], ['use', ['r', 'p']], ['use', []], ['clear'], ['D2'], ['D3'], ['sig']];
    for (const type of Object.keys(TYPES)) {
      const depth = ctx.thorough ? 4 : type === 'rect' || type === 'symbol' ? 3 : 3;
      for (const s of sequences(A, depth, 1)) yield { type, ops: s };
    }
    for (const s of sequences(A.filter(o => o[0] !== 'D3'), ctx.thorough ? 4 : 3, 2)) yield { type: 'rect', sort: 1, ops: s };
    const B: Op[] = [['addr', 'p', { fill: 'cyan', x: 33 }], ['addr', 'p', { fill: 'pink' }], ['addr', 'z', { opacity: 0.1, fill: 'gray' }], ['add', 'p'], ['add', 'q'], ['rm', 'p'], ['rm', ['z', 'q']], ['upd', { p: { x: 44 } }], ['upd', { z: { fill: 'snow' }, p: false }], ['upd', { p: true }], ['clear'], ['D2'], ['D3'], ['sig']];
    for (const type of ['rect', 'symbol']) for (const s of sequences(B, ctx.thorough ? 4 : 3, 2)) yield { type, ops: s };
    for (const s of sequences([['addr', 'p', { x1: 77 }], ['add', 'p'], ['add', 'q'], ['rm', 'p'], ['rm', 'q'], ['upd', { q: { y: 12 } }], ['clear'], ['D2'], ['sig']] as Op[], ctx.thorough ? 5 : 4, 2)) yield { type: 'rule', ops: s };
    // states given by the spec
    for (const spec of ['fn', 'sig', 'const'] as const)
      for (const sort of [0, 1] as const)
        for (const s of sequences([['add', 'r'], ['rm', 'p'], ['use', ['q']], ['clear'], ['D1'], ['D2'], ['D3'], ['sig'], ['st', ['q', 'p']], ['st', []], ['st', 'r']] as Op[], ctx.thorough ? 4 : 3, 1)) yield { type: 'symbol', spec, sort, ops: s };
    // encodings of states change while they are active
    for (const type of ['rect', 'rule', 'symbol'])
      for (const s of sequences([['add', 'p'], ['add', 'q'], ['rm', 'p'], ['clear'], ['enc', 'p', 1], ['enc', 'p', 2], ['enc', 'fx', 0], ['add', 'fx'], ['D2'], ['sig']] as Op[], ctx.thorough ? 5 : 4, 2))
        if (s.some(o => o[0] === 'enc')) yield { type, ops: s };
  },
  run(cs, ctx) {
    try {
      const def = TYPES[cs.type];
      const type = cs.type.replace(/\d/, '');
      const coll = type === 'line';
      const st = { s: 4, rows: ROWS.D1, spec: ['p'] as any };
      const spec = (g: Ch) => Object.fromEntries(Object.entries(g).map(([k, x]) => [k, x[0]]));
      const stateSpec = cs.spec === 'const' ? ['q', 'p'] : cs.spec === 'sig' ? { signal: 'st' } : cs.spec === 'fn' ? { callback: (d: any, el: any, p: any) => (d.k === 'a' ? p.st : ['r', 'q']), dependency: ['st'] } : undefined;
      const ORDER = ['q', 'r', 'p', 'z', 'nope', 'fx'];
      const states: Record<string, Ch> = { ...def.states };
      let fx = false;
      const v = view({
        padding: 0,
        signals: [{ id: 's', value: 4 }, { id: 'st', value: ['p'] }],
        data: [{ id: 'd', values: ROWS.D1.map(r => ({ ...r })) }],
        marks: [
          {
            type, id: 'm', from: { data: 'd' }, key: 'k', state: stateSpec, stateSort: cs.sort ? (a: string, b: string) => ORDER.indexOf(a) - ORDER.indexOf(b) : undefined,
            encode: { enter: spec(def.enter), update: spec(def.update), ...Object.fromEntries(Object.entries(def.states).map(([n, g]) => [n, spec(g)])) }
          }
        ]
      } as any);
      const mark = v.getMarkById('m');
      type M = { normal: any; active: string[]; runtime: Record<string, any>; row: Row };
      let model = new Map<string, M>();
      const val = (g: Ch, r: Row) => Object.fromEntries(Object.entries(g).map(([k, x]) => [k, x[1](r, st.s)]));
      const sorted = (l: string[]) => (cs.sort ? l.slice().sort((a, b) => ORDER.indexOf(a) - ORDER.indexOf(b)) : l);
      const specStates = (r: Row): string[] => {
        const x = cs.spec === 'const' ? ['q', 'p'] : cs.spec === 'sig' || r.k === 'a' ? st.spec : ['r', 'q'];
        return sorted((Array.isArray(x) ? x : [x]).slice());
      };
      const evaluate = () => {
        const next = new Map<string, M>();
        const list: [string, Row][] = coll ? [['key', st.rows[0]]] : st.rows.map(r => [r.k, r]);
        for (const [k, r] of list) {
          const old = model.get(k);
          const m: M = old ?? { normal: val(def.enter, r), active: [], runtime: {}, row: r };
          m.row = r;
          m.normal = { ...m.normal, ...(coll ? val(def.enter, r) : {}), ...val(def.update, r) };
          if (cs.spec) m.active = specStates(r);
          next.set(k, m);
        }
        model = next;
      };
      evaluate();
      const attrsOf = (m: M, s: string): any => {
        if (s === 'fx' && fx) return { x: m.row.v * 100, fill: m.active.join('+') };
        return { ...(states[s] ? val(states[s], m.row) : {}), ...(m.runtime[s] ?? {}) };
      };
      const compare = (what: string) => {
        const els = mark.elements as any[];
        eq(els.length, model.size, 'elements', what);
        for (const el of els) {
          const m = model.get(coll ? 'key' : el.key)!;
          const at = el.getGraphicItem().attribute;
          const exp = visible(cs.type, [m.normal, ...m.active.map(s => attrsOf(m, s))]);
          if (coll) {
            delete exp.x;
            delete exp.y;
            exp.points = st.rows.map(r => ({ x: r.v, y: r.w }));
          }
          const got: any = {};
          const want: any = {};
          KEYS.forEach(k => {
            if (type === 'rule' && (k === 'x' || k === 'y')) return;
            if (coll && (k === 'x' || k === 'y')) return;
            got[k] = k === 'points' ? at.points?.map((p: any) => ({ x: p.x, y: p.y })) : at[k];
            want[k] = exp[k];
          });
          got.fillOpacity = at.fillOpacity ?? 1;
          want.fillOpacity = exp.fillOpacity ?? 1;
          const id = `${what}: ${cs.type} ${el.key}`;
          eq(el.getStates(), m.active, 'active-states', `${id} active states`);
          eq(got, want, m.active.length ? 'overlay' : 'restore', `${id} attributes with states [${m.active}]`);
          for (const s of ['p', 'q', 'r', 'z']) eq(!!el.hasState(s), m.active.includes(s), 'has-state', `${id} hasState(${s})`);
          ctx.compare();
        }
        ctx.state([cs.type, cs.sort, cs.spec, st.s, [...model.values()].map(m => [m.active, m.runtime, m.row])]);
      };
      compare('initially');
      let n = 0;
      for (const op of cs.ops) {
        n++;
        ctx.step();
        const what = `after ${cs.ops.slice(0, n).map(o => show(o)).join(' ')}`;
        ctx.trace(op);
        // state operations go to element a (or the line); b is the control
        const el = (mark.elements as any[]).find(e => coll || e.key === 'a');
        const m = model.get(coll ? 'key' : 'a');
        const known = (s: string) => !!states[s] || (s === 'fx' && fx);
        switch (op[0]) {
          case 'D1': case 'D2': case 'D3':
            st.rows = ROWS[op[0]];
            v.getDataById('d').values(st.rows.map(r => ({ ...r })));
            v.run();
            evaluate();
            break;
          case 'sig':
            st.s += 3;
            v.getSignalById('s').value(st.s);
            v.run();
            evaluate();
            break;
          case 'st':
            st.spec = op[1];
            v.getSignalById('st').value(Array.isArray(op[1]) ? op[1].slice() : op[1]);
            v.run();
            if (cs.spec !== 'const') evaluate();
            break;
          case 'enc':
            if (op[1] === 'fx') {
              mark.encodeState('fx', (d: any, e: any, name: string, next: string[]) => ({ x: (Array.isArray(d) ? d[0] : d).v * 100, fill: next.join('+') }));
              fx = true;
            } else if (op[2] === 1) {
              mark.encodeState(op[1], { opacity: 0.9, x: { signal: 's' } }, true);
              states[op[1]] = { opacity: c(0.9), x: sg };
            } else {
              mark.encodeState(op[1], 'stroke', { field: 'v' });
              states[op[1]] = { ...states[op[1]], stroke: f('v') };
            }
            v.run();
            evaluate();
            break;
          default: {
            if (!el) break;
            const before = m.active.slice();
            const beforeRt = show(m.runtime);
            let r: any;
            if (op[0] === 'add') {
              r = el.addState(op[1]);
              (Array.isArray(op[1]) ? op[1] : [op[1]]).forEach((s: string) => known(s) && !m.active.includes(s) && (m.active = sorted([...m.active, s])));
            } else if (op[0] === 'addr') {
              r = el.addState(op[1], op[2]);
              if (!m.active.includes(op[1])) m.active = sorted([...m.active, op[1]]);
              m.runtime[op[1]] = op[2];
            } else if (op[0] === 'rm') {
              r = el.removeState(op[1]);
              (Array.isArray(op[1]) ? op[1] : [op[1]]).forEach((s: string) => delete m.runtime[s]);
              m.active = m.active.filter(s => ![].concat(op[1]).includes(s));
            } else if (op[0] === 'upd') {
              r = el.updateStates(op[1]);
              Object.entries(op[1] as any).forEach(([s, x]: any) => {
                if (x && typeof x === 'object') {
                  if (!m.active.includes(s)) m.active = [...m.active, s];
                  m.runtime[s] = x;
                } else if (x) {
                  if (!m.active.includes(s) && known(s)) m.active = [...m.active, s];
                } else {
                  m.active = m.active.filter(y => y !== s);
                  delete m.runtime[s];
                }
              });
              m.active = sorted(m.active);
            } else if (op[0] === 'use') {
              el.useStates(op[1].slice());
              m.active = sorted(op[1].slice());
            } else if (op[0] === 'clear') {
              el.clearStates();
              m.active = [];
              m.runtime = {};
            }
            if (typeof r === 'boolean') {
              const changed = show(before) !== show(m.active) || beforeRt !== show(m.runtime);
              eq(r, changed, 'return-value', `${what}: returned`);
            }
          }
        }
        compare(what);
      }
    } finally {
      releaseAll();
    }
  }
});

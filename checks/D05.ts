// D05: an updated view equals a view built from scratch; lookups return exactly the current grammars.
import { view, newView, releaseAll, vtime } from '../lib/vg';
import { check, eq, ok, sequences, show, subsets, permutations } from '../lib/kit';

// ---- alphabet of specs; w carries edits applied since -------------------------------------------
const SPECS: Record<string, (w: any) => any> = {
  A: w => ({
    padding: 5,
    signals: [{ id: 's', value: w.s }],
    data: [{ id: 'd', values: rows(w) }],
    scales: [{ id: 'x', type: 'band', domain: { data: 'd', field: 'k' }, range: [0, 90] }, { id: 'y', type: 'linear', domain: { data: 'd', field: 'v' }, range: [70, 0] }],
    marks: [
      { id: 'm', type: 'rect', name: 'bars', from: { data: 'd' }, key: 'k', encode: { ...ent(w, { fill: 'red', stroke: 'blue' }), update: { x: { scale: 'x', field: 'k' }, width: 10, y: { scale: 'y', field: 'v' }, height: 5, stroke: { signal: 's' }, ...all(w, { fill: 'red' }) } } },
      { id: 't', type: 'text', name: 'texts', from: { data: 'd' }, key: 'k', encode: { update: { text: { field: 'k' }, x: { scale: 'x', field: 'k' }, y: 5 } } }
    ]
  }),
  // fewer channels, other constants, no key
  B: w => ({
    padding: 5,
    signals: [{ id: 's', value: w.s }],
    data: [{ id: 'd', values: rows(w), transform: [{ type: 'filter', callback: (d: any) => d.v > 1 }] }],
    scales: [{ id: 'x', type: 'band', domain: { data: 'd', field: 'k' }, range: [10, 60] }],
    marks: [{ id: 'm', type: 'rect', name: 'bars', from: { data: 'd' }, encode: { ...ent(w, { fill: 'blue' }), update: { x: { scale: 'x', field: 'k' }, width: 7, y: 1, height: 9, ...all(w, { fill: 'blue', stroke: 'tan' }) } } }]
  }),
  // same mark ids inside a group, other parents and order
  C: w => ({
    padding: 0,
    signals: [{ id: 's', value: w.s }],
    data: [{ id: 'd', values: rows(w) }],
    marks: [
      {
        id: 'g', type: 'group', encode: { update: { x: 3, y: 4, width: 50, height: 50 } },
        marks: [
          { id: 't', type: 'text', from: { data: 'd' }, key: 'k', encode: { update: { text: { field: 'v' }, y: { field: 'v' }, ...all(w, { x: 2 }) } } },
          { id: 'm', type: 'rect', from: { data: 'd' }, key: 'k', encode: { update: { x: { field: 'v' }, width: 2, height: 2, fill: { signal: 's' }, ...all(w, { y: 3, stroke: 'tan' }) } } }
        ]
      }
    ]
  }),
  // same ids with other types
  D: w => ({
    padding: 1,
    signals: [{ id: 's', value: w.s }],
    data: [{ id: 'd', values: rows(w) }],
    scales: [{ id: 'x', type: 'linear', domain: [0, 10], range: [0, 90] }],
    marks: [
      { id: 'm', type: 'symbol', from: { data: 'd' }, key: 'k', encode: { update: { x: { scale: 'x', field: 'v' }, y: 2, size: 5, fill: 'green' } } },
      { id: 'g', type: 'group', encode: { update: { x: 1 } }, marks: [{ id: 'h', type: 'rule', encode: { update: { x: 0, x1: 9, y: 1, y1: 1 } } }] }
    ]
  }),
  // upstream data chain, groupBy line, state
  E: w => ({
    padding: 2,
    signals: [{ id: 's', value: w.s }],
    data: [{ id: 'e', values: rows(w) }, { id: 'd', source: 'e', transform: [{ type: 'sort', sort: (a: any, b: any) => a.v - b.v }] }],
    coordinates: [{ id: 'c', type: 'cartesian', start: [0, 0], end: [60, 60] }],
    scales: [{ id: 'y', type: 'linear', domain: { data: 'd', field: 'v' }, range: { coordinate: 'c', dimension: 'y' } }],
    marks: [
      { id: 'l', type: 'line', from: { data: 'd' }, groupBy: 'g', encode: { update: { x: { field: 'v' }, y: { scale: 'y', field: 'v' }, stroke: 'black' } } },
      { id: 'm', type: 'rect', from: { data: 'd' }, key: 'k', groupBy: 'g', encode: { group: { fill: { field: 'g' } }, update: { x: { field: 'v' }, width: 3, height: 3, ...all(w, { y: 4, stroke: { signal: 's' } }) } } }
    ]
  }),
  // same as A with the marks swapped, no enter channel, constant instead of data for one
  F: w => ({
    padding: 5,
    data: [{ id: 'd', values: rows(w) }],
    scales: [{ id: 'y', type: 'linear', domain: { data: 'd', field: 'v' }, range: [0, 70], nice: true }],
    marks: [
      { id: 't', type: 'text', encode: { update: { text: 'one', x: 3, ...all(w, { y: 8 }) } } },
      { id: 'm', type: 'rect', from: { data: 'd' }, key: 'k', encode: { update: { y: { scale: 'y', field: 'v' }, height: 4, width: 4, x: 0, ...all(w, { fill: 'tan', stroke: 'red' }) } } }
    ]
  })
};
// A reused element keeps enter channels and channels which are no longer given (d3 semantics), so with reuse on
// all specs give the same update channels; with reuse off they differ and use enter channels too.
const all = (w: any, ch: any) => (w.reuse ? ch : {});
const ent = (w: any, ch: any) => (w.reuse ? {} : { enter: ch });
const TABLES = [
  [{ k: 'a', v: 3, g: 'red' }, { k: 'b', v: 1, g: 'blue' }, { k: 'c', v: 6, g: 'red' }],
  [{ k: 'c', v: 2, g: 'red' }, { k: 'd', v: 8, g: 'green' }],
  []
];
function rows(w: any) {
  return TABLES[w.t].map(r => ({ ...r }));
}

export function observeMark(m: any): any {
  const els = m.elements.filter((e: any) => e);
  return {
    id: m.id(), type: m.markType, name: m.name && m.name(),
    elements: els.map((e: any) => ({ key: String(e.key).startsWith('VGRAMMAR') ? '-' : e.key, data: clean(e.data), attrs: attrsOf(e), states: e.currentStates || [] })),
    children: m.children ? m.children.map(observeMark) : undefined
  };
}
// a morphed colour is written as rgb()
const RGB: Record<string, string> = {
  gold: 'rgb(255,215,0)', pink: 'rgb(255,192,203)', red: 'rgb(255,0,0)', blue: 'rgb(0,0,255)', green: 'rgb(0,128,0)', tan: 'rgb(210,180,140)', black: 'rgb(0,0,0)'
};
function norm(x: any): any {
  if (typeof x === 'string') return RGB[x] || x;
  if (x && typeof x === 'object' && Object.getPrototypeOf(x) === Object.prototype) {
    const o: any = {};
    for (const k of Object.keys(x)) o[k] = norm(x[k]);
    return o;
  }
  return x;
}
const DROP = new Set(['runtime', 'keepDirIn3d', 'fillPickable', 'strokePickable', 'pickable', 'childrenPickable']);
function attrsOf(e: any) {
  const g = e.getGraphicItem();
  if (!g) return null;
  const o: any = {};
  for (const k of Object.keys(g.attribute)) if (g.attribute[k] !== undefined && !DROP.has(k)) o[k] = norm(g.attribute[k]);
  return o;
}
export function clean(rows: any): any {
  if (!Array.isArray(rows)) return rows;
  return rows.map(r => {
    if (!r || typeof r !== 'object') return r;
    const o: any = {};
    for (const k of Object.keys(r)) if (!k.startsWith('VGRAMMAR_DATA_ID_KEY')) o[k] = r[k];
    return o;
  });
}
function scene(g: any): any {
  const kids: any[] = [];
  g.forEachChildren((c: any) => {
    kids.push(scene(c));
  });
  // the order of the graphics of one mark is not part of the property
  if (kids.every(k => !k.kids.length && k.type !== 'group')) kids.sort((a, b) => (JSON.stringify(a) < JSON.stringify(b) ? -1 : 1));
  return { type: g.type, name: g.name, x: g.attribute.x, y: g.attribute.y, kids };
}
const BUILTIN = ['width', 'height', 'padding', 'viewWidth', 'viewHeight', 'viewBox', 'autoFit'];
export function observe(v: any) {
  const grammars: any[] = [];
  v.grammars.traverse((g: any) => {
    if (BUILTIN.includes(g.id())) return;
    grammars.push(`${g.grammarType}:${g.id()}`);
  });
  const data: any = {};
  v.grammars.getAllData().forEach((d: any) => (data[d.id()] = clean(d.getValue())));
  const scales: any = {};
  v.grammars.getAllScales().forEach((s: any) => (scales[s.id()] = { type: s.output().type, domain: s.output().domain(), range: s.output().range() }));
  const signals: any = {};
  v.grammars.getAllSignals().forEach((s: any) => (signals[s.id()] = s.output()));
  return { grammars: grammars.sort(), data, scales, signals, marks: observeMark(v.rootMark), scene: scene(v.renderer.stage().defaultLayer) };
}

// ---- spec with the model's edits -----------------------------------------------------------------
function finalSpec(m: any) {
  const s = SPECS[m.spec](m.w);
  const strip = (marks: any[]): any[] => marks.filter(x => !m.removed.has(x.id)).map(x => (x.marks ? { ...x, marks: strip(x.marks) } : x));
  s.marks = strip(s.marks);
  if (m.added) s.marks.push(...m.added.map((i: string) => ADDED[i]()));
  return s;
}
const ADDED: Record<string, () => any> = {
  n1: () => ({ id: 'n1', type: 'symbol', from: { data: 'd' }, key: 'k', encode: { update: { x: { field: 'v' }, y: 2, size: 3 } } }),
  n2: () => ({ id: 'n2', type: 'rect', encode: { update: { x: 9, y: 9, width: 1, height: 1 } } })
};

type Case = { ops?: string[]; run: any; perms?: string[][] };

// a spec holding the given marks in the given order; a letter fixes type, id and channels
function orderSpec(ids: string) {
  const all: Record<string, any> = {
    a: { id: 'a', type: 'rect', from: { data: 'd' }, key: 'k', encode: { update: { x: 1 } } },
    b: { id: 'b', type: 'symbol', from: { data: 'd2' }, key: 'k', encode: { update: { x: 2 } } },
    c: { id: 'c', type: 'text', encode: { update: { x: 3, text: 'c' } } },
    g: { id: 'g', type: 'group', encode: { update: { x: 4 } } },
    e: { id: 'e', type: 'rule', from: { data: 'd' }, encode: { update: { x: { scale: 'x', field: 'v' } } } }
  };
  return {
    data: [{ id: 'd', values: [{ k: 'a', v: 1 }] }, { id: 'd2', source: 'd', transform: [{ type: 'filter', callback: () => true }] }],
    scales: [{ id: 'x', type: 'linear', domain: { data: 'd', field: 'v' }, range: [0, 1] }],
    marks: ids.split('').map(i => ({ ...all[i] }))
  };
}
function runOrder(c: Case, ctx: any) {
  try {
    const seq = c.perms[0];
    const v = view(orderSpec(seq[0]), {}, c.run);
    seq.slice(1).forEach((p, i) => {
      v.updateSpec(orderSpec(p));
      v.run(c.run);
      ctx.step();
      const kids: string[] = [];
      v.rootMark.getGroupGraphicItem().forEachChildren((g: any) => {
        kids.push(g.name);
      });
      eq(kids, p.split(''), 'draw-order', `marks ${seq.slice(0, i + 2).join(' -> ')}: order of the graphics`);
      ctx.compare();
      ctx.state(['order', seq.slice(0, i + 2)]);
    });
  } finally {
    releaseAll();
  }
}
function* arrangements(ids: string): Generator<string> {
  for (const s of subsets(ids.split(''))) for (const p of permutations(s)) yield p.join('');
}

check<Case>({
  id: 'D05',
  level: 'model_checking',
  rule:
    'every sequence (to the depth) of updateSpec over 6 specs that share ids across types/parents/pipelines (with and without an intermediate run, reuse on/off, morph on), ' +
    'table edits, signal edits, removal and addition of marks; oracle: grammars, data, scales, signals, elements, attributes, mark tree and scene graph of a view built afresh; ' +
    'lookups by id/name/type agree with the current grammars',
  assumptions: ['no animations (see A01)'],
  *cases(ctx) {
    const arr = [...arrangements(ctx.thorough ? 'abcge' : 'abce')].filter(x => x);
    for (const p of arr) for (const q of arr) yield { run: {}, perms: [[p, q]] };
    const arr3 = [...arrangements('abg')].filter(x => x);
    for (const p of arr3) for (const q of arr3) for (const r of arr3) yield { run: {}, perms: [[p, q, r]] };
    const ups = Object.keys(SPECS).map(k => 'U' + k);
    const lazy = Object.keys(SPECS).map(k => 'L' + k); // updateSpec without run
    const edits = ['T', 'S', 'Rm', 'An1', 'An2', 'Rt'];
    const small = ['UA', 'UB', 'UC', 'UE', 'T', 'S', 'Rm', 'An1'];
    for (const run of [{}, { reuse: false }, { morph: true, morphAll: true }]) {
      const plain = !(run as any).morphAll && (run as any).reuse !== false;
      for (const ops of sequences([...ups, ...lazy, ...edits], plain || ctx.thorough ? 3 : 2, 1)) yield { ops, run };
      if (plain || ctx.thorough) for (const ops of sequences(small, ctx.thorough ? 5 : 4, 4)) yield { ops, run };
      else for (const ops of sequences([...ups, 'T', 'LA', 'LC', 'S'], 3, 3)) yield { ops, run };
    }
  },
  run(c, ctx) {
    if (c.perms) return runOrder(c, ctx);
    vtime.reset();
    try {
      const m: any = { spec: 'A', w: { t: 0, s: 'gold', reuse: (c.run as any).reuse !== false }, removed: new Set<string>(), added: [] as string[] };
      const v = view(finalSpec(m), {}, c.run);
      const settle = () => {
        // morph and exit animations end
        for (let i = 0; i < 4; i++) vtime.advance(1000);
      };
      let stale = false;
      let n = 0;
      const compareNow = (what: string) => {
        if ((c.run as any).morphAll) settle();
        const fresh = view(finalSpec(m));
        const a = observe(v);
        const b = observe(fresh);
        for (const k of Object.keys(b)) {
          ctx.compare();
          eq((a as any)[k], (b as any)[k], `differs:${k}`, `${what}: ${k}`);
        }
        lookups(v, b, what);
        ctx.state([c.run, m.spec, m.w, [...m.removed], m.added, b.marks]);
        fresh.release();
      };
      compareNow('initial');
      for (const op of c.ops) {
        n++;
        ctx.step();
        const arg = op.slice(1);
        let run = true;
        switch (op[0]) {
          case 'U':
          case 'L':
            m.spec = arg;
            m.removed = new Set();
            m.added = [];
            v.updateSpec(finalSpec(m));
            run = op[0] === 'U';
            break;
          case 'T':
            m.w = { ...m.w, t: (m.w.t + 1) % TABLES.length };
            (v.getDataById('e') || v.getDataById('d')).values(rows(m.w));
            break;
          case 'S': {
            const sig = v.getSignalById('s');
            m.w = { ...m.w, s: m.w.s === 'gold' ? 'pink' : 'gold' };
            if (sig) sig.value(m.w.s);
            break;
          }
          case 'R': {
            const mk = v.getMarkById(arg);
            if (mk) {
              m.removed.add(arg);
              v.removeGrammar(mk);
            }
            break;
          }
          case 'A':
            if (!v.getMarkById(arg)) {
              m.added.push(arg);
              const sp = ADDED[arg]();
              v.mark(sp.type, 'root').parse(sp);
            }
            break;
        }
        if (run) {
          v.run(c.run);
          compareNow(`after ${c.ops.slice(0, n).join(' ')}`);
          stale = false;
        } else stale = true;
      }
      if (stale) {
        v.run(c.run);
        compareNow(`after ${c.ops.join(' ')} + run`);
      }
    } finally {
      releaseAll();
    }
  }
});

function lookups(v: any, o: any, what: string) {
  const all: any[] = [];
  v.grammars.traverse((g: any) => {
    all.push(g);
  });
  const uids = new Set(all.map(g => g.uid));
  ok(uids.size === all.length, 'duplicate-grammar', `${what}: a grammar is recorded twice`);
  for (const g of all) {
    ok(v.getGrammarById(g.id()) === g, 'lookup-id', `${what}: getGrammarById(${g.id()}) is not the recorded grammar`);
    ok(g.view === v, 'lookup-released', `${what}: ${g.id()} is recorded but released`);
  }
  for (const id of ['m', 't', 'g', 'h', 'l', 'n1', 'n2', 'd', 'e', 'x', 'y', 'c', 's']) {
    const present = o.grammars.some((k: string) => k.endsWith(':' + id));
    ok(!!v.getGrammarById(id) === present, 'lookup-presence', `${what}: getGrammarById(${id}) ${present ? 'missing' : 'still there'}`);
  }
  const marks = v.grammars.getAllMarks().filter((m: any) => m.id() !== 'root');
  for (const t of ['rect', 'text', 'symbol', 'group', 'line', 'rule']) {
    eq(
      v.getMarksByType(t).filter((m: any) => m.id() !== 'root').map((m: any) => m.id()).sort(),
      marks.filter((m: any) => m.markType === t).map((m: any) => m.id()).sort(),
      'lookup-type', `${what}: getMarksByType(${t})`
    );
  }
  eq(v.getMarksByName('bars').map((m: any) => m.id()), marks.filter((m: any) => m.name() === 'bars').map((m: any) => m.id()), 'lookup-name', `${what}: getMarksByName`);
  // dataflow only knows live grammars: every dependency of a live grammar is live
  for (const g of all) {
    for (const r of g.references.keys()) ok(uids.has(r.uid), 'dangling-reference', `${what}: ${g.id()} depends on removed ${r.id()}`);
    for (const t of g.targets) ok(uids.has(t.uid), 'dangling-target', `${what}: removed ${t.id && t.id()} still listens to ${g.id()}`);
  }
}

// T01: filter, map, sort, fold, unfold, pick, join, range and identifier against their relational definitions, through the dataflow.
import { view, releaseAll } from '../lib/vg';
import { check, eq, ok, show, tuples } from '../lib/kit';

type Row = Record<string, any>;
const clone = (x: any): any =>
  Array.isArray(x) ? x.map(clone) : x && typeof x === 'object' && !(x instanceof Date) ? Object.fromEntries(Object.entries(x).map(([k, v]) => [k, clone(v)])) : x;
const strip = (rows: any): any => {
  const c = (x: any): any => (Array.isArray(x) ? x.map(c) : x && typeof x === 'object' && !(x instanceof Date) ? Object.fromEntries(Object.entries(x).filter(([k]) => !/VGRAMMAR_DATA/i.test(k) && !/^(vgrammar|VGRAMMAR)/i.test(k) && !k.startsWith('__')).map(([k, v]) => [k, c(v)])) : x);
  return c(rows);
};
const get = (row: any, path: string) => path.split('.').reduce((o, k) => (o == null ? undefined : o[k]), row);
const nil = (x: any) => x === null || x === undefined;

// total preorder of the documented comparator: nil < NaN < numbers/dates/strings
const rank = (x: any) => (nil(x) ? 0 : typeof x === 'number' && Number.isNaN(x) ? 1 : x instanceof Date && Number.isNaN(+x) ? 1 : 2);
const cmp1 = (a: any, b: any) => (rank(a) !== rank(b) ? rank(a) - rank(b) : rank(a) < 2 ? 0 : a < b ? -1 : a > b ? 1 : 0);
function stableSort(rows: Row[], cmp: (a: Row, b: Row) => number) {
  const out: Row[] = [];
  for (const r of rows) {
    let i = out.length;
    while (i > 0 && cmp(out[i - 1], r) > 0) i--;
    out.splice(i, 0, r);
  }
  return out;
}
interface Kind {
  rows: Row[];
  opts: any[];
  max: number;
  spec(o: any): any;
  expect(o: any, rows: Row[], sig: any): any;
  /** fields which may be added to the rows of the upstream */
  adds?: (o: any) => string[];
}
const VALS: Record<string, (d: any, p?: any) => any> = {
  sum: d => (d.a ?? 0) + (d.b === 'y' ? 10 : 0),
  par: (d, p) => (p.s ?? 0) + (d.a ?? 0),
  str: d => `${d.b}!`,
  nul: () => null
};
const FILTERS: Record<string, (d: any, p?: any) => any> = {
  all: () => true,
  none: () => 0,
  a: d => d.a > 1,
  b: d => d.b === 'x',
  par: (d, p) => (d.a ?? 0) >= p.s
};
const AB = [
  { a: 1, b: 'x' },
  { a: 2, b: 'y' },
  { a: 10, b: 'x' },
  { a: null, b: 'y' }
];
const KINDS: Record<string, Kind> = {
  filter: {
    rows: AB, opts: Object.keys(FILTERS), max: 3,
    spec: o => ({ type: 'filter', callback: FILTERS[o], dependency: ['s'] }),
    expect: (o, rows, s) => rows.filter(r => FILTERS[o](r, { s }))
  },
  map: {
    rows: AB, opts: Object.keys(VALS).flatMap(f => [{ f, as: 'z' }, { f, as: 'b2' }]), max: 3,
    spec: o => ({ type: 'map', callback: VALS[o.f], as: o.as, dependency: ['s'] }),
    expect: (o, rows, s) => rows.map(r => ({ ...r, [o.as]: VALS[o.f](r, { s }) })),
    adds: o => [o.as]
  },
  mapall: {
    rows: AB, opts: ['count', 'rev', 'dup'], max: 3,
    spec: o => ({ type: 'map', all: true, callback: (rows: Row[], p: any) => (o === 'count' ? [{ n: rows.length, s: p.s }] : o === 'rev' ? rows.slice().reverse() : rows.flatMap(r => [{ ...r }, { ...r, dup: 1 }])), dependency: ['s'] }),
    expect: (o, rows, s) => (o === 'count' ? [{ n: rows.length, s }] : o === 'rev' ? rows.slice().reverse() : rows.flatMap(r => [{ ...r }, { ...r, dup: 1 }]))
  },
  sort: {
    rows: [
      { a: 1, b: 'x', n: { d: 2 } }, { a: 2, b: 'y', n: { d: 1 } }, { a: 10, b: 'x', n: { d: 1 } }, { a: null, b: 'x', n: { d: 3 } }, { a: NaN, b: 'y', n: {} }, { b: 'x', a: new Date(5), n: { d: 2 } }
    ],
    opts: [
      { field: 'a' }, { field: 'a', order: 'desc' }, { field: 'b' }, { field: 'n.d', order: 'asc' }, { field: 'n.d', order: 'desc' },
      { field: ['b', 'a'], order: ['asc', 'desc'] }, { field: ['b', 'a'], order: ['desc', 'asc'] }, { field: ['b', 'a'], order: 'desc' }, { field: ['b', 'n.d', 'a'], order: ['asc', 'asc', 'desc'] }, 'fn', 'const'
    ],
    max: 3,
    spec: o => ({ type: 'sort', sort: o === 'fn' ? (x: any, y: any) => x.n.d - y.n.d || 0 : o === 'const' ? () => 0 : o }),
    expect: (o, rows) => {
      if (o === 'const') return rows;
      if (o === 'fn') return null; // judged only for tables without missing values, see below
      const fs = [].concat(o.field);
      const os = [].concat(o.order === undefined ? [] : o.order);
      return stableSort(rows, (x, y) => {
        for (let i = 0; i < fs.length; i++) {
          const c = cmp1(get(x, fs[i]), get(y, fs[i]));
          if (c) return os[i] === 'desc' ? -c : c;
        }
        return 0;
      });
    }
  },
  fold: {
    rows: [{ k: 'r', p: 1, q: 2 }, { k: 's', p: 3, q: null, extra: 5 }, { k: 't', q: 4 }],
    opts: [
      { fields: ['p'] }, { fields: ['p', 'q'] }, { fields: ['q', 'p'], asKey: 'kk', asValue: 'vv' }, { fields: ['p', 'q'], retains: ['k'] }, { fields: ['p'], retains: ['q', 'none'] }, { fields: ['p', 'q'], retains: [] }, { fields: [] }, { fields: ['none'] }
    ],
    max: 3,
    spec: o => ({ type: 'fold', ...o }),
    expect: (o, rows) =>
      rows.flatMap(r =>
        o.fields.map((f: string) => ({
          ...(o.retains ? Object.fromEntries(o.retains.map((k: string) => [k, r[k]])) : Object.fromEntries(Object.entries(r).filter(([k]) => !o.fields.includes(k)))),
          [o.asKey ?? 'key']: f,
          [o.asValue ?? 'value']: r[f]
        }))
      )
  },
  unfold: {
    rows: [
      { g: 'b', h: 'c', k: 'u', v: 1 }, { g: 'a', h: 'b~c', k: 'u', v: 2 }, { g: 'a~b', h: 'c', k: 'w', v: 4 }, { g: 7, h: 1, k: 'u', v: 8 }, { g: 3, h: 1, k: 'constructor', v: 16 }, { g: 'b', h: 'c', k: 'u', v: 32 }, { g: 'constructor', h: 'toString', k: '5', v: -64 }, { g: 'constructor', h: 'b', k: 5, v: 128 }
    ],
    opts: [undefined, 'g', ['g', 'h'], ['h']].flatMap(groupBy => [undefined, 'min', 'max', 'count', 'mean', 'sum'].map(aggregateType => ({ groupBy, aggregateType }))),
    max: 3,
    spec: o => ({ type: 'unfold', keyField: 'k', valueField: 'v', ...o }),
    expect: (o, rows) => {
      if (!rows.length) return [];
      const by = o.groupBy === undefined ? [] : [].concat(o.groupBy);
      const groups: { id: any[]; rows: Row[] }[] = [];
      for (const r of rows) {
        const id = by.map((f: string) => r[f]);
        let g = groups.find(x => x.id.every((v, i) => v === id[i]));
        if (!g) groups.push((g = { id, rows: [] }));
        g.rows.push(r);
      }
      const agg = (vs: number[]) => {
        const s = vs.reduce((x, y) => x + y, 0);
        switch (o.aggregateType) {
          case 'min': return Math.min(...vs);
          case 'max': return Math.max(...vs);
          case 'count': return vs.length;
          case 'mean': return s / vs.length;
          default: return s;
        }
      };
      return groups.map(g => {
        const out: Row = Object.fromEntries(by.map((f: string, i: number) => [f, g.id[i]]));
        for (const k of new Set(g.rows.map(r => String(r.k)))) out[k] = agg(g.rows.filter(r => String(r.k) === k).map(r => r.v));
        return out;
      });
    }
  },
  pick: {
    rows: [{ a: 1, n: { d: 2 } }, { a: 'x', b: null }, {}],
    opts: [
      { fields: ['a'] }, { fields: ['a', 'b'] }, { fields: ['b', 'a'], as: ['A', 'B'] }, { fields: ['n.d'], as: ['d'] }, { fields: ['a', 'b'], as: ['only'] }, { fields: [] }, {}, { fn: 1 }
    ],
    max: 3,
    spec: o => ({ type: 'pick', ...(o.fn ? { fields: ['a', (d: any) => (d.b === null ? 'N' : 'V')], as: ['a', 'fn'] } : o) }),
    expect: (o, rows) =>
      o.fn
        ? rows.map(r => ({ a: r.a, fn: r.b === null ? 'N' : 'V' }))
        : rows.map(r => Object.fromEntries((o.fields ?? []).map((f: string, i: number) => [o.as?.[i] ?? f, get(r, f)])))
  },
  join: {
    rows: [{ f: 'A', g: 'B' }, { f: 'B', g: 'zz' }, { f: 'constructor', g: 'A' }, { f: null }, { f: '__proto__', g: 'toString' }],
    opts: [
      { fields: ['f'], as: ['o'] }, { fields: ['f'], as: ['o'], default: 'dflt' }, { fields: ['f', 'g'], as: ['o1', 'o2'] }, { fields: ['f'], values: ['name'] }, { fields: ['f'], values: ['name', 'val'], as: ['N', 'V'] },
      { fields: ['f', 'g'], values: ['name', 'val'], as: ['a1', 'a2', 'b1', 'b2'], default: -1 }, { fields: ['f'], values: ['name'], as: ['N'], dup: 1 }, { fields: ['g'], as: ['o'], key: 'n.id', default: 0 }, { fields: ['f'], values: ['name'], none: 1 }
    ],
    max: 2,
    spec: o => ({ type: 'join', key: o.key ?? 'id', from: { data: 'from' }, fields: o.fields, values: o.values, as: o.as, default: o.default }),
    expect: (o, rows) => {
      const from = FROM(o);
      const find = (v: any) => [...from].reverse().find(r => get(r, o.key ?? 'id') === v);
      const d = nil(o.default) ? null : o.default;
      return rows.map(r => {
        const out = { ...r };
        o.fields.forEach((f: string, i: number) => {
          const hit = find(r[f]);
          if (o.values) o.values.forEach((v: string, j: number) => (out[(o.as ?? o.values)[i * o.values.length + j]] = hit ? hit[v] : d));
          else out[o.as[i]] = hit ?? d;
        });
        return out;
      });
    },
    adds: o => o.as ?? o.values
  },
  range: {
    rows: [{}], max: 1,
    opts: [[0, 3], [0, 1, 0.25], [2, 10, 3], [5, 0, -2], [0, 0], [3, 1], [-1, 1, 0.5], ['s', 5], [0, 's']].flatMap(r => [{ r }, { r, as: 'k' }]),
    spec: o => ({ type: 'range', start: o.r[0] === 's' ? { signal: 's' } : o.r[0], stop: o.r[1] === 's' ? { signal: 's' } : o.r[1], ...(o.r.length > 2 ? { step: o.r[2] } : {}), ...(o.as ? { as: o.as } : {}) }),
    expect: (o, rows, s) => {
      const [a, b, st = 1] = o.r.map((x: any) => (x === 's' ? s : x));
      const out: Row[] = [];
      for (let i = 0; st > 0 ? a + i * st < b - 1e-12 : a + i * st > b + 1e-12; i++) out.push({ [o.as ?? 'data']: a + i * st });
      return out;
    }
  },
  identifier: {
    rows: [{ a: 1 }, { a: 2, id: 7 }, { a: 3 }], max: 3, opts: [{ as: 'id' }, { as: 'uid' }],
    spec: o => ({ type: 'identifier', as: o.as }),
    expect: () => null,
    adds: o => [o.as]
  },
  chain: {
    rows: AB, max: 3,
    opts: [['filter:a', 'sort:b'], ['sort:a', 'filter:b'], ['map:sum', 'sort:z'], ['map:par', 'filter:z'], ['filter:none', 'fold'], ['sort:b', 'pick', 'fold']],
    spec: () => null,
    expect: (o, rows, s) =>
      o.reduce((rs: Row[], t: string) => {
        const [k, x] = t.split(':');
        if (k === 'filter') return rs.filter(r => (x === 'z' ? r.z > 4 : FILTERS[x](r, { s })));
        if (k === 'sort') return stableSort(rs, (u, v) => cmp1(u[x], v[x]));
        if (k === 'map') return rs.map(r => ({ ...r, z: VALS[x](r, { s }) }));
        if (k === 'pick') return rs.map(r => ({ a: r.a, B: r.b }));
        return rs.flatMap(r => ['a'].map(f => ({ ...Object.fromEntries(Object.entries(r).filter(([n]) => n !== f)), key: f, value: r[f] })));
      }, rows),
    adds: () => ['z']
  }
};
const chainSpec = (o: string[]) =>
  o.map(t => {
    const [k, x] = t.split(':');
    if (k === 'filter') return { type: 'filter', callback: x === 'z' ? (d: any) => d.z > 4 : FILTERS[x], dependency: ['s'] };
    if (k === 'sort') return { type: 'sort', sort: { field: x } };
    if (k === 'map') return { type: 'map', callback: VALS[x], as: 'z', dependency: ['s'] };
    if (k === 'pick') return { type: 'pick', fields: ['a', 'b'], as: ['a', 'B'] };
    return { type: 'fold', fields: ['a'] };
  });
const FROM = (o: any): Row[] =>
  o.none ? [] : [
    { id: 'A', name: 'la', val: 1, n: { id: 'B' } },
    { id: 'B', name: 'lb', val: 0, n: { id: 'A' } },
    ...(o.dup ? [{ id: 'A', name: 'la2', val: 3, n: { id: 'zz' } }] : [])
  ];

check<{ kind: string; o: any; t1: number[]; t2: number[] | null; s: number[] }>({
  id: 'T01',
  level: 'model_checking',
  rule:
    'for each of filter, map, map(all), sort, fold, unfold, pick, join, range, identifier and chains of them: every option set of a catalogue x every table of up to 3 rows (with repetition, in any order) ' +
    'over a row alphabet with nil/NaN/Date/prototype-named/colliding keys x (first table, re-evaluation with another table or signal); the data grammar is compared with an independent relational definition after each evaluation',
  *cases(ctx) {
    for (const kind of Object.keys(KINDS)) {
      const K = KINDS[kind];
      const tabs: number[][] = [];
      for (let n = 0; n <= K.max + (ctx.thorough && K.rows.length <= 5 ? 1 : 0); n++) for (const t of tuples(K.rows.map((_, i) => i), n)) tabs.push(t);
      for (let oi = 0; oi < K.opts.length; oi++) {
        for (const t1 of tabs) yield { kind, o: oi, t1, t2: null, s: [2, 0] };
        const small = tabs.filter(t => t.length <= 2);
        if (kind !== 'unfold' && kind !== 'sort') for (const t1 of small.filter((_, i) => ctx.thorough || i % 3 === 1)) for (const t2 of small) yield { kind, o: oi, t1, t2, s: [2, 2] };
        else for (const t1 of small.filter((_, i) => i % 7 === 1)) for (const t2 of small) yield { kind, o: oi, t1, t2, s: [2, 2] };
      }
    }
  },
  nontrivial: c => c.t1.length > 0 || c.t2 !== null || c.kind === 'range',
  run(c, ctx) {
    const K = KINDS[c.kind];
    const o = K.opts[c.o];
    const mk = (t: number[]) => t.map((i, n) => ({ ...clone(K.rows[i]), i: n }));
    const withIdx = !['range', 'fold', 'unfold'].includes(c.kind);
    const rows1 = withIdx ? mk(c.t1) : c.t1.map(i => clone(K.rows[i]));
    try {
      const spec: any = {
        signals: [{ id: 's', value: c.s[0] }],
        data: [
          { id: 'src', values: rows1 },
          ...(c.kind === 'join' ? [{ id: 'from', values: clone(FROM(o)) }] : []),
          { id: 'out', source: 'src', transform: c.kind === 'chain' ? chainSpec(o) : [K.spec(o)] }
        ]
      };
      const v = view(spec);
      const pristine = withIdx ? mk(c.t1) : c.t1.map(i => clone(K.rows[i]));
      const judge = (rows: Row[], s: number, when: string) => {
        ctx.compare();
        const got = strip(v.getDataById('out').getValue());
        ctx.trace(when, got);
        ctx.state([c.kind, c.o, rows.length, got]);
        if (c.kind === 'identifier') {
          const as = o.as;
          eq(got.map((r: any) => ({ ...r, [as]: undefined })), rows.map(r => ({ ...r, [as]: undefined })), 'identifier:rows', `${when}: rows behind an identifier transform`);
          const ids = got.map((r: any) => r[as]);
          ok(got.every((r: any, i: number) => (rows[i][as] === undefined ? typeof r[as] === 'number' : r[as] === rows[i][as])), 'identifier:ids', () => `${when}: ids ${show(ids)}`);
          const gen = ids.filter((_: any, i: number) => rows[i][as] === undefined);
          ok(new Set(gen).size === gen.length, 'identifier:unique', () => `${when}: generated ids ${show(gen)} are not unique`);
        } else if (c.kind === 'sort' && o === 'fn') {
          if (rows.every(r => r.n.d !== undefined)) eq(got, stableSort(rows, (x, y) => x.n.d - y.n.d), `${c.kind}:result`, `${when} of ${c.kind} ${show(o)}`);
        } else {
          eq(got, K.expect(o, rows, s), `${c.kind}:result`, () => `${when} of ${c.kind} ${show(o)} over ${show(rows)}`);
        }
        // the input keeps its rows, their order and all of their fields
        const src = strip(v.getDataById('src').getValue());
        const added = new Set(K.adds ? K.adds(o) : []);
        const drop = (r: any) => Object.fromEntries(Object.entries(r).filter(([k]) => !added.has(k)));
        eq(src.map(drop), rows.map(drop), `${c.kind}:input`, `${when}: upstream rows of ${c.kind} ${show(o)}`);
      };
      judge(pristine, c.s[0], 'first evaluation');
      ctx.step();
      if (c.t2) {
        const rows2 = withIdx ? mk(c.t2) : c.t2.map(i => clone(K.rows[i]));
        v.getDataById('src').values(clone(rows2));
        v.run();
        ctx.step();
        judge(rows2, c.s[0], 'after new values');
      }
      if (c.s[1] !== c.s[0] && ['filter', 'map', 'mapall', 'range', 'chain'].includes(c.kind)) {
        v.getSignalById('s').value(c.s[1]);
        v.run();
        ctx.step();
        judge(c.t2 ? (withIdx ? mk(c.t2) : c.t2.map(i => clone(K.rows[i]))) : pristine, c.s[1], 'after the signal changed');
      }
    } finally {
      releaseAll();
    }
  }
});

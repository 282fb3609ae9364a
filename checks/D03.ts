// D03: a data grammar always shows transform(load(source)) of its *current* spec, after any history of edits.
import { view, attrs, releaseAll, VG } from '../lib/vg';
import { check, eq, ok, sequences, tuples } from '../lib/kit';

type Case = { lazy: boolean; ops: string[] };
const CSV = 'k,v\nx,7\ny,3\nz,5';

// what transforms are given for options which refer to signals, data, scales and functions
(VG as any).Factory.registerTransform(
  'voptions',
  {
    type: 'voptions',
    markPhase: 'beforeJoin',
    transform: (o: any, data: any[], p: any) =>
      data.map(d => ({
        ...d,
        w: [o.a, o.list?.[0], o.list?.[1], Array.isArray(o.b) ? o.b.length : typeof o.b, o.c?.scale ? o.c.scale(1) : typeof o.c, p.s1].join('/')
      }))
  },
  true
);

check<Case>({
  id: 'D03',
  level: 'model_checking',
  rule:
    'every sequence (up to the depth) of data edits - values / formatted values / source / transform / post-filters / re-parse of a data set, edits of its two upstreams and of the signal its transforms use - ' +
    'run after every edit or only at the end; a chained data set and a mark observe it; the options of transforms refer to signals, data and scales; reference: recompute everything from the current spec',
  *cases(ctx) {
    const ops = ['VA', 'VB', 'VK', 'VKm', 'VC', 'VJ', 'S1', 'S2', 'S2i', 'T0', 'Tf', 'Ts', 'Tfm', 'Tdep', 'F+', 'F-', 'G+', 'FG-', 'U1', 'U2', 'sig', 'commit', 'P1', 'PV', 'To', 'dom', 'VS'];
    for (const ops_ of sequences(ops, ctx.thorough ? 4 : 3, 1)) {
      yield { lazy: false, ops: ops_ };
      if (ops_.length > 1) yield { lazy: true, ops: ops_ };
    }
    // deeper over source switching
    const sw = ['VA', 'VK', 'VKm', 'S1', 'S2', 'U1', 'sig', 'commit', 'Tf'];
    for (const t of tuples(sw, ctx.thorough ? 5 : 4)) {
      yield { lazy: false, ops: t };
    }
  },
  run(c, ctx) {
    try {
      let gen = 0;
      const rows = (...vs: number[]) => vs.map((v, i) => ({ k: 'r' + i, v }));
      const w: any = { d1: rows(4, 9, 1), d2: rows(8, 2), s1: 3, dom: 1 };
      const v = view({
        padding: 0,
        signals: [{ id: 's1', value: 3 }, { id: 'fmt', value: { type: 'csv' } }],
        scales: [{ id: 'sc', type: 'linear', domain: [0, 1], range: [0, 12] }],
        data: [
          { id: 'd1', values: rows(4, 9, 1) },
          { id: 'd2', values: rows(8, 2) },
          { id: 't', source: 'd1' },
          { id: 'u', source: 't', transform: [{ type: 'filter', callback: (d: any, p: any) => +d.v !== p.s1, dependency: ['s1'] }] }
        ],
        marks: [
          { type: 'symbol', id: 'm1', from: { data: 'd1' }, key: 'k', encode: { update: { x: { field: 'v' } } } },
          { type: 'symbol', id: 'mt', from: { data: 't' }, encode: { update: { x: { field: 'v' } } } },
          { type: 'symbol', id: 'mo', from: { data: 'd1' }, key: 'k', transform: [{ type: 'voptions', a: { signal: 's1' }, b: { data: 'd2' }, c: { scale: 'sc' }, list: [2, { signal: 's1' }] }], encode: { update: { name: { field: 'w' } } } }
        ]
      });
      const t = v.getDataById('t');
      const id = (n: string) => v.getDataById(n);
      // --- model
      let m: any = { load: ['src', 'd1'], tr: 'T0', filters: [] };
      const trSpec: Record<string, any> = {
        T0: null,
        Tf: [{ type: 'filter', callback: (d: any, p: any) => +d.v > p.s1, dependency: ['s1'] }],
        Ts: [{ type: 'sort', sort: { field: 'v', order: 'desc' } }],
        Tfm: [
          { type: 'filter', callback: (d: any) => +d.v > 2 },
          { type: 'pick', fields: ['k', 'v'], as: ['k', 'v'] },
          { type: 'map', callback: (d: any, p: any) => +d.v * p.s1, as: 'w', dependency: ['s1'] }
        ],
        To: [{ type: 'voptions', a: { signal: 's1' }, list: [{ signal: 's1' }, 5] }],
        Tdep: [
          { type: 'sort', sort: (a: any, b: any) => a.v - b.v },
          { type: 'filter', callback: (d: any, p: any) => +d.v < p.s1 + 4, dependency: ['s1'] }
        ]
      };
      const trModel = (name: string, data: any[]): any[] => {
        switch (name) {
          case 'Tf': return data.filter(d => +d.v > w.s1);
          case 'Ts': return data.slice().sort((a, b) => b.v - a.v);
          case 'Tfm': return data.filter(d => +d.v > 2).map(d => ({ k: d.k, v: d.v, w: +d.v * w.s1 }));
          case 'To': return data.map(d => ({ ...d, w: [w.s1, w.s1, 5, 'undefined', 'undefined', w.s1].join('/') }));
          case 'Tdep': return data.slice().sort((a, b) => a.v - b.v).filter(d => +d.v < w.s1 + 4);
        }
        return data;
      };
      const FILT: Record<string, any> = {
        F: { rank: 2, filter: (data: any[]) => data.slice(0, 2) },
        G: { rank: 1, filter: (data: any[]) => data.filter((d, i) => i !== 0) }
      };
      const tables: Record<string, any> = { VA: rows(6, 3, 8, 1), VB: rows(2), VC: [{ k: 'x', v: '7' }, { k: 'y', v: '3' }, { k: 'z', v: '5' }], VJ: rows(1, 5) };
      const keep: any[] = rows(6, 1);
      const loaded = () => (m.load[0] === 'src' ? w[m.load[1]] : m.load[1]).map((d: any) => ({ ...d }));
      const modelT = () => {
        let d = trModel(m.tr, loaded());
        // lower rank first
        for (const f of ['G', 'F']) if (m.filters.includes(f)) d = FILT[f].filter(d);
        return d;
      };
      const strip = (rows_: any[]) => rows_.map(r => Object.fromEntries(Object.entries(r).filter(([k]) => k === 'k' || k === 'v' || (k === 'w' && (m.tr === 'Tfm' || m.tr === 'To')))));
      const compare = (what: string) => {
        const exp = modelT();
        eq(strip(t.output()), exp, 'data-value', what + ': data t');
        eq(strip(id('u').output()), exp.filter(d => +d.v !== w.s1), 'chained-data', what + ': data u derived from t');
        eq(strip(id('d1').output()).map(r => ({ k: r.k, v: r.v })), w.d1, 'upstream-changed', what + ': upstream d1 (not edited)');
        eq(strip(id('d2').output()).map(r => ({ k: r.k, v: r.v })), w.d2, 'upstream-changed', what + ': upstream d2 (not edited)');
        eq(v.getMarkById('m1').elements.map((e: any) => attrs(e).x), w.d1.map((d: any) => d.v), 'mark-of-upstream', what + ': mark of d1');
        eq(v.getMarkById('mt').elements.map((e: any) => attrs(e).x), exp.map(d => d.v), 'mark', what + ': mark of t');
        eq(v.getMarkById('mo').elements.map((e: any) => attrs(e).name), w.d1.map(() => [w.s1, 2, w.s1, w.d2.length, 12 / w.dom, w.s1].join('/')), 'options', what + ': options of the transform of a mark');
        ctx.compare(7);
      };
      const apply = (op: string) => {
        switch (op) {
          case 'VA': case 'VB':
            t.values(tables[op].map((d: any) => ({ ...d })));
            m.load = ['val', tables[op]];
            break;
          case 'VK': case 'VKm':
            // the very same array again, possibly changed in place
            if (op === 'VKm') keep.push({ k: 'n' + keep.length, v: 10 + keep.length });
            t.values(keep);
            m.load = ['val', keep.map(d => ({ k: d.k, v: d.v }))];
            break;
          case 'VC':
            t.values(CSV, { type: 'csv' });
            m.load = ['val', tables.VC];
            break;
          case 'VJ':
            t.values(JSON.stringify(tables.VJ), { type: 'json' });
            m.load = ['val', tables.VJ];
            break;
          case 'S1':
            t.source('d1');
            m.load = ['src', 'd1'];
            break;
          case 'S2':
            t.source('d2');
            m.load = ['src', 'd2'];
            break;
          case 'S2i':
            t.source(id('d2'));
            m.load = ['src', 'd2'];
            break;
          case 'F+': case 'G+':
            t.addDataFilter(FILT[op[0]]);
            t.commit();
            m.filters = [...m.filters, op[0]];
            break;
          case 'FG-':
            t.removeDataFilter([FILT.F, FILT.G]);
            t.commit();
            m.filters = [];
            break;
          case 'F-':
            t.removeDataFilter(FILT.F);
            t.commit();
            m.filters = m.filters.filter((x: string) => x !== 'F');
            break;
          case 'U1': case 'U2': {
            gen++;
            const n = op === 'U1' ? 'd1' : 'd2';
            const r = gen % 2 ? rows(5, gen + 3) : rows(gen + 2, 7, 4, 3);
            w[n] = r;
            id(n).values(r.map(d => ({ ...d })));
            break;
          }
          case 'sig':
            w.s1 += 1;
            v.getSignalById('s1').value(w.s1);
            break;
          case 'dom':
            w.dom = w.dom % 3 + 1;
            v.getScaleById('sc').domain([0, w.dom]);
            break;
          case 'VS':
            // the format given by a signal
            t.values(CSV, { signal: 'fmt' });
            m.load = ['val', tables.VC];
            break;
          case 'commit':
            t.commit();
            break;
          case 'P1':
            t.parse({ id: 't', source: 'd1', transform: trSpec.Tf });
            m = { load: ['src', 'd1'], tr: 'Tf', filters: m.filters };
            break;
          case 'PV':
            t.parse({ id: 't', values: tables.VB.map((d: any) => ({ ...d })), transform: trSpec.Ts });
            m = { load: ['val', tables.VB], tr: 'Ts', filters: m.filters };
            break;
          default:
            t.transform(trSpec[op]);
            m.tr = op;
        }
      };
      compare('initially');
      c.ops.forEach((op, i) => {
        if ((op === 'F+' && m.filters.includes('F')) || (op === 'G+' && m.filters.includes('G'))) return;
        apply(op);
        ctx.step();
        if (!c.lazy || i === c.ops.length - 1) {
          v.run();
          compare(`after ${c.ops.slice(0, i + 1).join(',')}`);
          ctx.state([m, w, c.lazy]);
        }
      });
      // the next upstream / signal change must still be followed exactly
      for (const op of ['U1', 'U2', 'sig', 'dom', 'commit']) {
        apply(op);
        v.run();
        ctx.step();
        compare(`after ${c.ops.join(',')} then ${op}`);
      }
      ok(true, '', '');
    } finally {
      releaseAll();
    }
  }
});

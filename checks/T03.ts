// T03: stack, pie, funnel and dodge tile their space.
import { view, releaseAll } from '../lib/vg';
import { check, eq, ok, same, show, tuples } from '../lib/kit';

type C =
  | { k: 'stack'; t: number[]; offset?: string; order?: string; pct?: boolean }
  | { k: 'wiggle'; rows: number[] }
  | { k: 'pie'; vs: any[]; o: number }
  | { k: 'funnel'; vs: any[]; o: number }
  | { k: 'dodge'; rows: number[]; o: number; shape: number; next: number[] | null };

const SROWS = [
  { d: 'A', v: 3 }, { d: 'A', v: -2 }, { d: 'B', v: 5 }, { d: 'B', v: 0 }, { d: 'constructor', v: 1.5 }, { d: 'A', v: 4 }
];
const PIE: any[] = [
  { asStartAngle: 's', asEndAngle: 'e' }, { asStartAngle: 's' }, { asEndAngle: 'e', asMiddleAngle: 'm', asRadian: 'r', asRatio: 'q', asK: 'k', asQuadrant: 'Q', asStartAngle: 's' },
  { asMiddleAngle: 'm', asRatio: 'q' }, { asStartAngle: 's', asEndAngle: 'e', startAngle: -Math.PI / 2, endAngle: Math.PI }, { asStartAngle: 's', asEndAngle: 'e', startAngle: 3, endAngle: 1, asMiddleAngle: 'm' }
];
const FUN: any = { field: 'v', asTransformRatio: 'tr', asReachRatio: 'rr', asHeightRatio: 'hr', asValueRatio: 'vr', asNextValueRatio: 'nr', asLastValueRatio: 'lr', asLastValue: 'lv', asCurrentValue: 'cv', asNextValue: 'nv' };
const FOPT: any[] = [{}, { isCone: false }, { heightVisual: true }, { range: { max: 200 } }];
const DROWS = [
  { c: 'A', g: 'u', h: 1, v: 5 }, { c: 'A', g: 'w', h: 2, v: 6 }, { c: 'A', g: 'constructor', h: 1, v: 2 }, { c: 'B', g: 'w', h: 1, v: 7 }, { c: 'B', g: 'u', h: 3, v: 1 }
];
const DOPT: any[] = [
  {}, { innerGap: 4 }, { innerGap: '10%', categoryGap: 0 }, { categoryGap: 10 }, { maxWidth: 6 }, { maxWidth: 6, innerGap: 2 }, { minWidth: 14, categoryGap: '60%' }, { minWidth: 100 }, { dodgeBy: 'h' }, { dodgeBy: 'c', categoryGap: 0 }, { dodgeBy: ['h'] }, { categoryGap: '200%' }
];
// how the rectangle, rule, symbol or text is encoded, along the band axis
const SHAPES: any[] = [
  { type: 'rect', ch: 'x', enc: { update: { x: 'pos', width: 'bw' } }, size: 'width' },
  { type: 'rect', ch: 'x', enc: { enter: { x: 'pos', width: 'bw' } }, size: 'width', enter: true },
  { type: 'rect', ch: 'x', enc: { update: { x: 'pos', x1: 'end' } }, size: 'x1' },
  { type: 'rect', ch: 'x', enc: { update: { x: 'end', x1: 'pos' } }, size: 'x1' },
  { type: 'rect', ch: 'y', enc: { update: { y: 'pos', height: 'bw' } }, size: 'height' },
  { type: 'rect', ch: 'y', enc: { update: { y: 'pos', y1: 'end' } }, size: 'y1' },
  { type: 'rect', ch: 'y', enc: { update: { y: 'pos' } }, size: 'y1' },
  { type: 'rect', ch: 'x', enc: { update: { x: 'pos' } }, size: 'x1' },
  { type: 'symbol', ch: 'x', enc: { update: { x: 'pos' } } },
  { type: 'symbol', ch: 'x', enc: { enter: { x: 'pos' } }, enter: true },
  { type: 'text', ch: 'y', enc: { update: { y: 'pos' } } },
  { type: 'rule', ch: 'x', enc: { update: { x: 'pos', x1: 'pos' } } },
  { type: 'rule', ch: 'y', enc: { update: { y: 'pos', y1: 'pos' } } }
];

check<C>({
  id: 'T03',
  level: 'model_checking',
  rule:
    'stack: all tables of <=4 rows over 6 signed rows x offsets x orders x percent outputs; pie and funnel: all value lists of <=4 values (zeros, missing) x options; ' +
    'dodge: all tables of <=3 rows (grouped elements) x 12 option sets x 13 encodings (rect/rule/symbol/text, both axes, enter or update), evaluated, re-evaluated and with new data; compared with tiling definitions',
  *cases(ctx) {
    for (let n = 0; n <= (ctx.thorough ? 5 : 4); n++)
      for (const t of tuples([0, 1, 2, 3, 4, 5].slice(0, n > 3 ? 4 : 6), n))
        for (const offset of [undefined, 'none', 'diverging', 'silhouette', 'wiggle']) for (const order of [undefined, 'negative']) for (const pct of offset === 'wiggle' || offset === 'silhouette' ? [false] : [false, true]) yield { k: 'stack', t, offset, order, pct };
    yield { k: 'wiggle', rows: [1, 2, 3] };
    for (let n = 0; n <= (ctx.thorough ? 5 : 4); n++) for (const vs of tuples(n > 3 ? [0, 1, '4'] : [0, 1, 4, '2.5', null, undefined], n)) for (let o = 0; o < PIE.length; o++) yield { k: 'pie', vs: vs.map(v => (v === undefined ? 'undef' : v)), o };
    for (let n = 1; n <= (ctx.thorough ? 5 : 4); n++) for (const vs of tuples(n > 3 ? [0, 10, 100] : [0, 10, '40', 100, null], n)) for (let o = 0; o < FOPT.length; o++) yield { k: 'funnel', vs, o };
    for (let n = 1; n <= 3; n++)
      for (const rows of tuples([0, 1, 2, 3, 4], n)) {
        if (new Set(rows).size < n) continue;
        for (let o = 0; o < DOPT.length; o++)
          for (let s = 0; s < SHAPES.length; s++) {
            if (!ctx.thorough && n === 3 && (rows[0] + o + s) % 3) continue;
            yield { k: 'dodge', rows, o, shape: s, next: null };
            if ((rows[0] + o + s) % 4 === 0) for (const next of [[0], [1, 0], [2, 1, 0], [3, 4]]) yield { k: 'dodge', rows, o, shape: s, next };
          }
      }
  },
  nontrivial: c => ((c as any).t ?? (c as any).vs ?? (c as any).rows).length > 0,
  run(c, ctx) {
    try {
      ctx.count(c.k);
      ctx.compare();
      const trans = (rows: any[], transform: any) => {
        const v = view({ data: [{ id: 'src', values: rows }, { id: 'out', source: 'src', transform: [transform] }] });
        ctx.step();
        return v.getDataById('out').getValue();
      };
      if (c.k === 'stack' || c.k === 'wiggle') {
        const rows = c.k === 'wiggle' ? c.rows.map(v => ({ d: 'A', v, i: 0 })) : c.t.map((j, i) => ({ ...SROWS[j], i }));
        const o: any = c.k === 'wiggle' ? { offset: 'wiggle' } : c;
        const got = trans(rows, { type: 'stack', stackField: 'v', dimensionField: 'd', asStack: 'y1', asPrevStack: 'y0', ...(o.offset ? { offset: o.offset } : {}), ...(o.order ? { order: o.order } : {}), ...(o.pct ? { asPercent: 'p', asPercentStack: 'p1', asPrevPercentStack: 'p0', asSum: 'sum' } : {}) });
        ctx.state(['stack', o.offset, o.order, got.map((r: any) => [r.y0, r.y1])]);
        if (c.k === 'wiggle') {
          const g0 = -rows.reduce((s, r, i) => s + (rows.length - i) * r.v, 0) / (rows.length + 1);
          eq(got[0].y0, g0, 'stack:wiggle-baseline:1,2,3', 'baseline of the wiggle offset of [1,2,3] (Byron & Wattenberg: -1/(n+1) * sum of (n-i+1) f_i)');
          return;
        }
        eq(got.map((r: any) => [r.d, r.v, r.i]), rows.map(r => [r.d, r.v, r.i]), 'stack:rows', 'rows and order of the stacked table');
        const signed = o.offset === undefined || o.offset === 'diverging';
        for (const d of new Set(rows.map(r => r.d))) {
          let mine = got.filter((r: any) => r.d === d);
          if (o.order === 'negative') mine = mine.slice().reverse();
          const val = (r: any) => (signed ? r.v : Math.abs(r.v));
          for (const sign of signed ? [1, -1] : [0]) {
            const part = mine.filter((r: any) => sign === 0 || (sign > 0 ? r.v >= 0 : r.v < 0));
            if (!part.length) continue;
            const total = part.reduce((s: number, r: any) => s + val(r), 0);
            let at = o.offset === 'silhouette' ? -total / 2 : o.offset === 'wiggle' ? part[0].y0 : 0;
            for (const r of part) {
              eq([r.y0, r.y1], [at, at + val(r)], 'stack:contiguous', () => `interval of row ${r.i} in ${show(c)}`);
              if (o.pct) eq([r.sum, r.p, r.p1, r.p0], total === 0 ? [0, 0, 0, 0] : [total, val(r) / total, (at + val(r)) / total, at / total], 'stack:percent', () => `percentages of row ${r.i} in ${show(c)}`);
              at += val(r);
            }
          }
        }
        ok(rows.every(r => !('y1' in r)), 'stack:input', 'stack wrote into its input');
      } else if (c.k === 'pie') {
        const o = PIE[c.o];
        const mk = (): any[] => c.vs.map((v, i) => (v === 'undef' ? { i } : { v, i }));
        const rows = mk();
        const got = trans(mk(), { type: 'pie', field: 'v', ...o });
        const num = (r: any) => parseFloat(r.v) || 0;
        const total = rows.reduce((s, r) => s + num(r), 0);
        const max = Math.max(...rows.map(num), 0);
        const a0 = o.startAngle ?? 0;
        const a1 = o.endAngle ?? Math.PI * 2;
        let at = a0;
        eq(got.length, rows.length, 'pie:rows', 'rows');
        rows.forEach((r, i) => {
          const q = total ? num(r) / total : 0;
          const e = at + q * (a1 - a0);
          const exp: any = { ...r };
          if (o.asStartAngle) exp.s = at;
          if (o.asEndAngle) exp.e = e;
          if (o.asMiddleAngle) exp.m = (at + e) / 2;
          if (o.asRadian) exp.r = e - at;
          if (o.asRatio) exp.q = q;
          if (o.asK) exp.k = max ? num(r) / max : 0;
          const g = Object.fromEntries(Object.entries(got[i]).filter(([k]) => !/^(vgrammar|VGRAMMAR|_)/i.test(k)));
          if (o.asQuadrant) exp.Q = g.Q;
          eq(g, exp, 'pie:angles', () => `slice ${i} of ${show(c)}`);
          at = e;
        });
        ctx.state(['pie', c.o, got.map((g: any) => [g.s, g.e, g.m])]);
      } else if (c.k === 'funnel') {
        const rows = c.vs.map((v, i) => ({ v, i }));
        const o = FOPT[c.o];
        const got = trans(rows, { type: 'funnel', ...FUN, ...o });
        const num = (i: number) => parseFloat(rows[i]?.v as any);
        const mx = o.range?.max ?? Math.max(...rows.map((_, i) => num(i) || -Infinity));
        if (!(mx > 0)) return;
        rows.forEach((r, i) => {
          const g = got[i];
          const w = `level ${i} of ${show(c)}`;
          const rat = (a: number, b: number) => (Number.isFinite(a * b) ? a / b : null);
          eq([g.cv, g.lv, g.nv], [num(i), num(i - 1), num(i + 1)], 'funnel:values', w);
          eq(g.vr, num(i) / mx, 'funnel:width', w);
          // the lower edge of a level is the upper edge of the next
          eq(g.nr, i === rows.length - 1 ? (o.isCone === false ? g.vr : 0) : got[i + 1].vr, 'funnel:contiguous', w);
          eq(g.lr, i === 0 ? 1 : got[i - 1].vr, 'funnel:last', w);
          eq(g.rr, i === 0 ? 1 : rat(num(i), num(i - 1)), 'funnel:reach', w);
          eq(g.tr, rat(num(i + 1), num(i)), 'funnel:transform', w);
          eq(g.hr, o.heightVisual ? g.tr : 1 / rows.length, 'funnel:height', w);
        });
        ctx.state(['funnel', got.map((g: any) => [g.vr, g.nr])]);
      } else {
        const S = SHAPES[c.shape];
        const o = DOPT[c.o];
        const R = S.ch === 'x' ? [0, 100] : [0, 80];
        const val = (n: string): any => (n === 'pos' ? { scale: 'b', field: 'c' } : n === 'bw' ? { scale: 'b', band: 1 } : { scale: 'b', field: 'c', band: 1 });
        const enc: any = {};
        for (const st of Object.keys(S.enc)) enc[st] = Object.fromEntries(Object.entries(S.enc[st]).map(([k, n]) => [k, val(n as string)]));
        const mk = (ix: number[]) => ix.map(i => ({ ...DROWS[i] }));
        const v = view({
          data: [{ id: 'd', values: mk(c.rows) }],
          scales: [{ id: 'b', type: 'band', domain: ['A', 'B'], range: R, paddingInner: 0.2, paddingOuter: 0.1 }],
          marks: [{ id: 'm', type: S.type, from: { data: 'd' }, groupBy: 'g', key: 'c', transform: [{ type: 'dodge', dodgeChannel: S.ch, ...o }], encode: enc }]
        });
        ctx.step();
        const m = v.getMarkById('m');
        const scale = v.getScaleById('b').output();
        const bw = scale.bandwidth();
        const pc = (p: any, t: number) => (typeof p === 'string' ? (t * parseFloat(p)) / 100 : p);
        const judge = (rows: any[], when: string, entered: Map<string, any> | null) => {
          const by = o.dodgeBy ? (r: any) => r[[].concat(o.dodgeBy)[0] as any] : (r: any) => r.g;
          // groups in the order of the elements
          const els = m.elements;
          const gs = [...new Set(els.map((e: any) => by(e.getDatum())))];
          const cat = pc(o.categoryGap ?? '20%', bw);
          const inner = cat >= bw ? bw : bw - cat;
          const gap = pc(o.innerGap ?? 0, inner);
          let size = (inner - (gs.length - 1) * gap) / gs.length;
          if (size > o.maxWidth) size = o.maxWidth;
          else if (size < o.minWidth && o.minWidth <= bw / gs.length) size = o.minWidth;
          const boxes: any[] = [];
          eq(els.length, rows.length, 'dodge:elements', when);
          for (const e of els) {
            const d = e.getDatum();
            const id = `${d.c}|${d.g}`;
            const centre = scale.scale(d.c) + bw / 2;
            const mid = centre + (gs.indexOf(by(d)) - (gs.length - 1) / 2) * (size + gap);
            const at = (ch: string) => e.getGraphicAttribute(ch);
            const ch = S.ch;
            let got: any;
            if (S.type === 'rect') {
              const a = at(ch);
              const b = S.size === `${ch}1` ? at(`${ch}1`) : a + at(S.size);
              got = [a, b];
              const exp = entered?.get(id) ?? [mid - size / 2, mid + size / 2];
              eq(got, exp, 'dodge:rect', () => `${when}: ${id} of ${show(c)} with ${show(o)} ${show(S)}`);
              boxes.push({ by: by(d), c: d.c, a: got[0], b: got[1] });
            } else {
              got = S.type === 'rule' ? [at(ch), at(`${ch}1`)] : [at(ch)];
              const exp = entered?.get(id) ?? got.map(() => mid);
              eq(got, exp, 'dodge:point', () => `${when}: ${id} of ${show(c)} with ${show(o)} ${show(S)}`);
            }
            if (S.enter && !first.has(id)) first.set(id, got);
          }
          // rectangles of different groups within a category do not overlap
          for (const p of boxes) for (const q of boxes) if (p !== q && p.c === q.c && p.by !== q.by && !entered) ok(p.b <= q.a + 1e-9 || q.b <= p.a + 1e-9, 'dodge:overlap', () => `${when}: ${show(p)} and ${show(q)}`);
          ctx.state(['dodge', boxes]);
          void same;
        };
        const first = new Map<string, any>();
        judge(mk(c.rows), 'first', null);
        m.commit();
        v.run();
        ctx.step();
        judge(mk(c.rows), 'evaluated again', S.enter ? first : null);
        if (c.next) {
          v.getDataById('d').values(mk(c.next));
          v.run();
          ctx.step();
          const before = new Map(first);
          judge(mk(c.next), 'new data', S.enter ? before : null);
        }
      }
    } finally {
      releaseAll();
    }
  }
});

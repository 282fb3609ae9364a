// T04: markoverlap, jitter, symmetry and circularRelation place or hide elements exactly by their rule.
import { view, releaseAll } from '../lib/vg';
import { check, eq, ok, show, tuples, sequences } from '../lib/kit';

type C =
  | { k: 'overlap'; rows: number[]; dir: number; o: number; ops: string[] }
  | { k: 'jitter'; type: string; rows: number[]; o: number; enter: boolean; scale: number }
  | { k: 'symmetry'; rows: number[]; channel?: string; align?: string; range: boolean; enter: boolean }
  | { k: 'circular'; vs: number[]; o: number };

const PTS = [
  { x: 0, y: 0, s: 10 }, { x: 6, y: 2, s: 4 }, { x: 11, y: 9, s: 10 }, { x: 14, y: 40, s: 2 }, { x: 40, y: 3, s: 10 }, { x: 3, y: 50, s: 20, force: true }, { x: 8, y: 0, s: 4, hide: true }
];
const OOPT: any[] = [{}, { delta: 0 }, { delta: 3 }, { deltaMul: 0 }, { deltaMul: 0.5, sort: true }, { delta: 0, groupBy: 'g' }, { radius: false }];
const JOPT: any[] = [{}, { widthRatio: 0.2, heightRatio: 0.3 }, { widthRatio: 0.9, heightRatio: 0 }, { bandWidth: 10, bandHeight: 30 }];
const RND: ((i: number, n: number) => number)[] = [(i, n) => i / n, () => 0, () => 1, i => ((i * 7919) % 13) / 13];
const COPT: any[] = [
  { width: 100, height: 80, outerRadius: 40 }, { width: 100, height: 80, innerRadius: 10, outerRadius: '80%', radiusRange: [3, 8] }, { x0: 100, x1: 0, y0: 10, y1: 90, outerRadius: 30, radiusField: 'r', radiusRange: [2, 12] },
  { width: 60, height: 60, outerRadius: 20, startAngle: Math.PI, endAngle: 0, radiusRange: [6, 6] }, { width: 100, height: 100, center: [20, '50%'], innerRadius: '10%', outerRadius: 40, radiusRange: [10, 20] }
];

check<C>({
  id: 'T04',
  level: 'model_checking',
  rule:
    'markoverlap: all tables of <=4 symbols over 7 positions/sizes (forced and hidden ones included) x directions x option sets x re-evaluation sequences (delta, data); jitter/jitterX/jitterY: all tables <=3 x scales x options x random functions; ' +
    'symmetry: all tables <=4 x channels x alignments; circularRelation: all value lists <=5 x boxes; each with enter or update encodings and re-evaluation; compared with the rule',
  *cases(ctx) {
    for (let n = 1; n <= (ctx.thorough ? 5 : 4); n++)
      for (const rows of tuples([0, 1, 2, 3, 4, 5, 6], n))
        for (const dir of [0, 1, 2])
          for (let o = 0; o < OOPT.length; o++) {
            if (n >= 4 && (rows[0] * 5 + rows[1] + o + dir) % (ctx.thorough ? 2 : 6)) continue;
            yield { k: 'overlap', rows, dir, o, ops: [] };
            if (n <= 2 || (n === 3 && (rows[0] + o) % 7 === 0)) for (const ops of sequences(['again', 'delta', 'rev', 'drop'], 2, 1)) yield { k: 'overlap', rows, dir, o, ops };
          }
    for (const type of ['jitter', 'jitterX', 'jitterY']) for (let n = 1; n <= 3; n++) for (const rows of tuples([0, 1, 2], n)) for (let o = 0; o < JOPT.length * RND.length; o++) for (const enter of [false, true]) for (const scale of [0, 1, 2]) yield { k: 'jitter', type, rows, o, enter, scale };
    for (let n = 1; n <= (ctx.thorough ? 5 : 4); n++) for (const rows of tuples([0, 1, 2, 3], n)) for (const channel of [undefined, 'x', 'y']) for (const align of [undefined, 'min', 'max']) for (const range of [false, true]) for (const enter of [false, true]) yield { k: 'symmetry', rows, channel, align, range, enter };
    for (let n = 0; n <= 5; n++) for (const vs of tuples([1, 5, 9], n)) for (let o = 0; o < COPT.length; o++) yield { k: 'circular', vs, o };
    if (ctx.thorough) for (const vs of tuples([1, 5, 9], 8)) yield { k: 'circular', vs, o: 1 };
  },
  run(c, ctx) {
    try {
      ctx.count(c.k);
      if (c.k === 'overlap') {
        let rows: any[] = c.rows.map((j, i) => ({ ...PTS[j], i, g: ['p', 'constructor'][(j + i) % 2] }));
        const o: any = { ...OOPT[c.o] };
        let delta = 2;
        const v = view({
          signals: [{ id: 'delta', value: delta }],
          data: [{ id: 'd', values: rows }],
          marks: [{
            id: 'm', type: 'symbol', from: { data: 'd' }, key: 'i', transform: [{ type: 'markoverlap', direction: c.dir, ...o, ...(c.o === 2 ? { delta: { signal: 'delta' } } : {}) }],
            encode: { update: { x: { field: 'x' }, y: { field: 'y' }, size: { field: 's' }, forceShow: { field: 'force' }, visible: (d: any) => !d.hide } }
          }]
        });
        const m = v.getMarkById('m');
        const judge = (when: string) => {
          ctx.step();
          ctx.compare();
          const els = m.elements;
          eq(els.map((e: any) => e.getDatum().i), rows.map(r => r.i), 'overlap:elements', when);
          const exp = new Map<number, boolean>(rows.map(r => [r.i, !r.hide]));
          const groups = o.groupBy ? ['p', 'constructor'].map(g => rows.filter(r => r.g === g)) : [rows];
          if (o.radius !== false)
            for (const g of groups) {
              const list = o.sort ? g.slice().sort((a, b) => a.x - b.x) : g;
              let last: any = null;
              for (const r of list) {
                if (r.hide) continue;
                const rr = r.s / 2;
                const lr = last ? last.s / 2 : 0;
                const dl = c.o === 2 ? delta : o.delta ?? (rr + lr) * (o.deltaMul ?? 1);
                const dist = !last ? Infinity : c.dir === 0 ? Math.hypot(r.x - last.x, r.y - last.y) : c.dir === 1 ? Math.abs(r.x - last.x) : Math.abs(r.y - last.y);
                if (dist < dl + lr + rr && !r.force) exp.set(r.i, false);
                else last = r;
              }
            }
          const got = els.map((e: any) => e.getGraphicAttribute('visible') !== false);
          ctx.state(['overlap', c.dir, c.o, got]);
          eq(got, rows.map(r => exp.get(r.i)), 'overlap:visible', () => `${when}: visible elements of ${show(c)} ${show(o)}`);
        };
        judge('first');
        for (const op of c.ops) {
          if (op === 'again') m.commit();
          else if (op === 'delta') {
            delta = delta === 2 ? 8 : 2;
            v.getSignalById('delta').value(delta);
          } else {
            rows = op === 'rev' ? rows.slice().reverse() : rows.slice(1);
            if (!rows.length) return;
            v.getDataById('d').values(rows);
          }
          v.run();
          judge(op);
        }
      } else if (c.k === 'jitter') {
        const o = JOPT[c.o % JOPT.length];
        const rnd = RND[Math.floor(c.o / JOPT.length)];
        const P = [{ a: 'A', n: 10 }, { a: 'B', n: 30 }, { a: 'C', n: 20 }];
        let rows = c.rows.map((j, i) => ({ ...P[j], i }));
        const st = ['band', 'point', 'linear'][c.scale];
        const dom = st === 'linear' ? [0, 50] : ['A', 'B', 'C'];
        const f = st === 'linear' ? 'n' : 'a';
        const v = view({
          data: [{ id: 'd', values: rows }],
          scales: [{ id: 'x', type: st, domain: dom, range: [0, 90] }, { id: 'y', type: st, domain: dom, range: [0, 60] }],
          marks: [{ id: 'm', type: 'symbol', from: { data: 'd' }, key: 'i', transform: [{ type: c.type, random: rnd, ...o }], encode: { [c.enter ? 'enter' : 'update']: { x: { scale: 'x', field: f }, y: { scale: 'y', field: f } } } }]
        });
        const m = v.getMarkById('m');
        const first: any[] = [];
        const judge = (when: string, again: boolean) => {
          ctx.step();
          ctx.compare();
          m.elements.forEach((e: any, i: number) => {
            for (const ch of ['x', 'y']) {
              const sc = v.getScaleById(ch).output();
              const at = (r: any) => sc.scale(r[f]);
              const on = c.type === 'jitter' || c.type.endsWith(ch.toUpperCase());
              const size = (ch === 'x' ? o.bandWidth : o.bandHeight) ?? (st === 'band' ? sc.bandwidth() : st === 'point' ? sc.step() : undefined);
              const ratio = Math.min((ch === 'x' ? o.widthRatio : o.heightRatio) ?? 0.4, 0.5);
              let exp = at(rows[i]);
              let range = [exp, exp];
              if (on) {
                if (size === undefined) {
                  const all = rows.map(at);
                  range = [Math.min(...all), Math.max(...all)];
                  if (range[0] === range[1]) range = [0, ch === 'x' ? 100 : 80];
                } else range = [exp - ratio * size, exp + ratio * size];
                exp = range[0] + (range[1] - range[0]) * rnd(i, rows.length);
              }
              const got = e.getGraphicAttribute(ch);
              if (c.enter && again) eq(got, first[i][ch], 'jitter:kept', () => `${when}: ${ch} of element ${i} encoded on enter ${show(c)}`);
              else {
                ok(got >= range[0] - 1e-9 && got <= range[1] + 1e-9, 'jitter:band', () => `${when}: ${ch} of element ${i} is ${got}, its band is ${show(range)} ${show(c)}`);
                eq(got, exp, 'jitter:value', () => `${when}: ${ch} of element ${i} ${show(c)} ${show(o)}`);
              }
              (first[i] = first[i] ?? {})[ch] = got;
            }
          });
          ctx.state(['jitter', m.elements.map((e: any) => [e.getGraphicAttribute('x'), e.getGraphicAttribute('y')])]);
        };
        judge('first', false);
        m.commit();
        v.run();
        judge('again', true);
      } else if (c.k === 'symmetry') {
        const P = [{ a: 0, b: 20 }, { a: 10, b: 100 }, { a: 50, b: 30 }, { a: -10, b: 0 }];
        const rows = c.rows.map((j, i) => ({ ...P[j], i }));
        const ch = c.channel ?? 'y';
        const other = ch === 'y' ? 'x' : 'y';
        const v = view({
          data: [{ id: 'd', values: rows }],
          marks: [{ id: 'm', type: c.range ? 'rule' : 'symbol', from: { data: 'd' }, key: 'i', transform: [{ type: 'symmetry', ...(c.channel ? { channel: c.channel } : {}), ...(c.align ? { align: c.align } : {}) }], encode: { [c.enter ? 'enter' : 'update']: { [ch]: { field: 'a' }, [other]: 7, ...(c.range ? { [`${ch}1`]: { field: 'b' }, [`${other}1`]: 9 } : {}) } } }]
        });
        const m = v.getMarkById('m');
        const mids = rows.map(r => (c.range ? (r.a + r.b) / 2 : r.a));
        const target = c.align === 'min' ? Math.min(...mids) : Math.max(...mids);
        for (const when of ['first', 'again']) {
          if (when === 'again') {
            m.commit();
            v.run();
          }
          ctx.step();
          ctx.compare();
          m.elements.forEach((e: any, i: number) => {
            const a = e.getGraphicItem().attribute;
            const g = c.range ? [a.points[0][ch], a.points[1][ch]] : [e.getGraphicAttribute(ch)];
            const d = target - mids[i];
            eq(g, c.range ? [rows[i].a + d, rows[i].b + d] : [rows[i].a + d], 'symmetry:centre', () => `${when}: element ${i} of ${show(c)}`);
            eq(c.range ? a.points.map((p: any) => p[other]) : [a[other]], c.range ? [7, 9] : [7], 'symmetry:other', () => `${when}: the other channel of element ${i}`);
          });
          ctx.state(['symmetry', c.range, target, rows.length]);
        }
      } else {
        const o = COPT[c.o];
        const rows = c.vs.map((v, i) => ({ v, r: (v * 3) % 7, i }));
        const v = view({ data: [{ id: 'd', values: rows }, { id: 'out', source: 'd', transform: [{ type: 'circularRelation', field: 'v', ...o }] }] });
        ctx.step();
        ctx.compare();
        const got = v.getDataById('out').getValue();
        const W = o.width ?? Math.abs(o.x1 - o.x0);
        const H = o.height ?? Math.abs(o.y1 - o.y0);
        const X0 = o.width ? 0 : Math.min(o.x0, o.x1);
        const Y0 = o.height ? 0 : Math.min(o.y0, o.y1);
        const pc = (p: any, t: number) => (typeof p === 'string' ? (t * parseFloat(p)) / 100 : p);
        const mr = Math.max(W / 2, H / 2);
        const cx = typeof o.center?.[0] === 'number' ? o.center[0] : X0 + pc(o.center?.[0] ?? '50%', W);
        const cy = typeof o.center?.[1] === 'number' ? o.center[1] : Y0 + pc(o.center?.[1] ?? '50%', H);
        const ri = pc(o.innerRadius ?? 0, mr);
        const ro = pc(o.outerRadius, mr);
        const [mn, mx] = [Math.min(...c.vs), Math.max(...c.vs)];
        const a0 = Math.min(o.startAngle ?? 0, o.endAngle ?? Math.PI * 2);
        const a1 = Math.max(o.startAngle ?? 0, o.endAngle ?? Math.PI * 2);
        const step = (a1 - a0) / 60;
        eq(got.map((g: any) => g.datum.i), rows.map(r => r.i), 'circular:order', 'one item per row, in order');
        const size = (r: any) => {
          const key = o.radiusField ?? 'v';
          const all = rows.map(q => (q as any)[key]);
          const [s0, s1] = [Math.min(...all), Math.max(...all)];
          const lo = o.radiusRange?.[0] ?? 5;
          const hi = o.radiusRange?.[1] ?? 5;
          return s0 === s1 ? hi : lo + ((hi - lo) * (r[key] - s0)) / (s1 - s0);
        };
        got.forEach((g: any, i: number) => {
          const R = mn === mx ? (ri + ro) / 2 : ri + ((ro - ri) * (c.vs[i] - mn)) / (mx - mn);
          eq(Math.hypot(g.x - cx, g.y - cy), R, 'circular:radius', () => `distance of item ${i} from the centre ${show(c)}`);
          eq(g.radius, size(rows[i]), 'circular:size', () => `size of item ${i} ${show(c)}`);
          let a = Math.atan2(g.y - cy, g.x - cx);
          while (a < a0 - 1e-9) a += Math.PI * 2;
          if (R > 1e-9) ok(a <= a1 + 1e-9, 'circular:angle', () => `angle ${a} of item ${i} outside of ${a0}..${a1} ${show(c)}`);
          const bad = (x: number, y: number) => got.slice(0, i).some((q: any) => Math.hypot(q.x - x, q.y - y) < q.radius + g.radius - 1e-9) || x - g.radius < X0 - 1e-9 || x + g.radius > X0 + W + 1e-9 || y - g.radius < Y0 - 1e-9 || y + g.radius > Y0 + H + 1e-9;
          if (R > 1e-9 && bad(g.x, g.y))
            for (let j = 1, b = a - step; b >= a0 - 1e-9 && j < 60; j++, b -= step)
              ok(bad(cx + R * Math.cos(b), cy + R * Math.sin(b)), 'circular:overlap', () => `item ${i} overlaps or leaves the view although a place was free at ${b} ${show(c)}`);
        });
        ctx.state(['circular', c.o, got.map((g: any) => [g.x, g.y])]);
      }
    } finally {
      releaseAll();
    }
  }
});

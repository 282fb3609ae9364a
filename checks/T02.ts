// T02: bin, kde, sampling and contour conserve what they aggregate.
import { view, releaseAll } from '../lib/vg';
import { check, eq, ok, same, show, tuples } from '../lib/kit';

type C =
  | { k: 'bin'; rows: any[]; extent: [number, number]; step?: number; bins?: number; sig?: boolean; as?: string[] }
  | { k: 'kde'; xs: number[]; h?: number; bins?: number; extent?: any; as?: string[] }
  | { k: 'kde2'; pts: number[]; h: number; bins: any; extent?: any }
  | { k: 'samp'; ys: number[]; size: any; mode?: string; groups?: number; skip?: boolean; factor?: number; yf?: string }
  | { k: 'contour'; row: number; col: number; g: number[]; th?: number[]; levels?: number };

const AGG: Record<string, (v: number[]) => number> = {
  sum: v => v.reduce((a, b) => a + b, 0),
  average: v => v.reduce((a, b) => a + b, 0) / v.length,
  min: v => Math.min(...v),
  max: v => Math.max(...v)
};
const GN = ['g', 'constructor', '7'];
const P2: [number, number][] = [[0, 0], [2, 1], [4, 4], [1, 3]];

function run1(rows: any[], transform: any, signals: any[] = []) {
  const v = view({ signals, data: [{ id: 'src', values: rows }, { id: 'out', source: 'src', transform: [transform] }] });
  return v;
}
const out = (v: any) => v.getDataById('out').getValue();

check<C>({
  id: 'T02',
  level: 'model_checking',
  rule:
    'bin: all tables of <=3 values (limits, boundaries, interior, negative) x extents x step/bins/signals; kde 1d/2d: all tables of <=3 points x bandwidth x bins x extents; ' +
    'sampling: every length n<=13 x every size x every mode over all value patterns up to a bound, with groups; contour: all grids over 3 levels up to 3x3 (and 2xn) x thresholds; ' +
    'each output is compared with the defining sums, partitions, frames or level crossings; evaluated twice to see that nothing is accumulated',
  *cases(ctx) {
    const vals = [0, 1, 2.5, 5, 7.5, 9.999, 10];
    for (const extent of [[0, 10], [-5, 10], [0, 30]] as any[])
      for (const o of [{ bins: 4 }, { bins: 1 }, { bins: 0 }, {}, { step: 2.5 }, { step: 4 }, { bins: 3, step: 5 }, { bins: 10, as: ['s', 'e'] }, { bins: 4, sig: true }] as any[])
        for (let n = 0; n <= (ctx.thorough ? 4 : 3); n++) for (const rows of tuples(vals.map(v => v + (extent[0] === -5 ? -5 * (v % 2) : 0)), n)) if (n < 3 || ctx.thorough || rows[0] <= rows[1]) yield { k: 'bin', rows, extent, ...o };
    for (let n = 1; n <= (ctx.thorough ? 4 : 3); n++)
      for (const xs of tuples([0, 1, 3, 8], n))
        for (const h of [0.5, 2, undefined])
          for (const bins of [1, 4, undefined])
            for (const extent of [undefined, [0, 10], [2, 6], [{ x: 1 }, { x: 5 }]])
              for (const as of [undefined, ['x0', 'd0'], ['x0']]) if (bins !== undefined || (n < 3 && !as)) yield { k: 'kde', xs, h, bins, extent, as };
    for (let n = 1; n <= 3; n++)
      for (const pts of tuples([0, 1, 2, 3], n)) for (const h of [1, 2]) for (const bins of [2, [3, 2], [1, 4]]) for (const extent of [undefined, [{ x: 0, y: 1 }, { x: 4, y: 5 }], [0, 4]]) yield { k: 'kde2', pts, h, bins, extent };
    const N = ctx.thorough ? 30 : 16;
    const pats: ((i: number) => number)[] = [i => i, i => (i * 7) % 5, i => (i % 3 === 0 ? -i : i), i => -2 * i * i, () => 1];
    for (let n = 0; n <= N; n++)
      for (let size = -1; size <= N + 1; size++)
        for (const mode of [undefined, 'lttb', 'min', 'max', 'average', 'sum'])
          for (let p = 0; p < pats.length; p++) {
            const ys = Array.from({ length: n }, (_, i) => pats[p](i));
            yield { k: 'samp', ys, size, mode };
            if (p < 2) for (const groups of [1, 2, 3]) yield { k: 'samp', ys, size, mode, groups };
            if (p === 1) {
              yield { k: 'samp', ys, size: [3, 3 + size], mode };
              yield { k: 'samp', ys, size, mode, factor: 2 };
              yield { k: 'samp', ys, size, mode, yf: 'y2' };
              yield { k: 'samp', ys, size, mode, skip: true };
            }
          }
    // lttb over all value patterns
    for (let n = 3; n <= (ctx.thorough ? 8 : 6); n++) for (const ys of tuples([0, 1, 4], n)) for (let size = 1; size < n; size++) for (const mode of ['lttb', 'sum']) yield { k: 'samp', ys, size, mode };
    const shapes: [number, number, number[]][] = [[2, 2, [0, 1, 2]], [2, 3, [0, 1, 2]], [3, 2, [0, 1, 2]], [2, 4, [0, 1, 2]], [4, 2, [0, 1]], [3, 3, [0, 1, 2]], [3, 4, [0, 1]], [4, 3, [0, 1]]];
    if (ctx.thorough) shapes.push([4, 4, [0, 1]], [3, 5, [0, 1]]);
    for (const [row, col, levels] of shapes)
      for (const g of tuples(levels, row * col)) {
        yield { k: 'contour', row, col, g, th: [0.5] };
        if (row * col < 9) {
          yield { k: 'contour', row, col, g, th: [1] };
          yield { k: 'contour', row, col, g, th: [0.5, 1.25, 5] };
          yield { k: 'contour', row, col, g, levels: 3 };
          yield { k: 'contour', row, col, g, th: [] };
        }
      }
  },
  run(c, ctx) {
    try {
      ctx.count(c.k);
      ctx.compare();
      if (c.k === 'bin') {
        const rows = c.rows.map((v, i) => ({ v, i }));
        const ext = c.sig ? [{ signal: 'lo' }, { signal: 'hi' }] : c.extent;
        const v = run1(rows, { type: 'bin', field: 'v', extent: ext, ...(c.step !== undefined ? { step: c.step } : {}), ...(c.bins !== undefined ? { bins: c.sig ? { signal: 'n' } : c.bins } : {}), ...(c.as ? { as: c.as } : {}) }, [
          { id: 'lo', value: c.sig ? c.extent[0] - 1 : c.extent[0] }, { id: 'hi', value: c.extent[1] }, { id: 'n', value: c.bins ?? 0 }
        ]);
        if (c.sig) {
          v.getSignalById('lo').value(c.extent[0]);
          v.run();
        }
        ctx.step();
        const [S, E] = c.as ?? ['binStart', 'binEnd'];
        const step = c.step ?? (c.extent[1] - c.extent[0]) / (c.bins === undefined ? 10 : Math.max(1, c.bins));
        const n = Math.ceil((c.extent[1] - c.extent[0]) / step - 1e-9);
        const got = out(v);
        ctx.state(['bin', c.extent, step, got.map((r: any) => [r[S], r[E]])]);
        eq(got.map((r: any) => [r.v, r.i]), rows.map(r => [r.v, r.i]), 'bin:rows', 'rows of the binned table');
        got.forEach((r: any) => {
          const i = Math.round((r[S] - c.extent[0]) / step);
          const hi = Math.min(c.extent[1], c.extent[0] + (i + 1) * step);
          ok(same(r[S], c.extent[0] + i * step) && same(r[E], hi) && i >= 0 && i < n, 'bin:limits', () => `bin [${r[S]}, ${r[E]}] of ${r.v} is not one of the ${n} bins of ${c.extent} by ${step}`);
          ok(r[S] <= r.v + 1e-9 && (r.v < r[E] || (r.v <= r[E] + 1e-9 && i === n - 1)), 'bin:contains', () => `${r.v} is in bin [${r[S]}, ${r[E]}]`);
        });
        ok(rows.every(r => !(S in r)), 'bin:input', 'bin wrote into its input rows');
      } else if (c.k === 'kde') {
        const rows = c.xs.map(x => ({ v: x }));
        const v = run1(rows, { type: 'kde', field: 'v', ...(c.h ? { bandwidth: c.h } : {}), ...(c.bins ? { bins: c.bins } : {}), ...(c.extent ? { extent: c.extent } : {}), ...(c.as ? { as: c.as } : {}) });
        ctx.step();
        const got = out(v);
        const X = c.as?.[0] ?? 'x';
        const D = c.as?.[1] ?? 'kde';
        const ends = c.extent ? c.extent.map((e: any) => e.x ?? e) : [Math.min(...c.xs), Math.max(...c.xs)];
        const nb = c.bins ?? 256;
        let h = c.h;
        if (!h) {
          const m = c.xs.reduce((a, b) => a + b, 0) / c.xs.length;
          const sd = Math.sqrt(c.xs.reduce((a, b) => a + (b - m) ** 2, 0) / c.xs.length);
          const s = c.xs.slice().sort((a, b) => a - b);
          const q = (p: number) => {
            const t = (s.length - 1) * p;
            const i = Math.floor(t);
            return s[i] + ((s[Math.min(i + 1, s.length - 1)] ?? 0) - s[i]) * (t - i);
          };
          h = 0.9 * Math.min(sd, (q(0.75) - q(0.25)) / 1.34) * c.xs.length ** -0.2;
          if (!(h > 0)) return; // identical points: no bandwidth can be estimated
        }
        eq(got.length, nb, 'kde:points', 'number of grid points');
        got.forEach((r: any, i: number) => {
          const x = ends[0] + ((ends[1] - ends[0]) / nb) * (i + 0.5);
          eq(r[X], x, 'kde:x', `grid point ${i}`);
          const d = c.xs.reduce((a, xi) => a + Math.exp(-(((x - xi) / h) ** 2) / 2) / Math.sqrt(2 * Math.PI), 0) / (c.xs.length * h);
          eq(r[D], d, 'kde:density', () => `density at ${x} of ${show(c)}`);
        });
        ctx.state(['kde', got.map((r: any) => [r[X], r[D]])]);
      } else if (c.k === 'kde2') {
        const grid = (pts: [number, number][]) => {
          const ends = c.extent ?? [{ x: Math.min(...c.pts.map(i => P2[i][0])), y: Math.min(...c.pts.map(i => P2[i][1])) }, { x: Math.max(...c.pts.map(i => P2[i][0])), y: Math.max(...c.pts.map(i => P2[i][1])) }];
          const v = run1(pts.map(([x, y]) => ({ x, y })), { type: 'kde', dimension: '2d', field: ['x', 'y'], bandwidth: c.h, bins: c.bins, extent: pts.length === c.pts.length ? c.extent : ends });
          return { g: out(v), ends };
        };
        const pts = c.pts.map(i => P2[i]);
        const { g, ends } = grid(pts);
        ctx.step();
        const [bx, by] = Array.isArray(c.bins) ? c.bins : [c.bins, c.bins];
        const e0 = typeof ends[0] === 'number' ? { x: ends[0], y: ends[0] } : ends[0];
        const e1 = typeof ends[1] === 'number' ? { x: ends[1], y: ends[1] } : ends[1];
        eq(g.length, bx * by, 'kde2:points', 'number of grid points');
        const singles = pts.map(p => (pts.length > 1 ? grid([p]).g : g));
        g.forEach((r: any, i: number) => {
          const [ix, iy] = [i % bx, Math.floor(i / bx)];
          eq([r.x, r.y], [e0.x + ((e1.x - e0.x) / bx) * (ix + 0.5), e0.y + ((e1.y - e0.y) / by) * (iy + 0.5)], 'kde2:grid', () => `grid point ${i} of ${show(c)}`);
          // the estimate of a table is the mean of the estimates of its rows
          eq(r.kde, singles.reduce((a, s) => a + s[i].kde, 0) / pts.length, 'kde2:sum', () => `density at ${r.x},${r.y} of ${show(c)}`);
        });
        // the kernel decreases with the distance
        if (pts.length === 1) {
          const d = g.map((r: any) => [Math.hypot(r.x - pts[0][0], r.y - pts[0][1]), r.kde]);
          for (const a of d) for (const b of d) ok(!(a[0] < b[0] - 1e-9 && a[1] < b[1] - 1e-12), 'kde2:kernel', () => `kernel grows with the distance: ${a} ${b}`);
        }
        ctx.state(['kde2', g.map((r: any) => r.kde)]);
      } else if (c.k === 'samp') {
        const y = c.yf ?? 'y';
        const grp = (i: number) => (c.groups ? GN[(i * i + i) % 3 % c.groups] : undefined);
        const mk = () => c.ys.map((v, i) => ({ i, [y]: v, ...(c.groups ? { g: grp(i) } : {}) }));
        const rows = mk();
        const v = run1(rows, { type: 'sampling', size: c.size, ...(c.mode ? { mode: c.mode } : {}), ...(c.yf ? { yfield: c.yf } : {}), ...(c.groups ? { groupBy: 'g' } : {}), ...(c.skip ? { skipfirst: true } : {}), ...(c.factor ? { factor: c.factor } : {}) });
        ctx.step();
        const size = (Array.isArray(c.size) ? c.size[1] - c.size[0] : c.size) * (c.factor ?? 1);
        const judge = (when: string) => {
          const got = out(v);
          ctx.trace(when, got);
          const ids = got.map((r: any) => r.i);
          if (size <= 0) return eq(got.length, 0, 'sampling:empty', `${when} size ${size}`);
          if (rows.length <= size) return eq(got.map((r: any) => [r.i, r[y]]), c.ys.map((v2, i) => [i, v2]), 'sampling:small', `${when}: a table which needs no sampling`);
          if (c.skip) return eq(ids, [0], 'sampling:skipfirst', when);
          if (c.mode === undefined || c.mode === 'lttb' || !c.groups) for (let j = 1; j < ids.length; j++) ok(ids[j - 1] < ids[j] || (c.mode && c.mode !== 'lttb' && ids[j - 1] <= ids[j]), 'sampling:order', () => `${when}: sampled rows ${show(ids)}`);
          const groups = [...new Set(c.ys.map((_, i) => grp(i)))];
          for (const g of groups) {
            const all = c.ys.map((_, i) => i).filter(i => grp(i) === g);
            const mine = got.filter((r: any) => r.g === g);
            const gi = mine.map((r: any) => r.i);
            if (all.length <= size) {
              eq(gi, all, 'sampling:smallgroup', `${when}: group ${g} needs no sampling`);
              continue;
            }
            const fs = Math.floor(all.length / size);
            const L = all.length;
            const val = (j: number) => c.ys[all[j]];
            if (c.mode === undefined || c.mode === 'lttb') {
              ok(gi[0] === all[0] && gi[gi.length - 1] === all[L - 1], 'sampling:ends', () => `${when}: first or last row missing: ${show(gi)}`);
              let cur = 0;
              const exp = [0];
              for (let f = 1; f < L - 1; f += fs) {
                const nf = Math.min(f + fs, L - 1);
                const ne = Math.min(f + 2 * fs, L);
                const ax = (nf + ne) / 2;
                let ay = 0;
                for (let j = nf; j < ne; j++) ay += val(j);
                ay /= ne - nf;
                let best = -1;
                let bi = f;
                for (let j = f; j < Math.min(f + fs, L); j++) {
                  const a = Math.abs((f - 1 - ax) * (val(j) - val(cur)) - (f - 1 - j) * (ay - val(cur)));
                  if (a > best) {
                    best = a;
                    bi = j;
                  }
                }
                exp.push(bi);
                cur = bi;
              }
              if (exp[exp.length - 1] !== L - 1) exp.push(L - 1);
              eq(gi, exp.map(j => all[j]), 'sampling:lttb', () => `${when}: largest triangles of ${show(c)}`);
              eq(mine.map((r: any) => r[y]), gi.map((i: number) => c.ys[i]), 'sampling:values', `${when}: sampled rows keep their values`);
            } else {
              // the first row, then one row per frame: a row of the frame which carries the aggregate
              const exp = [val(0)];
              const frames: number[][] = [[0]];
              for (let f = 1; f < L - 1; f += fs) {
                const fr = Array.from({ length: Math.min(fs, L - f) }, (_, j) => f + j);
                frames.push(fr);
                exp.push(AGG[c.mode](fr.map(val)));
              }
              eq(mine.map((r: any) => r[y]), exp, 'sampling:aggregates', () => `${when}: aggregated frames of ${show(c)}`);
              frames.forEach((fr, j) => ok(fr.map(q => all[q]).includes(gi[j]), 'sampling:frame', () => `${when}: aggregate ${j} is at row ${gi[j]}, its frame is ${show(fr.map(q => all[q]))}`));
            }
          }
          ctx.state(['samp', ids, c.mode]);
        };
        judge('first');
        eq(rows.map(r => [r.i, r[y]]), mk().map(r => [r.i, r[y]]), 'sampling:input', () => `input rows after sampling ${show(c)}`);
        // the transform is evaluated again over the same rows
        v.getDataById('out').commit();
        v.run();
        ctx.step();
        judge('second');
      } else {
        const rows = c.g.map(v => ({ v }));
        const v = run1(rows, { type: 'contour', field: 'v', row: c.row, column: c.col, ...(c.th ? { thresholds: c.th } : {}), ...(c.levels ? { levels: c.levels } : {}) });
        ctx.step();
        const got = out(v);
        const [lo, hi] = [Math.min(...c.g), Math.max(...c.g)];
        const ths = c.th ?? Array.from({ length: c.levels - 1 }, (_, i) => lo + ((hi - lo) / c.levels) * (i + 1));
        const at = (x: number, y2: number) => c.g[y2 * c.col + x];
        ctx.state(['contour', got.map((l: any) => l.points.length)]);
        for (const t of new Set(ths)) {
          const lines = got.filter((l: any) => same(l.threshold, t));
          // edges of the grid which the level crosses
          const edges = new Map<string, [number, number]>();
          const cross = (x0: number, y0: number, x1: number, y1: number) => {
            const [a, b] = [at(x0, y0), at(x1, y1)];
            if (a >= t !== b >= t) {
              const f = (t - a) / (b - a);
              edges.set(`${x0},${y0}-${x1},${y1}`, [(x0 + (x1 - x0) * f) / c.col, (y0 + (y1 - y0) * f) / c.row]);
            }
          };
          for (let y0 = 0; y0 < c.row; y0++)
            for (let x0 = 0; x0 < c.col; x0++) {
              if (x0 + 1 < c.col) cross(x0, y0, x0 + 1, y0);
              if (y0 + 1 < c.row) cross(x0, y0, x0, y0 + 1);
            }
          // every point of a line is a crossing; every crossing is on exactly one line (the point which closes a loop is repeated)
          const pts: [number, number][] = [];
          for (const l of lines) {
            const ps = l.points.map((p: any) => [p.x, p.y]);
            const closed = ps.length > 2 && same(ps[0], ps[ps.length - 1]);
            (closed ? ps.slice(1) : ps).forEach((p: any) => pts.push(p));
            // consecutive points lie in one cell
            for (let i = 1; i < ps.length; i++) {
              const [ax, ay] = [ps[i - 1][0] * c.col, ps[i - 1][1] * c.row];
              const [bx, by] = [ps[i][0] * c.col, ps[i][1] * c.row];
              ok(Math.floor(Math.min(ax, bx) + 1e-9) + 1 + 1e-9 >= Math.max(ax, bx) && Math.floor(Math.min(ay, by) + 1e-9) + 1 + 1e-9 >= Math.max(ay, by), 'contour:cells', () => `line ${show(ps)} jumps between cells, grid ${show(c)}`);
            }
          }
          const want = [...edges.values()];
          const key = (p: any) => p.map((x: number) => x.toFixed(6)).join();
          // where the level equals a grid value crossings coincide, only their positions can be told apart
          const norm = (ps: any[]) => (c.g.includes(t) ? [...new Set(ps.map(key))].sort() : ps.map(key).sort());
          eq(norm(pts), norm(want), 'contour:points', () => `points of the contour lines of ${t} in ${show(c)}`);
        }
        eq(got.every((l: any) => ths.some(t => same(t, l.threshold))), true, 'contour:thresholds', 'thresholds of the lines');
      }
    } finally {
      releaseAll();
    }
  }
});

// H01: treemap tiles are proportional, disjoint, contained; nodes describe the hierarchy.
import { check, eq, ok, same, show } from '../lib/kit';
import { forests, leaves, inner, build, describe, flat, valueOf, valued, Exp, Shape } from '../lib/trees';
import { TreemapLayout, treemapTransform } from '@visactor/vgrammar-hierarchy';
import { tuples } from '../lib/kit';

type O = { splitType?: string; gapWidth?: any; padding?: any; labelPadding?: any; labelPosition?: string; maxDepth?: number; minVisibleArea?: any; minChildrenVisibleArea?: any; minChildrenVisibleSize?: any; aspectRatio?: number; valueField?: string; nodeKey?: any };
type C = { f: Shape[]; v: any[]; own: any[]; o: O; box: any; flatten?: boolean };
const EPS = 1e-6;
const SPLITS = ['binary', 'dice', 'slice', 'sliceDice', 'squarify'];
const at = (o: any, depth: number) => (depth < 0 ? 0 : (Array.isArray(o) ? o[depth] : o) ?? 0);

check<C>({
  id: 'H01',
  level: 'model_checking',
  rule:
    'all ordered forests of <=5 (thorough 6) nodes x leaf values over {0,1,3} (thorough {0,1,3,8}) x own values of inner nodes x 5 split types; padding/gap/label/depth/visibility options on all forests of <=4 nodes; ' +
    'all value tuples of <=6 flat tiles in several aspect ratios; every node compared with its definition (key, depth, value, datum path) and every tile with containment, disjointness, proportional area and filling',
  *cases(ctx) {
    const box = { width: 120, height: 80 };
    for (const splitType of SPLITS) {
      for (let n = 1; n <= (ctx.thorough ? 6 : 5); n++)
        for (const { f, v } of valued(n, n > 5 ? [0, 1, 3] : ctx.thorough ? [0, 1, 3, 8] : n > 4 ? [0, 1, 3].slice(0, 3) : [0, 1, 3, 8], 4))
          if (n < 5 || ctx.thorough || leaves(f) <= 4) yield { f, v, own: [], o: { splitType, minVisibleArea: 0 }, box };
      // flat forests: the order of values drives the tilers
      for (let n = 5; n <= (ctx.thorough ? 8 : 6); n++) {
        const f = Array.from({ length: n }, () => []) as Shape[];
        for (const v of tuples([1, 2, 6], n)) yield { f, v, own: [], o: { splitType, minVisibleArea: 0 }, box: n % 2 ? box : { x0: 10, x1: 60, y0: 300, y1: 20 } };
      }
      // own values of inner nodes
      for (let n = 2; n <= 4; n++)
        for (const f of forests(n, 3)) {
          const k = inner(f);
          if (!k) continue;
          for (const own of tuples([undefined, null, 0, 2, 20, 'x'], k))
            if (own.some(x => x !== undefined)) for (const v of tuples([1, 3], leaves(f))) yield { f, v, own, o: { splitType, minVisibleArea: 0 }, box };
        }
      const opts: O[] = [
        { padding: 4 }, { padding: [2, 6] }, { padding: 200 }, { gapWidth: 3 }, { gapWidth: [0, 4] }, { gapWidth: 2, padding: 5 },
        { labelPadding: 10 }, { labelPadding: 10, labelPosition: 'bottom' }, { labelPadding: 10, labelPosition: 'left' }, { labelPadding: [8], labelPosition: 'right' }, { labelPadding: 500 },
        { labelPadding: 6, padding: 3, gapWidth: 2 }, { maxDepth: 0 }, { maxDepth: 1 }, { maxDepth: 0, labelPadding: 4 }, { minChildrenVisibleArea: 3000 }, { minChildrenVisibleSize: 45 },
        { minVisibleArea: 1500 }, { minVisibleArea: [0, 1500] }, { minVisibleArea: 100000 }, {}, { valueField: 'w' }, { nodeKey: 'name' }, { nodeKey: (d: any) => 'k' + d.name } as any, { aspectRatio: 1 }, { aspectRatio: 4 }
      ];
      for (const o of opts)
        for (let n = 1; n <= (ctx.thorough ? 5 : 4); n++)
          for (const f of forests(n, 3))
            for (const v of tuples(ctx.thorough ? [0, 1, 3] : n < 4 ? [1, 3] : [1, 3], leaves(f))) {
              const key = typeof o.nodeKey === 'function' ? '$fn' : o.nodeKey;
              yield { f, v, own: [], o: { splitType, minVisibleArea: 0, ...o, nodeKey: key }, box, flatten: n === 4 || undefined };
            }
    }
    // missing and invalid values, empty data
    for (const splitType of SPLITS) {
      yield { f: [], v: [], own: [], o: { splitType }, box };
      for (const f of forests(3, 3)) for (const v of tuples([undefined, null, NaN, '2', 0], leaves(f))) yield { f, v, own: [], o: { splitType, minVisibleArea: 0 }, box };
    }
  },
  nontrivial: c => c.f.length > 0 && (c.f.length > 1 || c.f[0].length > 0),
  run(c, ctx) {
    const o: any = { ...c.o };
    if (o.nodeKey === '$fn') o.nodeKey = (d: any) => 'k' + d.name;
    const field = o.valueField || 'value';
    const data = build(c.f, c.v, c.own, field);
    const before = show(data, 1e9);
    const label = () => `${show(data)} with ${show(o)}`;
    ctx.step();
    const got: any[] = new TreemapLayout(o).layout(data, c.box);
    eq(show(data, 1e9), before, 'input', () => `${label()}: input data changed`);
    const keyOf = c.o.nodeKey === '$fn' ? (d: any) => 'k' + d.name : c.o.nodeKey ? (d: any) => d[c.o.nodeKey] : undefined;
    const exp = describe(data, field, keyOf);
    const total = exp.reduce((s, e) => s + Math.abs(e.value), 0);
    ctx.state([c.f, c.v, c.own, c.o]);
    if (!(total > 0)) {
      eq(got, [], 'empty', () => `${label()}: nothing to lay out`);
      return;
    }
    const vb = 'width' in c.box ? { x0: 0, y0: 0, x1: c.box.width, y1: c.box.height } : { x0: Math.min(c.box.x0, c.box.x1), x1: Math.max(c.box.x0, c.box.x1), y0: Math.min(c.box.y0, c.box.y1), y1: Math.max(c.box.y0, c.box.y1) };
    const maxD = Math.max(...flat(exp).map(e => e.depth));
    const ratio = ((vb.x1 - vb.x0) * (vb.y1 - vb.y0)) / total;
    // nodes too small to be visible are dropped, and a node which lost all its children becomes a leaf
    const visible = (es: Exp[]): Exp[] => es.filter(e => !(at(c.o.minVisibleArea ?? 10, e.depth) > 0 && e.value * ratio < at(c.o.minVisibleArea ?? 10, e.depth)));
    const box = (n: any) => ({ x0: n.x0, y0: n.y0, x1: n.x1, y1: n.y1 });
    const W = (b: any) => b.x1 - b.x0, H = (b: any) => b.y1 - b.y0;
    const inside = (a: any, b: any) => a.x0 >= b.x0 - EPS && a.x1 <= b.x1 + EPS && a.y0 >= b.y0 - EPS && a.y1 <= b.y1 + EPS;
    const judge = (nodes: any[], es: Exp[], region: any, value: number, depth: number, path: string) => {
      eq(nodes.length, es.length, 'nodes', () => `${label()}: number of nodes at ${path}`);
      const gap = at(c.o.gapWidth, depth);
      const tiles: any[] = [];
      nodes.forEach((n, i) => {
        const e = es[i];
        const here = `${path}/${e.key}`;
        for (const k of ['key', 'parentKey', 'depth', 'index', 'flattenIndex', 'value'] as const) eq(n[k], (e as any)[k], 'node:' + k, () => `${label()}: ${k} of ${here}`);
        eq(n.maxDepth, maxD, 'node:maxDepth', () => `${label()}: maxDepth of ${here}`);
        ok(n.datum.length === e.datum.length && n.datum.every((d: any, j: number) => d === e.datum[j]), 'node:datum', () => `${label()}: datum path of ${here}`);
        const b = box(n);
        ok([b.x0, b.x1, b.y0, b.y1].every(Number.isFinite) && W(b) >= -EPS && H(b) >= -EPS, 'tile:finite', () => `${label()}: tile of ${here} is ${show(b)}`);
        // the tile before the gap was taken off
        const full = gap > 0 ? { x0: b.x0 - gap / 2, x1: b.x1 + gap / 2, y0: b.y0 - gap / 2, y1: b.y1 + gap / 2 } : b;
        const cut = gap > 0 && (W(b) < EPS || H(b) < EPS);
        tiles.push({ full, cut, b, e });
        ok(cut || inside(b, region), 'tile:contained', () => `${label()}: tile ${show(b)} of ${here} is not inside ${show(region)}`);
        ctx.compare();
      });
      const R = gap > 0 ? { x0: region.x0 - gap / 2, x1: region.x1 + gap / 2, y0: region.y0 - gap / 2, y1: region.y1 + gap / 2 } : region;
      const area = W(R) * H(R);
      const sum = es.reduce((s, e) => s + e.value, 0);
      const anyCut = tiles.some(t => t.cut);
      for (let i = 0; i < tiles.length; i++)
        for (let j = i + 1; j < tiles.length; j++) {
          const a = tiles[i].b, b = tiles[j].b;
          const ox = Math.min(a.x1, b.x1) - Math.max(a.x0, b.x0), oy = Math.min(a.y1, b.y1) - Math.max(a.y0, b.y0);
          ok(!(ox > EPS && oy > EPS), 'tile:disjoint', () => `${label()}: tiles ${show(a)} and ${show(b)} at ${path} overlap`);
          if (gap > 0 && !anyCut && tiles[i].e.value > 0 && tiles[j].e.value > 0) ok(Math.max(-ox, -oy) >= gap - EPS, 'tile:gap', () => `${label()}: tiles ${show(a)} and ${show(b)} at ${path} are closer than ${gap}`);
        }
      const exact = Math.abs(sum - value) < 1e-9 && sum > 0;
      if (exact && !anyCut && area > EPS) {
        for (const t of tiles)
          ok(Math.abs(W(t.full) * H(t.full) - (area * t.e.value) / sum) <= 1e-6 * Math.max(1, area), 'tile:area', () => `${label()}: tile ${show(t.b)} at ${path} has area ${W(t.full) * H(t.full)}, expected ${(area * t.e.value) / sum}`);
        const covered = tiles.reduce((s, t) => s + W(t.full) * H(t.full), 0);
        ok(Math.abs(covered - area) <= 1e-6 * Math.max(1, area), 'tile:fill', () => `${label()}: tiles at ${path} cover ${covered} of ${area}`);
        ctx.count('proportional groups');
      }
      if (!anyCut && (c.o.splitType === 'dice' || c.o.splitType === 'slice' || c.o.splitType === 'sliceDice')) {
        // slices are stacked in order along their axis
        const ver = c.o.splitType === 'slice' || (c.o.splitType === 'sliceDice' && (depth - 1) % 2 !== 0 && depth - 1 >= 0);
        let pos = ver ? R.y0 : R.x0;
        const len = ver ? H(R) : W(R);
        for (const t of tiles) {
          const size = value > 0 ? (len * t.e.value) / value : 0;
          const want = ver ? { x0: R.x0, x1: R.x1, y0: pos, y1: pos + size } : { x0: pos, x1: pos + size, y0: R.y0, y1: R.y1 };
          ok(same(t.full, want), 'tile:slice', () => `${label()}: tile at ${path} is ${show(t.full)}, expected ${show(want)}`);
          pos += size;
        }
      }
      nodes.forEach((n, i) => {
        const e = es[i];
        const b = box(n);
        let kids = visible(e.kids);
        if (kids.length && c.o.maxDepth !== undefined && e.depth >= c.o.maxDepth) kids = [];
        if (kids.length && c.o.minChildrenVisibleArea !== undefined && Math.abs(fullArea(n, gap)) < c.o.minChildrenVisibleArea) kids = [];
        if (kids.length && c.o.minChildrenVisibleSize !== undefined && (W(b) + gap < c.o.minChildrenVisibleSize || H(b) + gap < c.o.minChildrenVisibleSize)) kids = [];
        eq(!!n.isLeaf, !kids.length, 'node:leaf', () => `${label()}: isLeaf of ${path}/${e.key}`);
        if (!kids.length) {
          ok(!n.children || !n.children.length, 'node:children', () => `${label()}: children of ${path}/${e.key} should be hidden`);
          eq(n.labelRect, undefined, 'label:leaf', () => `${label()}: label area of a leaf ${path}/${e.key}`);
          return;
        }
        const r = { ...b };
        const pad = at(c.o.padding, e.depth);
        if (pad > 0 && pad < Math.min(W(r), H(r)) / 2) {
          r.x0 += pad; r.x1 -= pad; r.y0 += pad; r.y1 -= pad;
        }
        const lp = at(c.o.labelPadding, e.depth);
        const pos = c.o.labelPosition || 'top';
        let lr: any;
        if (lp > 0 && lp < (pos === 'top' || pos === 'bottom' ? H(r) : W(r))) {
          lr = { ...r };
          if (pos === 'top') (lr.y1 = r.y0 + lp), (r.y0 += lp);
          if (pos === 'bottom') (lr.y0 = r.y1 - lp), (r.y1 -= lp);
          if (pos === 'left') (lr.x1 = r.x0 + lp), (r.x0 += lp);
          if (pos === 'right') (lr.x0 = r.x1 - lp), (r.x1 -= lp);
        }
        eq(n.labelRect, lr, 'label', () => `${label()}: label area of ${path}/${e.key}`);
        judge(n.children, kids, r, e.value, depth + 1, `${path}/${e.key}`);
      });
    };
    const fullArea = (n: any, gap: number) => (n.x1 - n.x0 + gap) * (n.y1 - n.y0 + gap);
    judge(got, visible(exp), vb, total, 0, '');
    if (c.flatten) {
      const rows: any[] = (treemapTransform as any)({ ...o, ...c.box, flatten: true }, build(c.f, c.v, c.own, field));
      const fl = (ns: any[]): any[] => ns.flatMap(n => [n, ...fl(n.children || [])]);
      eq(rows.map(r => [r.key, r.x0, r.y0, r.x1, r.y1, r.isLeaf]), fl(got).map(r => [r.key, r.x0, r.y0, r.x1, r.y1, r.isLeaf]), 'flatten', () => `${label()}: flattened rows`);
    }
    void valueOf;
  }
});

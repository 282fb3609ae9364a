// H02: sunburst sectors and tree layouts keep structure, order and spacing.
import { check, eq, ok, same, show, tuples } from '../lib/kit';
import { forests, leaves, inner, build, describe, flat, valued, Exp, Shape } from '../lib/trees';
import { SunburstLayout, sunburtTransform, TreeLayout, treeTransform } from '@visactor/vgrammar-hierarchy';

type C = { k: 'sunburst' | 'tree'; f: Shape[]; v: any[]; own: any[]; o: any; box: any; maxDepth?: number };
const PI = Math.PI;
const close = (a: number, b: number, s = 1) => Math.abs(a - b) <= 1e-9 * Math.max(1, s, Math.abs(a), Math.abs(b));
const arr = (o: any, i: number) => (Array.isArray(o) ? o[i] : o);

/** tidy tree by its definition: every subtree is pushed right until it clears all its left siblings level by level;
 * whatever it is pushed because of one of them is spread evenly over the siblings between both */
function tidy(e: Exp): Map<Exp, number> {
  const rel = new Map<Exp, number>();
  const level = (n: Exp, lv: number): number[] => (lv === 0 ? [rel.get(n)!] : n.kids.flatMap(q => level(q, lv - 1).map(x => x + rel.get(n)!)));
  const rec = (n: Exp) => {
    const kids = n.kids;
    kids.forEach(rec);
    if (!kids.length) return;
    const extra = kids.map(() => 0);
    kids.forEach((k, i) => {
      rel.set(k, i ? rel.get(kids[i - 1])! + 1 : 0);
      for (let lv = 1; i > 0; lv++) {
        const L = level(k, lv);
        let j = i - 1, R: number[] = [];
        while (L.length && j >= 0 && !(R = level(kids[j], lv)).length) j--;
        if (!R.length) break;
        const shift = Math.max(...R) + 2 - Math.min(...L);
        if (shift > 0) {
          rel.set(k, rel.get(k)! + shift);
          for (let q = j + 1; q < i; q++) extra[q] += (shift * (q - j)) / (i - j);
        }
      }
    });
    kids.forEach((k, i) => rel.set(k, rel.get(k)! + extra[i]));
    const mid = (rel.get(kids[0])! + rel.get(kids[kids.length - 1])!) / 2;
    kids.forEach(k => rel.set(k, rel.get(k)! - mid));
  };
  rel.set(e, 0);
  rec(e);
  rel.set(e, 0);
  const abs = new Map<Exp, number>();
  const walk = (n: Exp, x: number) => {
    abs.set(n, x + rel.get(n)!);
    n.kids.forEach(q => walk(q, x + rel.get(n)!));
  };
  walk(e, 0);
  return abs;
}
function cluster(e: Exp): Map<Exp, number> {
  const abs = new Map<Exp, number>();
  let prev: Exp | undefined, x = 0;
  const rec = (n: Exp) => {
    n.kids.forEach(rec);
    if (n.kids.length) abs.set(n, n.kids.reduce((s, q) => s + abs.get(q)!, 0) / n.kids.length);
    else {
      if (prev) x += prev.parentKey === n.parentKey ? 1 : 2;
      abs.set(n, x);
      prev = n;
    }
  };
  rec(e);
  return abs;
}
const height = (e: Exp): number => (e.kids.length ? 1 + Math.max(...e.kids.map(height)) : 0);

function nodesEqual(got: any[], es: Exp[], maxD: number, label: () => string, ctx: any, cb: (n: any, e: Exp, parent?: any) => void, parent?: any) {
  eq(got.length, es.length, 'nodes', () => `${label()}: number of nodes`);
  got.forEach((n, i) => {
    const e = es[i];
    for (const k of ['key', 'parentKey', 'depth', 'index', 'flattenIndex', 'value'] as const) eq(n[k], (e as any)[k], 'node:' + k, () => `${label()}: ${k} of ${e.key}`);
    eq(!!n.isLeaf, e.leaf, 'node:isLeaf', () => `${label()}: isLeaf of ${e.key}`);
    eq(n.maxDepth, maxD, 'node:maxDepth', () => `${label()}: maxDepth of ${e.key}`);
    ok(n.datum.length === e.datum.length && n.datum.every((d: any, j: number) => d === e.datum[j]), 'node:datum', () => `${label()}: datum path of ${e.key}`);
    ctx.compare();
    cb(n, e, parent);
    if (e.kids.length) nodesEqual(n.children, e.kids, maxD, label, ctx, cb, n);
    else ok(!n.children || !n.children.length, 'node:children', () => `${label()}: ${e.key} is a leaf`);
  });
}

check<C>({
  id: 'H02',
  level: 'model_checking',
  rule:
    'sunburst: all ordered forests of <=5 nodes (thorough 6) x leaf values {0,1,3} x own values of inner nodes, all angle/radius/gap/center/label options on forests of <=4 nodes; ' +
    'tree: all rooted ordered trees of <=10 (thorough 12) nodes compared with an independent definition of the tidy tree and of the dendrogram, all directions x layouts x alignments x node gaps x link widths on trees of <=6 (thorough 7) nodes; links and depth limits',
  *cases(ctx) {
    const box = { width: 200, height: 120 };
    const box2 = { x0: 10, x1: 210, y0: 150, y1: 20 };
    const T = ctx.thorough;
    // --- trees
    for (let n = 1; n <= (T ? 12 : 10); n++)
      for (const f of forests(n))
        if (f.length === 1) {
          yield { k: 'tree', f, v: [], own: [], o: { direction: 'vertical', alignType: 'depth' }, box };
          yield { k: 'tree', f, v: [], own: [], o: { direction: 'LR', alignType: 'leaf' }, box };
        }
    const gaps: any[] = [{}, { minNodeGap: 12 }, { linkWidth: 25 }, { linkWidth: [10, 30, 20, 25, 15, 5, 5] }, { minNodeGap: 12, linkWidth: 25 }, { minNodeGap: 7, linkWidth: [10, 30, 20, 25, 15, 5, 5] }];
    for (const direction of ['horizontal', 'vertical', 'LR', 'RL', 'TB', 'BT', undefined])
      for (const layoutType of ['orthogonal', 'radial', undefined])
        for (const alignType of ['leaf', 'depth', undefined])
          for (const g of gaps)
            for (let n = 1; n <= (T ? 7 : 5); n++)
              for (const f of forests(n))
                if (f.length === 1) {
                  const o: any = { ...g };
                  if (direction) o.direction = direction;
                  if (layoutType) o.layoutType = layoutType;
                  if (alignType) o.alignType = alignType;
                  yield { k: 'tree', f, v: Array(n).fill(1), own: [], o, box: n % 2 ? box2 : box };
                }
    for (const nodeKey of ['name', '$fn'])
      for (let n = 1; n <= 6; n++)
        for (const f of forests(n))
          if (f.length === 1)
            for (const maxDepth of [undefined, 0, 1, 2, 9]) yield { k: 'tree', f, v: Array(n).fill(2), own: [], o: { nodeKey, direction: 'TB' }, box, maxDepth: maxDepth ?? -1 };
    // --- sunburst
    for (let n = 1; n <= (T ? 6 : 5); n++)
      for (const { f, v } of valued(n, n > 5 ? [0, 1, 3] : [0, 1, 3, 8], 4)) if (T || leaves(f) <= 4) yield { k: 'sunburst', f, v, own: [], o: {}, box };
    for (let n = 2; n <= (T ? 5 : 4); n++)
      for (const f of forests(n, 3)) {
        const k = inner(f);
        if (k) for (const own of tuples([undefined, null, 0, 2, 20, 'x'], k)) if (own.some(x => x !== undefined)) for (const v of tuples([1, 3], leaves(f))) yield { k: 'sunburst', f, v, own, o: {}, box: box2 };
      }
    for (const f of forests(3, 3)) for (const v of tuples([undefined, null, NaN, '2', 0], leaves(f))) yield { k: 'sunburst', f, v, own: [], o: {}, box };
    const lbs: any[] = [undefined, false, true, ...['start', 'end', 'center', undefined].flatMap(align => ['tangential', 'radial', undefined].flatMap(rotate => [undefined, 5].map(offset => ({ align, rotate, offset }))))];
    const opts: any[] = [
      { startAngle: 0, endAngle: PI }, { startAngle: 0, endAngle: -PI }, { startAngle: -PI / 2, endAngle: (3 * PI) / 2 }, { startAngle: 0, endAngle: 7 }, { startAngle: 1, endAngle: 1 },
      { innerRadius: 10 }, { innerRadius: '20%' }, { innerRadius: 10, outerRadius: 50 }, { innerRadius: '50%', outerRadius: '90%' }, { gapRadius: 2 }, { gapRadius: [1, 3] }, { gapRadius: 200 }, { outerRadius: 5, innerRadius: 30 },
      { innerRadius: [5, 20, 40], outerRadius: 55 }, { innerRadius: [5, 20, 40], outerRadius: 55, gapRadius: 2 }, { innerRadius: ['5%', '30%'], gapRadius: [1, 2] }, { innerRadius: [5] }, { innerRadius: [5, 20, 40], outerRadius: [18, 36, '90%'] }, { innerRadius: [5, 20], outerRadius: [18] },
      { outerRadius: [20, 40, 60] }, { outerRadius: ['20%', '50%'], innerRadius: 3 }, { outerRadius: [20] },
      { center: [10, 20] }, { center: ['25%', 30] }, { center: ['50%', '0%'] }, { nodeKey: 'name' }, { nodeKey: '$fn' },
      ...lbs.map(label => ({ label })), { label: [true, false, { align: 'start', rotate: 'tangential' }] }, { label: [false, { align: 'end', rotate: 'radial', offset: -2 }], startAngle: 0, endAngle: PI * 2 }
    ];
    for (const o of opts)
      for (let n = 1; n <= (T ? 5 : 4); n++)
        for (const f of forests(n, 3)) for (const v of tuples(T ? [0, 1, 3] : [1, 3], leaves(f))) yield { k: 'sunburst', f, v, own: [], o, box: n % 2 ? box2 : box, maxDepth: n === 3 ? 1 : n === 4 ? -1 : undefined };
    // rings given by their outer radius and a gap
    yield { k: 'sunburst', f: [[[]]], v: [1], own: [], o: { outerRadius: [20, 40], gapRadius: 4 }, box };
    yield { k: 'sunburst', f: [], v: [], own: [], o: {}, box };
    yield { k: 'tree', f: [], v: [], own: [], o: {}, box };
  },
  nontrivial: c => c.f.length > 0 && c.f[0].length > 0,
  run(c, ctx) {
    const data = build(c.f, c.v, c.own);
    const before = show(data, 1e9);
    const label = () => `${c.k} of ${show(data)} with ${show(c.o)}`;
    const fn = (d: any) => 'k' + d.name;
    const o = { ...c.o };
    if (o.nodeKey === '$fn') o.nodeKey = fn;
    ctx.step();
    ctx.state([c.k, c.f, c.v, c.own, c.o, c.box]);
    const exp = describe(data, 'value', c.o.nodeKey === '$fn' ? fn : c.o.nodeKey ? d => d[c.o.nodeKey] : undefined);
    const all = flat(exp);
    const maxD = Math.max(0, ...all.map(e => e.depth));
    const vb = 'width' in c.box ? { x0: 0, y0: 0, x1: c.box.width, y1: c.box.height } : { x0: Math.min(c.box.x0, c.box.x1), x1: Math.max(c.box.x0, c.box.x1), y0: Math.min(c.box.y0, c.box.y1), y1: Math.max(c.box.y0, c.box.y1) };
    const W = vb.x1 - vb.x0, H = vb.y1 - vb.y0;
    const maxR = Math.min(W, H) / 2;
    const near = (got: any, want: any, sig: string, msg: () => string) =>
      ok(Object.keys(want).every(k => (typeof want[k] === 'number' ? typeof got[k] === 'number' && close(got[k], want[k], 100) : same(got[k], want[k]))), sig, () => `${label()}: ${msg()} is ${show(got)}, expected ${show(want)}`);
    const pick = (n: any, ks: string[]) => Object.fromEntries(ks.map(k => [k, n[k]]));

    if (c.k === 'sunburst') {
      const got: any[] = new SunburstLayout(o).layout(data, c.box as any);
      eq(show(data, 1e9), before, 'input', () => `${label()}: input data changed`);
      if (!c.f.length) return eq(got, [], 'empty', label);
      const pc = (x: any, total: number) => (x === undefined || x === null ? total : typeof x === 'string' ? (total * parseFloat(x)) / 100 : x);
      const ctr = c.o.center || ['50%', '50%'];
      const cx = vb.x0 + pc(ctr[0], W), cy = vb.y0 + pc(ctr[1], H);
      const ir = c.o.innerRadius ?? 0, or = c.o.outerRadius ?? '70%', gap = (i: number) => arr(c.o.gapRadius ?? 0, i) ?? 0;
      const radii = (d: number): [number, number] => {
        let a: number, b: number;
        if (Array.isArray(ir)) {
          a = pc(ir[d], maxR);
          b = Array.isArray(or) ? pc(or[d], maxR) : d < maxD ? pc(ir[d + 1], maxR) - gap(d) : pc(or, maxR);
        } else if (Array.isArray(or)) {
          b = pc(or[d], maxR);
          a = d === 0 ? pc(ir, maxR) : pc(or[d - 1], maxR) + gap(d);
        } else {
          const step = (pc(or, maxR) - pc(ir, maxR)) / (maxD + 1);
          a = pc(ir, maxR) + d * step;
          b = a + step - gap(d);
        }
        return a < b ? [a, b] : [b, a];
      };
      const sa = c.o.startAngle ?? PI / 2, ea = c.o.endAngle ?? (-3 * PI) / 2;
      const total = exp.reduce((s, e) => s + e.value, 0);
      const want = new Map<Exp, { startAngle: number; endAngle: number }>();
      const dice = (es: Exp[], a: number, b: number, value: number) => {
        let sum = 0;
        es.forEach(e => {
          const at = (x: number) => (value ? a + ((b - a) * x) / value : a);
          want.set(e, { startAngle: at(sum), endAngle: at((sum += e.value)) });
          dice(e.kids, want.get(e)!.startAngle, want.get(e)!.endAngle, e.value);
        });
      };
      dice(exp, sa, ea, total);
      const judge = (n: any, e: Exp) => {
        near(pick(n, ['startAngle', 'endAngle']), want.get(e), 'sector:angle', () => `angles of ${e.key}`);
        const [r0, r1] = radii(e.depth);
        const outerGap = Array.isArray(or) && !Array.isArray(ir) && gap(e.depth) !== 0;
        near(pick(n, ['innerRadius', 'outerRadius', 'x', 'y']), { innerRadius: r0, outerRadius: r1, x: cx, y: cy }, outerGap ? `sunburst:outerRadius[20,40],gap4:ring1=${n.innerRadius}..${n.outerRadius}` : 'sector:radius', () => `ring of ${e.key}`);
        const lo = Array.isArray(c.o.label) ? c.o.label[e.depth] : c.o.label;
        if (!lo) return eq(n.label, undefined, 'label:none', () => `${label()}: label of ${e.key}`);
        const opt = lo === true ? { align: 'center', rotate: 'radial' } : lo;
        const mid = (n.startAngle + n.endAngle) / 2;
        const r = (opt.align === 'start' ? r0 : opt.align === 'end' ? r1 : (r0 + r1) / 2) + (opt.offset ?? 0);
        near(pick(n.label, ['x', 'y', 'textBaseline']), { x: cx + r * Math.cos(mid), y: cy + r * Math.sin(mid), textBaseline: 'middle' }, 'label:position', () => `label of ${e.key}`);
        const turn = (x: number) => ((x % (2 * PI)) + 2 * PI) % (2 * PI);
        const sameAngle = (x: number, y: number) => Math.min(turn(x - y), turn(y - x)) < 1e-9;
        if (opt.rotate === 'tangential') {
          ok(sameAngle(n.label.angle, mid - PI / 2) && n.label.textAlign === 'center', 'label:tangential', () => `${label()}: label of ${e.key} is ${show(n.label)}`);
          ok(close(n.label.maxLineWidth, Math.abs(n.endAngle - n.startAngle) * r), 'label:width', () => `${label()}: label of ${e.key} is ${show(n.label)}`);
        } else {
          // radial labels never stand on their head, and keep their end at the ring they are aligned to
          const left = Math.cos(mid) < -1e-9, right = Math.cos(mid) > 1e-9;
          const flip = sameAngle(n.label.angle, mid + PI), plain = sameAngle(n.label.angle, mid);
          ok((flip || plain) && !(left && !flip) && !(right && !plain), 'label:upright', () => `${label()}: label of ${e.key} at angle ${mid} has angle ${n.label.angle}`);
          const al = flip && opt.align === 'start' ? 'end' : flip && opt.align === 'end' ? 'start' : flip ? 'center' : opt.align;
          eq(n.label.textAlign, al, 'label:align', () => `${label()}: alignment of the label of ${e.key}`);
          if (e.leaf) eq(n.label.maxLineWidth, undefined, 'label:width', () => `${label()}: label of ${e.key}`);
          else ok(close(n.label.maxLineWidth, r1 - r0, 10), 'label:width', () => `${label()}: label of ${e.key} is ${show(n.label)}`);
        }
      };
      nodesEqual(got, exp, maxD, label, ctx, judge);
      ctx.count('sunbursts');
      if (c.maxDepth !== undefined) flattenCheck(sunburtTransform, exp);
      return;
    }

    const got: any[] = new TreeLayout(o).layout(data, c.box as any);
    eq(show(data, 1e9), before, 'input', () => `${label()}: input data changed`);
    if (!c.f.length) return eq(got, [], 'empty', label);
    const root = exp[0];
    const leaf = c.o.alignType === 'leaf';
    const radial = c.o.layoutType === 'radial';
    const vertical = ['vertical', 'TB', 'BT'].includes(c.o.direction);
    const xs = leaf ? cluster(root) : tidy(root);
    const span = radial ? { c0: 0, c: 2 * PI, m0: 0, m: maxR } : vertical ? { c0: vb.x0, c: W, m0: vb.y0, m: H } : { c0: vb.y0, c: H, m0: vb.x0, m: W };
    const lw = c.o.linkWidth, ng = c.o.minNodeGap;
    // position across: the first and last node keep half of their separation as margin
    let lo = root, hi = root;
    all.forEach(e => {
      if (xs.get(e)! < xs.get(lo)!) lo = e;
      if (xs.get(e)! > xs.get(hi)!) hi = e;
    });
    if (leaf) {
      const ls = all.filter(e => e.leaf);
      lo = ls[0];
      hi = ls[ls.length - 1];
    }
    const sep = (a: Exp, b: Exp) => (a.parentKey === b.parentKey ? 1 : 2);
    const margin = lo === hi ? (leaf ? 0.5 : 1) : sep(lo, hi) / 2;
    const extent = xs.get(hi)! - xs.get(lo)! + 2 * margin;
    const rootH = height(root);
    const across = (e: Exp): number => {
      if (ng !== undefined && lw !== undefined && !(leaf && Array.isArray(lw))) return leaf ? span.c0 + (xs.get(e)! - xs.get(root)!) * ng : span.c0 + span.c / 2 + xs.get(e)! * ng;
      return span.c0 + (xs.get(e)! - xs.get(lo)! + margin) * (ng !== undefined ? ng : span.c / extent);
    };
    const along = (e: Exp): number => {
      if (leaf) {
        const up = rootH - height(e);
        if (ng !== undefined && typeof lw === 'number') return span.m0 + up * lw;
        return span.m0 + (rootH ? (up / rootH) * span.m : 0);
      }
      if (lw !== undefined) return span.m0 + (typeof lw === 'number' ? e.depth * lw : lw.slice(0, e.depth).reduce((s: number, x: number) => s + x, 0));
      return span.m0 + (e.depth * span.m) / (maxD || 1);
    };
    const judge = (n: any, e: Exp) => {
      let a = across(e), m = along(e);
      let want: any;
      if (radial) want = { x: (vb.x0 + vb.x1) / 2 + m * Math.cos(a), y: (vb.y0 + vb.y1) / 2 + m * Math.sin(a) };
      else {
        if (c.o.direction === 'BT' || c.o.direction === 'RL') m = 2 * span.m0 + span.m - m;
        want = vertical ? { x: a, y: m } : { x: m, y: a };
      }
      near(pick(n, ['x', 'y']), want, leaf ? 'tree:cluster' : Array.isArray(lw) ? 'tree:tidy:linkWidths' : 'tree:tidy', () => `position of ${e.key}`);
    };
    nodesEqual(got, exp, maxD, label, ctx, judge);
    ctx.count('trees');
    if (c.maxDepth !== undefined) flattenCheck(treeTransform, exp);

    function flattenCheck(tr: any, es: Exp[]) {
      const d = c.maxDepth! < 0 ? undefined : c.maxDepth;
      const res = tr({ ...o, ...c.box, flatten: true, maxDepth: d }, build(c.f, c.v, c.own));
      const rows: any[] = c.k === 'tree' ? res.nodes : res;
      const keep = flat(es).filter(e => d === undefined || e.depth <= d);
      eq(rows.map(r => [r.key, r.depth, !!r.isLeaf]), keep.map(e => [e.key, e.depth, e.leaf || e.depth === d]), 'flatten', () => `${label()}: flattened nodes for maxDepth ${d}`);
      if (c.k !== 'tree') return;
      const pos = new Map(rows.map(r => [r.key, r]));
      const keepSet = new Set(keep.map(e => e.key));
      const links = flat(es).flatMap(e => e.kids.map(k => [e.key, k.key])).filter(l => keepSet.has(l[1]));
      const sortL = (ls: any[]) => ls.map(l => show(l)).sort();
      eq(sortL(res.links.map((l: any) => [l.source.key, l.target.key])), sortL(links), 'links', () => `${label()}: links for maxDepth ${d}`);
      res.links.forEach((l: any) => {
        const s = pos.get(l.source.key), t = pos.get(l.target.key);
        eq([l.x0, l.y0, l.x1, l.y1], [s.x, s.y, t.x, t.y], 'links:position', () => `${label()}: link ${l.key} is not attached to its nodes`);
        ok(l.source === s && l.target === t, 'links:node', () => `${label()}: link ${l.key} refers to other nodes`);
      });
      eq(new Set(res.links.map((l: any) => l.key)).size, res.links.length, 'links:key', () => `${label()}: keys of links repeat`);
    }
  }
});

// H03: circle packing never overlaps and always encloses.
import { check, eq, ok, show, tuples } from '../lib/kit';
import { forests, leaves, inner, build, describe, flat, valued, Exp, Shape } from '../lib/trees';
import { CirclePackingLayout, circlePackingTransform } from '@visactor/vgrammar-hierarchy';

type C = { f: Shape[]; v: any[]; own: any[]; o: any; box: any; maxDepth?: number };
const SORTS: Record<string, any> = { asc: (a: any, b: any) => a.value - b.value, name: (a: any, b: any) => (b.datum[b.datum.length - 1].name < a.datum[a.datum.length - 1].name ? -1 : 1) };
const RADII: Record<string, any> = { value: (n: any) => n.value, const: () => 7, depth: (n: any) => 3 + 2 * n.depth, bad: (n: any) => (n.value === 1 ? NaN : n.value === 3 ? -5 : 4) };

check<C>({
  id: 'H03',
  level: 'model_checking',
  rule:
    'all tuples of <=6 (thorough 8) sibling values over {0,1,2,9} and of <=5 over {1,3,4,5,0.05,60} (tangencies, degenerate radii), all ordered forests of <=5 (thorough 6) nodes x leaf values x padding (number, per depth), radius functions, sort orders, node keys, own values of inner nodes, view boxes; ' +
    'every circle compared with its definition: radius, containment with margin, disjointness with gap, tangency, minimality of the enclosing circle, order and node data',
  *cases(ctx) {
    const T = ctx.thorough;
    const box = { width: 200, height: 120 };
    const box2 = { x0: 10, x1: 110, y0: 250, y1: 20 };
    const flatF = (n: number) => Array.from({ length: n }, () => []) as Shape[];
    for (let n = 1; n <= (T ? 8 : 6); n++) for (const v of tuples([0, 1, 2, 9], n)) yield { f: flatF(n), v, own: [], o: { includeRoot: true, nodeSort: n % 2 ? false : undefined }, box };
    for (let n = 1; n <= (T ? 6 : 5); n++) for (const v of tuples([1, 3, 4, 5, 0.05, 60], n)) yield { f: flatF(n), v, own: [], o: { includeRoot: true, setRadius: n % 2 ? 'value' : undefined, nodeSort: false }, box: box2 };
    // a circle swallowed by the front chain, followed by a very much larger one
    yield { f: flatF(5), v: [4, 1, 3, 10000, 10000], own: [], o: { includeRoot: true, setRadius: 'value', nodeSort: false }, box: box2 };
    // many equal circles and one of another size
    for (let n = 7; n <= (T ? 60 : 30); n++) for (const a of [1, 4]) for (const b of [0, 1, 25, 400]) for (const at of [0, 1, n >> 1, n - 1]) yield { f: flatF(n), v: Array.from({ length: n }, (_, i) => (i === at ? b : a)), own: [], o: { includeRoot: true, nodeSort: false }, box };
    const opts: any[] = [
      {}, { includeRoot: true }, { padding: 4 }, { padding: [3, 8] }, { padding: [0, 5, 2], includeRoot: true }, { padding: 100 }, { nodeSort: false }, { nodeSort: true }, { nodeSort: 'asc' }, { nodeSort: 'name' }, { nodeSort: 'asc', nodeKey: 'name' }, { nodeKey: 'name' }, { nodeKey: '$fn' },
      { setRadius: 'value' }, { setRadius: 'const', padding: 6 }, { setRadius: 'depth', padding: [2, 4], includeRoot: true }, { setRadius: 'bad', nodeSort: false }, { setRadius: 'const', nodeSort: 'name', includeRoot: true }
    ];
    for (const o of opts)
      for (let n = 1; n <= (T ? 6 : 5); n++)
        for (const { f, v } of valued(n, n > 4 ? [1, 3] : [0, 1, 3, 20], 4)) if (n < 6 || leaves(f) <= 4) yield { f, v, own: [], o, box: n % 2 ? box2 : box, maxDepth: n === 4 ? 1 : n === 3 ? -1 : undefined };
    for (const f of [...forests(2, 3), ...forests(3, 3), ...forests(4, 3)]) {
      const k = inner(f);
      if (k) for (const own of tuples([undefined, null, 0, 2, 50, 'x'], k)) if (own.some(x => x !== undefined)) for (const v of tuples([1, 3], leaves(f))) yield { f, v, own, o: { includeRoot: true }, box };
    }
    for (const f of forests(3, 3)) for (const v of tuples([undefined, null, NaN, '2', 0], leaves(f))) yield { f, v, own: [], o: { includeRoot: true }, box };
    yield { f: [], v: [], own: [], o: {}, box };
  },
  nontrivial: c => c.f.length > 1,
  run(c, ctx) {
    const o: any = { ...c.o };
    const fn = (d: any) => 'k' + d.name;
    if (o.nodeKey === '$fn') o.nodeKey = fn;
    if (typeof o.nodeSort === 'string') o.nodeSort = SORTS[o.nodeSort];
    if (o.setRadius) o.setRadius = RADII[o.setRadius];
    for (const k of Object.keys(o)) if (o[k] === undefined) delete o[k];
    const data = build(c.f, c.v, c.own);
    const before = show(data, 1e9);
    const label = () => `${show(data, 400)} with ${show(c.o)}`;
    const lay = (opt: any) => (Object.keys(opt).length ? new CirclePackingLayout(opt) : new CirclePackingLayout()).layout(data, c.box) as any[];
    ctx.step();
    ctx.state([c.f, c.v, c.own, c.o]);
    const got = lay(o);
    eq(show(data, 1e9), before, 'input', () => `${label()}: input data changed`);
    if (!c.f.length) return eq(got, [], 'empty', label);
    const exp = describe(data, 'value', c.o.nodeKey === '$fn' ? fn : c.o.nodeKey ? d => d[c.o.nodeKey] : undefined);
    const maxD = Math.max(...flat(exp).map(e => e.depth));
    const W = 'width' in c.box ? c.box.width : Math.abs(c.box.x1 - c.box.x0), H = 'width' in c.box ? c.box.height : Math.abs(c.box.y1 - c.box.y0);
    const cx = 'width' in c.box ? W / 2 : (c.box.x0 + c.box.x1) / 2, cy = 'width' in c.box ? H / 2 : (c.box.y0 + c.box.y1) / 2;
    const size = Math.min(W, H);
    // deterministic
    eq(show(lay(o), 1e9), show(got, 1e9), 'deterministic', () => `${label()}: a second layout differs`);
    // the root circle
    let root: any;
    if (o.includeRoot) {
      eq(got.length, 1, 'root', () => `${label()}: one root expected`);
      root = got[0];
    } else root = lay({ ...o, includeRoot: true })[0];
    const kids: any[] = o.includeRoot ? root.children : got;
    // scale: pixels per unit of radius
    const leavesOf = (ns: any[]): any[] => ns.flatMap(n => (n.children && n.children.length ? leavesOf(n.children) : [n]));
    const zero = !leavesOf(kids).some(n => n.value > 0);
    const scaleOf = (ns: any[]) => {
      if (zero) return 0;
      const big = leavesOf(ns).reduce((a, b) => (b.value > a.value ? b : a));
      return big.radius / Math.sqrt(big.value);
    };
    const k = o.setRadius ? 1 : scaleOf(kids);
    const shrink = o.setRadius ? 1 : zero ? 0 : o.padding ? k / scaleOf(lay({ ...o, padding: 0, includeRoot: true })[0].children) : 1;
    const S = Math.max(size, root.radius, 1);
    const tol = 2e-6 * S; // the packing itself works to 1e-6 (in units of radii), the enclosing circle to 1e-9
    const near = (a: number, b: number) => Math.abs(a - b) <= tol;
    ok(near(root.x, cx) && near(root.y, cy), 'root:center', () => `${label()}: root is centred at ${root.x},${root.y}, expected ${cx},${cy}`);
    if (!o.setRadius && !zero) ok(near(root.radius, size / 2), 'root:radius', () => `${label()}: root has radius ${root.radius}, expected ${size / 2}`);
    const order = (es: Exp[]): Exp[] => {
      const s = c.o.nodeSort;
      if (s === false) return es;
      const cmp = s === 'asc' ? (a: Exp, b: Exp) => a.value - b.value : s === 'name' ? (a: Exp, b: Exp) => (b.datum[b.datum.length - 1].name < a.datum[a.datum.length - 1].name ? -1 : 1) : (a: Exp, b: Exp) => b.value - a.value;
      return es.map((e, i) => ({ e, i })).sort((a, b) => cmp(a.e, b.e) || a.i - b.i).map(x => x.e);
    };
    const judge = (ns: any[], es: Exp[], parent: any, depth: number) => {
      eq(ns.length, es.length, 'nodes', () => `${label()}: number of nodes`);
      const ordered = order(es);
      const pad = (Array.isArray(o.padding) ? o.padding[depth] ?? 0 : o.padding ?? 0) * shrink;
      ns.forEach((n, i) => {
        const e = ordered[i];
        for (const kk of ['key', 'parentKey', 'depth', 'index', 'flattenIndex', 'value'] as const) eq(n[kk], (e as any)[kk], 'node:' + kk, () => `${label()}: ${kk} of node ${i} below ${parent.key}`);
        eq(!!n.isLeaf, e.leaf, 'node:isLeaf', () => `${label()}: isLeaf of ${e.key}`);
        eq(n.maxDepth, maxD, 'node:maxDepth', () => `${label()}: maxDepth of ${e.key}`);
        ok(n.datum.length === e.datum.length && n.datum.every((d: any, j: number) => d === e.datum[j]), 'node:datum', () => `${label()}: datum path of ${e.key}`);
        ok([n.x, n.y, n.radius].every(Number.isFinite) && n.radius >= 0, 'circle:finite', () => `${label()}: circle of ${e.key} is ${n.x},${n.y},${n.radius}`);
        if (e.leaf) {
          const r = o.setRadius ? Math.max(0, +o.setRadius(n) || 0) : Math.sqrt(e.value) * k;
          ok(Math.abs(n.radius - r) <= 1e-9 * S, 'circle:radius', () => `${label()}: radius of ${e.key} is ${n.radius}, expected ${r}`);
        }
        // contained with a margin
        const d = Math.hypot(n.x - parent.x, n.y - parent.y);
        ok(d + n.radius + pad <= parent.radius + tol, 'circle:contained', () => `${label()}: ${e.key} leaves its parent by ${d + n.radius + pad - parent.radius}`);
        ctx.compare();
      });
      let touching = ns.map(() => 0);
      for (let i = 0; i < ns.length; i++)
        for (let j = i + 1; j < ns.length; j++) {
          const d = Math.hypot(ns[i].x - ns[j].x, ns[i].y - ns[j].y) - ns[i].radius - ns[j].radius - pad;
          ok(d >= -tol, c.v[3] === 10000 ? `overlap:radii[${c.v}]unsorted:${ns[i].key}/${ns[j].key}` : 'circle:overlap', () => `${label()}: circles of ${ns[i].key} and ${ns[j].key} overlap by ${-d}`);
          if (d <= 4 * tol) touching[i]++, touching[j]++;
        }
      // the packing is tight: every circle touches its neighbours
      ns.forEach((n, i) => ok(touching[i] >= Math.min(ns.length - 1, 2), 'circle:loose', () => `${label()}: ${n.key} touches only ${touching[i]} of its siblings`));
      // the enclosing circle is the smallest one: its points of contact are in no open half-plane
      const contacts = ns.filter(n => Math.abs(Math.hypot(n.x - parent.x, n.y - parent.y) + n.radius + pad - parent.radius) <= 8 * tol);
      ok(contacts.length > 0, 'circle:enclose', () => `${label()}: no child touches ${parent.key}`);
      if (!contacts.some(n => Math.hypot(n.x - parent.x, n.y - parent.y) <= 1e-3 * S)) {
        const as = contacts.map(n => Math.atan2(n.y - parent.y, n.x - parent.x)).sort((a, b) => a - b);
        const gaps = as.map((a, i) => (i + 1 < as.length ? as[i + 1] - a : as[0] + 2 * Math.PI - a));
        ok(Math.max(...gaps) <= Math.PI + 0.02, 'circle:enclose', () => `${label()}: the circle around the children of ${parent.key} is not the smallest one`);
      }
      ctx.count('families');
      ns.forEach((n, i) => ordered[i].kids.length && judge(n.children, ordered[i].kids, n, depth + 1));
    };
    judge(kids, exp, root, 0);
    if (c.maxDepth !== undefined) {
      const d = c.maxDepth < 0 ? undefined : c.maxDepth;
      const rows: any[] = (circlePackingTransform as any)({ ...o, includeRoot: false, ...c.box, flatten: true, maxDepth: d }, data);
      const pre = (ns: any[]): any[] => ns.flatMap(n => [n, ...pre(n.children || [])]);
      const want = pre(kids).filter(n => d === undefined || n.depth <= d);
      eq(rows.map(n => [n.key, n.x, n.y, n.radius, !!n.isLeaf]), want.map(n => [n.key, n.x, n.y, n.radius, n.isLeaf || n.depth === d]), 'flatten', () => `${label()}: flattened rows`);
    }
  }
});

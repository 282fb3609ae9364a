// S01: sankey layout conserves flow and keeps links attached.
import { check, eq, ok, show, tuples, permutations, subsets } from '../lib/kit';
import { view, releaseAll } from '../lib/vg';
import { forests, leaves, inner, build } from '../lib/trees';
import { SankeyLayout, sankeyTransform, registerSankeyHighlight, formatNodeRect, formatLinkPolygon, formatLinkPath, getBoundsOfNodes } from '@visactor/vgrammar-sankey';

registerSankeyHighlight();
type L = { source: any; target: any; value?: any };
type C = { kind: 'net' | 'tree' | 'hi' | 'hitree'; links?: L[]; nodes?: any[]; tree?: any[]; o: any; box?: any };
const BOX = { width: 300, height: 200 };
const BOX2 = { x0: 410, x1: 110, y0: 20, y1: 170 };
const S = (a: any) => (isNaN(+a) || a === null || a === undefined ? 0 : +a);
const FN: Record<string, any> = {
  nw: (n: any) => 10 + 5 * n.sourceLinks.length,
  lw: (l: any) => 20 + 10 * l.value,
  lwbox: (l: any, b: any) => b.width / 10,
  nh: (n: any) => 3 + n.value,
  lh: (l: any, n: any, h: number) => h / 8,
  ng: (n: any) => 2 + n.value,
  layer: (d: any) => d && d.layer,
  key: (d: any) => 'k' + d.name,
  ls: (a: any, b: any) => b.value - a.value || a.index - b.index,
  ns: (a: any, b: any) => (a.key < b.key ? 1 : -1)
};
const resolve = (o: any) => {
  const r: any = {};
  for (const k of Object.keys(o)) if (o[k] !== undefined) r[k] = typeof o[k] === 'string' && o[k][0] === '$' ? FN[o[k].slice(1)] : o[k];
  return r;
};
const near = (a: number, b: number, e = 1e-6) => typeof a === 'number' && Math.abs(a - b) <= e;

/** all DAGs over nodes 0..n-1 with edges i<j without isolated nodes being required */
function* dags(n: number): Generator<[number, number][]> {
  const es: [number, number][] = [];
  for (let i = 0; i < n; i++) for (let j = i + 1; j < n; j++) es.push([i, j]);
  for (const s of subsets(es)) if (s.length) yield s;
}
const toLinks = (e: [number, number][], v: any[]): L[] => e.map(([i, j], k) => ({ source: 'n' + i, target: 'n' + j, value: v[k] }));

interface N { key: any; own: any; datum: any; out: any[]; in: any[]; value: number; depth: number; end: number; layer: number }
/** independent description of the network; links carry their final value */
function model(c: C, o: any) {
  const nodes: N[] = [];
  const map = new Map<any, N>();
  const add = (key: any, own: any, datum: any) => {
    const n: N = { key, own, datum, out: [], in: [], value: 0, depth: 0, end: 0, layer: 0 };
    map.set(String(key), n);
    nodes.push(n);
    return n;
  };
  const links: any[] = [];
  const keyOf = (d: any, i: any) => (typeof o.nodeKey === 'function' ? o.nodeKey(d) : o.nodeKey ? d[o.nodeKey] : i);
  if (c.kind === 'tree' || c.kind === 'hitree') {
    const value = (d: any): number => (d.value === undefined || d.value === null ? (d.children || []).reduce((a: number, k: any) => a + value(k), 0) : S(d.value));
    const rec = (d: any, i: number, depth: number, parents: N[]) => {
      const p = parents[parents.length - 1];
      const key = o.nodeKey ? keyOf(d, i) : p ? `${p.key}-${i}` : `${depth}-${i}`;
      let n = map.get(String(key));
      if (n) n.own = undefined;
      else n = add(key, value(d), d);
      if (p) {
        const l = links.find(x => x.source === p.key && x.target === key);
        const part = { value: value(d), parents: parents.map(x => x.key) };
        if (l) {
          l.value += value(d);
          l.parts.push(part);
        } else links.push({ source: p.key, target: key, value: value(d), parts: [part], parents: parents.map(x => x.key) });
      }
      (d.children || []).forEach((k: any, j: number) => rec(k, j, depth + 1, [...parents, n!]));
    };
    c.tree!.forEach((d, i) => rec(d, i, 0, []));
  } else {
    (c.nodes || []).forEach((d, i) => add(keyOf(d, i), d.value, d));
    c.links!.forEach((l, index) => {
      const s = l.source !== undefined && l.source !== null, t = l.target !== undefined && l.target !== null;
      if (c.nodes) {
        if (!map.has(String(l.source)) || !map.has(String(l.target))) return;
      } else {
        if (s && !map.has(String(l.source))) add(l.source, undefined, null);
        if (t && !map.has(String(l.target))) add(l.target, undefined, null);
      }
      links.push({ source: l.source, target: l.target, value: l.value, index, datum: l, s, t });
    });
  }
  for (const l of links) {
    const a = map.get(String(l.source)), b = map.get(String(l.target));
    if (l.s !== false && a) a.out.push(l);
    if (l.t !== false && b) b.in.push(l);
  }
  if (o.divideNodeValueToLink) {
    const bad = links.filter(l => l.value === undefined || l.value === null);
    for (const l of bad) {
      const share = (n: N | undefined, ls: any[]) => {
        if (!n || n.own === undefined || n.own === null) return Infinity;
        const open = ls.filter(x => x.value === undefined || x.value === null);
        return (n.own - ls.reduce((a, x) => a + (x.value === undefined || x.value === null ? 0 : x.value), 0)) / open.length;
      };
      const a = map.get(String(l.source)), b = map.get(String(l.target));
      const v = Math.min(share(a, a ? a.out : []), share(b, b ? b.in : []));
      if (v !== Infinity) l.value = v;
    }
  }
  const kept = o.dropIsolatedNode === false ? nodes : nodes.filter(n => n.out.length || n.in.length);
  for (const n of kept) n.value = Math.max(S(n.own), n.out.reduce((a, l) => a + S(l.value), 0), n.in.reduce((a, l) => a + S(l.value), 0));
  const at = (k: any, has: any) => (has === false ? undefined : map.get(String(k)));
  const depth = (n: N): number => Math.max(0, ...n.in.map(l => at(l.source, l.s)).filter(x => x).map(x => depth(x!) + 1));
  const end = (n: N): number => Math.max(0, ...n.out.map(l => at(l.target, l.t)).filter(x => x).map(x => end(x!) + 1));
  for (const n of kept) (n.depth = depth(n)), (n.end = end(n));
  let max = Math.max(-1, ...kept.map(n => n.depth)) + 1;
  if (o.setNodeLayer) {
    for (const n of kept) {
      const l = o.setNodeLayer(n.datum);
      if (l !== undefined && l !== null) n.depth = l;
    }
    max = Math.max(-1, ...kept.map(n => n.depth)) + 1;
    for (const n of kept) n.layer = Math.min(Math.max(Math.floor(n.depth), 0), max - 1);
  } else
    for (const n of kept) {
      const a = o.nodeAlign === undefined ? 'justify' : o.nodeAlign;
      if (c.kind === 'tree' || c.kind === 'hitree' || a === 'left' || a === 'start') n.layer = n.depth;
      else if (a === 'right' || a === 'end') n.layer = max - 1 - n.end;
      else if (a === 'justify') n.layer = n.out.length ? n.depth : max - 1;
      else n.layer = n.in.length ? n.depth : n.out.length ? Math.min(...n.out.map(l => (at(l.target, l.t) ? at(l.target, l.t)!.depth : n.depth + 1))) - 1 : 0;
    }
  return { nodes: kept, links, max, map };
}
/** layouts are judged in the horizontal orientation; dir turns them */
function turn(res: any, box: any, dir: string | undefined, inverse: boolean | undefined) {
  const v = dir === 'vertical' || dir === 'TB' || dir === 'BT';
  const W0 = 'width' in box ? 0 : Math.min(box.x0, box.x1), W1 = 'width' in box ? box.width : Math.max(box.x0, box.x1);
  const H0 = 'width' in box ? 0 : Math.min(box.y0, box.y1), H1 = 'width' in box ? box.height : Math.max(box.y0, box.y1);
  const vb = v ? { x0: H0, x1: H1, y0: W0, y1: W1 } : { x0: W0, x1: W1, y0: H0, y1: H1 };
  const mx = (x: number) => (inverse ? vb.x0 + vb.x1 - x : x);
  const rect = (r: any) => {
    const [a0, a1, b0, b1] = v ? [r.y0, r.y1, r.x0, r.x1] : [r.x0, r.x1, r.y0, r.y1];
    return inverse ? { x0: mx(a1), x1: mx(a0), y0: b0, y1: b1 } : { x0: a0, x1: a1, y0: b0, y1: b1 };
  };
  const line = (r: any) => (v ? { x0: mx(r.y0), x1: mx(r.y1), y0: r.x0, y1: r.x1 } : { x0: mx(r.x0), x1: mx(r.x1), y0: r.y0, y1: r.y1 });
  return { vb, v, node: (n: any) => ({ ...n, ...rect(n) }), link: (l: any) => ({ ...l, ...line(l), sourceRect: rect(l.sourceRect), targetRect: rect(l.targetRect) }) };
}

function judge(c: C, ctx: any) {
  const o = resolve(c.o);
  const box = c.box || BOX;
  const data: any = c.kind === 'tree' ? { nodes: c.tree } : c.nodes ? { nodes: c.nodes, links: c.links } : { links: c.links };
  const label = () => `${show(data, 500)} with ${show(c.o)}`;
  const before = JSON.stringify(data);
  const m = model(c, o);
  const run = () => new SankeyLayout(Object.keys(o).length ? o : undefined).layout(data, box) as any;
  ctx.step();
  const res = run();
  if (c.kind !== 'tree') eq(JSON.stringify(data), before, 'input', () => `${label()}: input changed`);
  if (!m.nodes.length) return eq(res, null, 'empty', label);
  eq(show(run(), 1e9), show(res, 1e9), 'deterministic', label);
  eq(show(sankeyTransform({ ...o, ...box }, c.links && c.links.length % 2 ? data : [data]), 1e9), show([res], 1e9), 'transform', label);
  ctx.state([c.links || c.tree, c.nodes, c.o]);
  // the layers which links without an end open up are not specified
  const open = m.links.some(l => l.s === false || l.t === false);
  // ---- nodes
  const tr = turn(res, box, c.o.direction, c.o.inverse);
  const H = tr.vb.y1 - tr.vb.y0, W = tr.vb.x1 - tr.vb.x0;
  const nodes = res.nodes.map(tr.node), links = res.links.map(tr.link);
  eq(nodes.map((n: any) => n.key), m.nodes.map(n => n.key), 'node keys', label);
  eq(nodes.map((n: any) => n.index), c.kind === 'tree' ? nodes.map((n: any) => n.index) : m.nodes.map(n => [...m.map.values()].indexOf(n)), 'node index', label);
  nodes.forEach((n: any, i: number) => {
    const e = m.nodes[i];
    const who = () => `${label()}: node ${n.key}`;
    ok(c.kind === 'tree' || n.datum === e.datum, 'node datum', who);
    ok(near(n.value, e.value), 'node value', () => `${who()} is ${n.value}, expected ${e.value}`);
    if (!open) {
      if (!o.setNodeLayer) eq(n.depth, e.depth, 'node depth', who);
      eq(n.layer, e.layer, 'node layer', who);
      eq(!!n.isLastLayer, e.layer === m.max - 1, 'last layer', who);
    }
    for (const k of ['x0', 'x1', 'y0', 'y1']) ok(Number.isFinite(n[k]), 'finite', () => `${who()}: ${k}=${n[k]}`);
  });
  const byKey = new Map<string, any>(nodes.map((n: any) => [String(n.key), n]));
  // ---- horizontal position
  const nw = o.nodeWidth === undefined ? 24 : o.nodeWidth;
  const cols: any[][] = [];
  for (const n of nodes) (cols[n.layer] = cols[n.layer] || []).push(n);
  const xs: number[] = [];
  const widths = (n: any) => (typeof nw === 'function' ? nw(n) : nw);
  if (typeof nw === 'string') {
    const ratio = Math.min(Math.max(parseFloat(nw) / 100, 0), 1);
    let step = m.max > 1 || ratio > 0 ? W / (m.max - 1 + ratio) : 0;
    if (o.minStepWidth > 0) step = Math.max(step, o.minStepWidth);
    for (let i = 0; i < m.max; i++) xs[i] = tr.vb.x0 + i * step;
    for (const n of nodes) ok(near(n.x1 - n.x0, step * ratio), 'node width', () => `${label()}: ${n.key} ${n.x0}..${n.x1}, expected width ${step * ratio}`);
  } else {
    let x = tr.vb.x0;
    for (let i = 0; i < m.max; i++) {
      xs[i] = x;
      if (typeof nw === 'number' && o.linkWidth === undefined) {
        let step = m.max > 1 ? (W - nw) / (m.max - 1) : nw;
        if (o.minStepWidth > 0) step = Math.max(step, o.minStepWidth);
        x += step;
      } else if (typeof nw === 'number' && typeof o.linkWidth === 'number') x += nw + o.linkWidth;
      else {
        const col = cols[i] || [];
        const outs = res.nodes.filter((n: any) => n.layer === i).flatMap((n: any) => m.map.get(String(n.key))!.out.map(l => ({ ...l, value: l.value })));
        const lw = Math.max(0, ...outs.map((l: any) => (typeof o.linkWidth === 'function' ? o.linkWidth(l, { width: W, height: H }) : o.linkWidth)));
        x += Math.max(0, ...col.map(widths)) + lw;
      }
    }
    for (const n of nodes) ok(near(n.x1 - n.x0, widths(n)), 'node width', () => `${label()}: ${n.key} ${n.x0}..${n.x1}, expected width ${widths(n)}`);
  }
  if (!open) for (const n of nodes) ok(near(n.x0, xs[n.layer]), 'node x', () => `${label()}: ${n.key} starts at ${n.x0}, expected ${xs[n.layer]} (layer ${n.layer} of ${m.max})`);
  // ---- vertical position
  const plain = o.minNodeHeight === undefined && o.maxNodeHeight === undefined && o.minLinkHeight === undefined && o.nodeHeight === undefined && !o.equalNodeHeight;
  const rows = Math.max(...cols.filter(x => x).map(x => x.length));
  const ng = o.nodeGap === undefined ? 8 : o.nodeGap;
  const gapOf = (n: any) => (typeof ng === 'function' ? ng(n) : Math.min(ng, H / rows));
  const gmin = Math.min(...nodes.map(gapOf));
  let ky = Infinity;
  for (const col of cols) {
    if (!col) continue;
    const sum = col.reduce((a, n) => a + n.value, 0);
    if (sum > 0) ky = Math.min(ky, (H - (typeof ng === 'function' ? col.reduce((a, n) => a + ng(n), 0) : (col.length - (o.gapPosition === 'start' ? 0 : 1)) * gmin)) / sum);
  }
  const wanted = (n: any) => (typeof o.nodeHeight === 'number' ? o.nodeHeight : o.nodeHeight ? o.nodeHeight(n) : o.equalNodeHeight && typeof ng === 'number' ? H / rows - gmin : n.value ? n.value * ky : 0);
  if (plain || o.nodeHeight !== undefined || o.equalNodeHeight)
    for (const n of nodes) {
      let h = wanted(n);
      if (!plain) h = Math.min(Math.max(h, o.minNodeHeight || 0, o.minLinkHeight || 0), o.maxNodeHeight === undefined ? Infinity : o.maxNodeHeight);
      if (plain || (o.minNodeHeight === undefined && o.minLinkHeight === undefined)) ok(near(n.y1 - n.y0, h), 'node height', () => `${label()}: ${n.key} ${n.y0}..${n.y1}, expected height ${h}`);
    }
  const minH = Math.max(o.minNodeHeight || 0, o.minLinkHeight || 0);
  for (const n of nodes) {
    if (o.maxNodeHeight !== undefined) ok(n.y1 - n.y0 <= o.maxNodeHeight + 1e-6, 'max height', () => `${label()}: ${n.key} ${n.y0}..${n.y1}`);
    if (minH && !(o.maxNodeHeight < minH) && minH + (typeof ng === 'number' ? ng : 0) <= H / rows) ok(n.y1 - n.y0 >= minH - 1e-6, 'min height', () => `${label()}: ${n.key} ${n.y0}..${n.y1}`);
  }
  cols.forEach((col, li) => {
    if (!col) return;
    const s = [...col].sort((a, b) => a.y0 - b.y0 || a.y1 - b.y1);
    const total = s.reduce((a, n) => a + n.y1 - n.y0, 0);
    const fits = total + (s.length - 1) * (plain ? gmin : 0) <= H + 1e-6;
    if (!fits) return;
    const where = () => `${label()}: layer ${li}: ${show(s.map(n => [n.key, n.y0, n.y1]), 400)}`;
    for (let i = 0; i < s.length; i++) {
      if (o.crossNodeAlign !== 'parent') ok(s[i].y0 >= tr.vb.y0 - 1e-3 && s[i].y1 <= tr.vb.y1 + 1e-3, 'inside view', where);
      if (i) {
        ok(s[i].y0 >= s[i - 1].y1 - 1e-4, 'disjoint', where);
        if (plain && typeof ng === 'number') ok(s[i].y0 >= s[i - 1].y1 + gmin - 1e-3, 'gap', where);
      }
    }
    const ly = res.columns && res.columns[li];
    eq((ly || []).map((n: any) => n.key).sort(), col.map(n => n.key).sort(), 'columns', where);
    if (o.nodeSortBy) {
      const keys = s.filter(n => n.y1 > n.y0).map(n => n.key);
      eq(keys, [...s.filter(n => n.y1 > n.y0)].sort(o.nodeSortBy).map(n => n.key), 'node sort', where);
    }
    // alignment is visible before any relaxation
    if (plain && (o.iterations === 0 || c.kind === 'tree') && (o.gapPosition === undefined || o.gapPosition === 'middle') && typeof ng === 'number') {
      const rest = H - total - (s.length - 1) * gmin;
      const a = o.crossNodeAlign || 'middle';
      const e = a === 'start' ? tr.vb.y0 : a === 'end' ? tr.vb.y0 + rest : a === 'middle' ? tr.vb.y0 + rest / (s.length + 1) : NaN;
      if (a !== 'parent') ok(near(s[0].y0, e, 1e-4), 'cross align', () => `${where()}: starts at ${s[0].y0}, expected ${e}`);
    }
  });
  // ---- links
  const vis = m.links.filter(l => l.s !== false && l.t !== false);
  eq(links.map((l: any) => [l.source, l.target]), vis.map(l => [l.source, l.target]), 'links', label);
  links.forEach((l: any, i: number) => {
    const e = vis[i];
    const s = byKey.get(String(l.source)), t = byKey.get(String(l.target));
    const who = () => `${label()}: link ${l.source}->${l.target} (${l.x0},${l.y0})-(${l.x1},${l.y1}) thickness ${l.thickness}; source ${show([s.x0, s.x1, s.y0, s.y1])} target ${show([t.x0, t.x1, t.y0, t.y1])}`;
    ok(e.value === l.value || near(S(l.value), S(e.value)), 'link value', () => `${who()}: ${l.value}, expected ${e.value}`);
    if (c.kind === 'tree') {
      eq(l.key, `${l.source}-${l.target}`, 'link key', who);
      eq(l.parents, e.parents, 'link parents', who);
      eq(l.datum.map((d: any) => [d.source, d.target, d.value, d.parents.map((p: any) => p.key)]), e.parts.map((p: any) => [l.source, l.target, p.value, p.parents]), 'link parts', who);
    } else {
      ok(l.datum === e.datum, 'link datum', who);
      eq(l.index, e.index, 'link index', who);
    }
    if (!o.setNodeLayer) ok(s.layer < t.layer, 'source before target', who);
    for (const k of ['x0', 'x1', 'y0', 'y1', 'thickness']) ok(Number.isFinite(l[k]), 'finite link', who);
    ok(near(l.x0, s.x1) && near(l.x1, t.x0), 'attached', who);
    eq([l.sourceRect, l.targetRect], [{ x0: s.x0, x1: s.x1, y0: s.y0, y1: s.y1 }, { x0: t.x0, x1: t.x1, y0: t.y0, y1: t.y1 }], 'rects', who);
    eq(!!l.vertical, tr.v, 'vertical', who);
    // thickness
    const h = wanted(s);
    let th: number;
    if (typeof o.linkHeight === 'number') th = o.linkHeight;
    else if (o.linkHeight) th = o.linkHeight(l, s, h);
    else {
      th = s.value ? h * Math.min(1, Math.max(0, S(l.value) / s.value)) : 0;
      const max = Math.min(o.maxLinkHeight === undefined ? Infinity : o.maxLinkHeight, o.maxNodeHeight === undefined ? Infinity : o.maxNodeHeight);
      if (!plain || o.maxLinkHeight !== undefined) th = Math.min(Math.max(th, o.minLinkHeight || 0), max);
    }
    if (plain || ((o.nodeHeight !== undefined || o.equalNodeHeight) && !minH)) ok(near(l.thickness, th), 'thickness', () => `${who()}: expected ${th}`);
    if (o.minLinkHeight && o.linkHeight === undefined) ok(l.thickness >= Math.min(o.minLinkHeight, o.maxLinkHeight === undefined ? Infinity : o.maxLinkHeight) - 1e-6, 'min thickness', who);
    if (o.maxLinkHeight && o.linkHeight === undefined) ok(l.thickness <= o.maxLinkHeight + 1e-6, 'max thickness', who);
    if (l.thickness <= s.y1 - s.y0 + 1e-6) ok(l.y0 - l.thickness / 2 >= s.y0 - 1e-4 && l.y0 + l.thickness / 2 <= s.y1 + 1e-4, 'at source', who);
    if (l.thickness <= t.y1 - t.y0 + 1e-6) ok(l.y1 - l.thickness / 2 >= t.y0 - 1e-4 && l.y1 + l.thickness / 2 <= t.y1 + 1e-4, 'at target', who);
  });
  // ---- links of one side tile the node
  for (const n of res.nodes) {
    const N0 = byKey.get(String(n.key));
    for (const side of ['sourceLinks', 'targetLinks'] as const) {
      const y = side === 'sourceLinks' ? 'y0' : 'y1';
      const raw = n[side];
      const ls = raw.map(tr.link);
      const e = m.nodes.find(x => x.key === n.key)!;
      eq(raw.map((l: any) => [l.source, l.target]).map(String).sort(), (side === 'sourceLinks' ? e.out : e.in).filter(l => l.s !== false && l.t !== false).map(l => String([l.source, l.target])).sort(), 'links of node', () => `${label()}: ${n.key}.${side}`);
      for (const l of raw) ok(res.links.includes(l), 'same link', () => `${label()}: ${n.key}.${side}`);
      const where = () => `${label()}: ${side} of ${n.key} ${N0.y0}..${N0.y1}: ${show(ls.map((l: any) => [l.source, l.target, l[y], l.thickness]), 400)}`;
      if (o.linkOverlap) {
        for (const l of ls) {
          const at = o.linkOverlap === 'start' ? N0.y0 + l.thickness / 2 : o.linkOverlap === 'end' ? N0.y1 - l.thickness / 2 : (N0.y0 + N0.y1) / 2;
          ok(near(l[y], at), 'overlap position', where);
        }
        continue;
      }
      if (o.linkSortBy) eq(raw.map((l: any) => l.index), [...raw].sort(o.linkSortBy).map((l: any) => l.index), 'link sort', where);
      const all = (side === 'sourceLinks' ? e.out : e.in).every(l => l.s !== false && l.t !== false);
      const total = ls.reduce((a: number, l: any) => a + l.thickness, 0);
      if (total > N0.y1 - N0.y0 + 1e-6) continue;
      const s = [...ls].sort((a, b) => a[y] - b[y] || a.thickness - b.thickness);
      let edge = N0.y0;
      for (const l of s) {
        const a = l[y] - l.thickness / 2;
        ok(all ? near(a, edge, 1e-4) : a >= edge - 1e-4, 'links disjoint', where);
        edge = a + l.thickness;
      }
    }
  }
  // ---- graphic attributes
  if (c.kind === 'net' && (c.links!.length === 2 || o.direction)) {
    const B = getBoundsOfNodes(res.nodes);
    const X0 = Math.min(...res.nodes.map((n: any) => n.x0)), X1 = Math.max(...res.nodes.map((n: any) => n.x1)), Y0 = Math.min(...res.nodes.map((n: any) => n.y0)), Y1 = Math.max(...res.nodes.map((n: any) => n.y1));
    eq(B, { x0: X0, x1: X1, y0: Y0, y1: Y1, width: X1 - X0, height: Y1 - Y0 }, 'bounds', label);
    formatNodeRect(res.nodes).forEach((r: any, i: number) => eq([r.x, r.y, r.width, r.height, r.key], [res.nodes[i].x0, res.nodes[i].y0, res.nodes[i].x1 - res.nodes[i].x0, res.nodes[i].y1 - res.nodes[i].y0, res.nodes[i].key], 'node rect', label));
    const corners = (l: any) => {
      const h = l.thickness / 2;
      return tr.v
        ? [[l.x0 - h, l.y0], [l.x1 - h, l.y1], [l.x1 + h, l.y1], [l.x0 + h, l.y0]]
        : [[l.x0, l.y0 - h], [l.x1, l.y1 - h], [l.x1, l.y1 + h], [l.x0, l.y0 + h]];
    };
    formatLinkPolygon(res.links).forEach((p: any, i: number) => eq(p.points.map((q: any) => [q.x, q.y]), corners(res.links[i]), 'link polygon', label));
    for (const round of [false, true]) formatLinkPath(res.links, round).forEach((p: any, i: number) => {
      const l = res.links[i];
      const num = (p.path.match(/-?[\d.]+(e-?\d+)?/g) || []).map(Number);
      const r = (x: number) => (round ? Math.round(x) : x);
      const k = corners(l);
      const mid = tr.v ? r((l.y0 + l.y1) / 2) : r((l.x0 + l.x1) / 2);
      const c2 = (a: number[], b: number[]) => (tr.v ? [r(a[0]), mid, r(b[0]), mid, r(b[0]), r(b[1])] : [mid, r(a[1]), mid, r(b[1]), r(b[0]), r(b[1])]);
      eq(num, [r(k[0][0]), r(k[0][1]), ...c2(k[0], k[1]), r(k[2][0]), r(k[2][1]), ...c2(k[2], k[3])], 'link path', () => `${label()}: ${p.path}`);
      eq(p.path.replace(/[-\d.e,\s]+/g, ''), 'MCLCZ', 'link path', () => p.path);
    });
  }
}

/** highlighting through a real view */
function highlight(c: C, ctx: any) {
  const o = resolve(c.o);
  const isTree = c.kind === 'hitree';
  const data: any = isTree ? { nodes: c.tree } : c.nodes ? { nodes: c.nodes, links: c.links } : { links: c.links };
  const res: any = new SankeyLayout({ nodeKey: o.nodeKey, dropIsolatedNode: false } as any).layout(JSON.parse(JSON.stringify(data)), BOX);
  const v = view({
    data: [{ id: 'N', values: res.nodes }, { id: 'L', values: res.links }],
    marks: [
      { type: 'polygon', id: 'link', name: 'link', from: { data: 'L' }, key: (d: any) => `${d.source}>${d.target}`, encode: { update: { points: (d: any) => (formatLinkPolygon([d])[0] as any).points }, hl: { fill: 'red' }, dim: { fill: 'gray' } } },
      { type: 'rect', id: 'node', name: 'node', from: { data: 'N' }, key: 'key', encode: { update: { x: (d: any) => d.x0, y: (d: any) => d.y0, width: 5, height: 5 }, hl: { fill: 'red' }, dim: { fill: 'gray' } } },
      { type: 'rect', id: 'other', encode: { update: { x: 0, y: 0, width: 5, height: 5 } } }
    ],
    interactions: [{ type: 'sankey-highlight', nodeSelector: '#node', linkSelector: '#link', highlightState: 'hl', blurState: 'dim', trigger: 'over', triggerOff: 'out', effect: c.o.effect || 'related' }]
  });
  const m = model(c, o);
  const nodeEls = v.getMarkById('node').elements, linkEls = v.getMarkById('link').elements, other = v.getMarkById('other').elements;
  const label = () => `${show(data, 400)} with ${show(c.o)}`;
  const expected = (el: any) => {
    const isNode = el.mark.id() === 'node';
    const d = el.getDatum();
    const links = new Map<string, number>();
    const nodes = new Set<string>(isNode ? [String(d.key)] : [String(d.source), String(d.target)]);
    const id = (l: any) => `${l.source}>${l.target}`;
    if (c.o.effect === 'adjacency' || (!isTree && !isNode)) {
      for (const l of m.links) if (isNode ? l.source === d.key || l.target === d.key : id(l) === id(d)) links.set(id(l), 1);
    } else if (!isTree) {
      const down = (k: any) => m.links.forEach(l => { if (l.source === k && !links.has('d' + id(l))) { links.set('d' + id(l), 1); down(l.target); } });
      const up = (k: any) => m.links.forEach(l => { if (l.target === k && !links.has('u' + id(l))) { links.set('u' + id(l), 1); up(l.source); } });
      down(d.key);
      up(d.key);
      for (const k of [...links.keys()]) (links.delete(k), links.set(k.slice(1), 1));
    } else {
      // a link belongs to the paths through the hovered node or link with the part of its value that runs along them
      const pathsOf = m.links.flatMap(l => l.parts.map((p: any) => ({ link: l, chain: [...p.parents, l.target], value: p.value })));
      const through = (chain: any[]) => (isNode ? chain.includes(d.key) : chain.some((k, i) => k === d.source && chain[i + 1] === d.target));
      for (const l of m.links) {
        const own = pathsOf.filter(p => p.link === l);
        if (!isNode && id(l) === id(d)) { links.set(id(l), 1); continue; }
        const below = own.filter(p => { const ch = p.chain.slice(0, -1); return ch.includes(isNode ? d.key : d.target); });
        if (below.length) { links.set(id(l), below.reduce((a, p) => a + p.value, 0) / l.value); continue; }
        const upper = pathsOf.filter(p => (isNode ? p.chain[p.chain.length - 1] === d.key : id(p.link) === id(d)) && p.chain.slice(0, -1).some((k, i) => k === l.source && p.chain[i + 1] === l.target) && p.link !== l || (isNode && p.link === l && l.target === d.key));
        if (upper.length) links.set(id(l), upper.reduce((a, p) => a + p.value, 0) / l.value);
      }
    }
    for (const l of m.links) if (links.has(id(l))) (nodes.add(String(l.source)), nodes.add(String(l.target)));
    return { links, nodes };
  };
  const states = () => JSON.stringify([...nodeEls, ...linkEls].map((e: any) => e.getStates()));
  const verify = (el: any | null, hist: () => string) => {
    const e = el && expected(el);
    for (const n of nodeEls) eq(n.getStates(), e ? [e.nodes.has(String(n.getDatum().key)) ? 'hl' : 'dim'] : [], 'node states', () => `${label()}: ${hist()}: node ${n.getDatum().key}`);
    for (const l of linkEls) {
      const d = l.getDatum();
      const r = e && e.links.get(`${d.source}>${d.target}`);
      eq(l.getStates(), e ? [r !== undefined ? 'hl' : 'dim'] : [], 'link states', () => `${label()}: ${hist()}: link ${d.source}->${d.target}`);
      if (r !== undefined && e && r > 0) {
        const at = l.getStateAttrs('hl');
        ok(at && near(at.ratio, r), 'highlight ratio', () => `${label()}: ${hist()}: link ${d.source}->${d.target} ratio ${at && at.ratio}, expected ${r}`);
      }
    }
  };
  const all = [...nodeEls, ...linkEls];
  const name = (e: any) => `${e.mark.id()}[${e.key}]`;
  for (const a of all) {
    ctx.step();
    v.emit('over', { element: a });
    verify(a, () => `over ${name(a)}`);
    v.emit('out', { element: a });
    verify(null, () => `over, out ${name(a)}`);
    for (const b of all) {
      if (a === b) continue;
      ctx.step();
      ctx.state([c.links || c.tree, c.o, a.key, b.key, states()]);
      v.emit('over', { element: a });
      v.emit('over', { element: b });
      verify(b, () => `over ${name(a)}, over ${name(b)}`);
      v.emit('out', { element: a });
      verify(b, () => `over ${name(a)}, over ${name(b)}, out ${name(a)}`);
      v.emit('over', { element: other[0] });
      v.emit('over', {});
      v.emit('out', {});
      v.emit('out', { element: other[0] });
      verify(b, () => `over ${name(a)}, over ${name(b)}, over and out elsewhere`);
      v.emit('out', { element: b });
      verify(null, () => `over ${name(a)}, over ${name(b)}, out ${name(b)}`);
    }
  }
  v.emit('over', { element: all[0] });
  v.removeInteraction('sankey-highlight');
  const left = states();
  v.emit('over', { element: all[all.length - 1] });
  eq(states(), left, 'unbound', label);
  releaseAll();
}

const OPTS: any[] = [
  { direction: 'vertical' }, { inverse: true }, { direction: 'vertical', inverse: true }, { direction: 'horizontal' }, { nodeAlign: 'center', direction: 'vertical', inverse: true, iterations: 0 },
  { nodeGap: 0 }, { nodeGap: 40 }, { nodeGap: 500 }, { nodeGap: '$ng' }, { nodeGap: '$ng', iterations: 3 },
  { nodeWidth: 5 }, { nodeWidth: '20%' }, { nodeWidth: '0%' }, { nodeWidth: '100%' }, { nodeWidth: '50%', minStepWidth: 150 }, { minStepWidth: 250 }, { nodeWidth: 10, linkWidth: 30 }, { nodeWidth: '$nw', linkWidth: 25 }, { nodeWidth: '$nw', linkWidth: '$lw' }, { nodeWidth: 12, linkWidth: '$lw' }, { nodeWidth: 12, linkWidth: '$lwbox', direction: 'vertical' },
  { nodeHeight: 10 }, { nodeHeight: '$nh' }, { nodeHeight: 10, linkHeight: 2 }, { linkHeight: 2 }, { linkHeight: '$lh' }, { nodeHeight: 12, linkHeight: '$lh' }, { equalNodeHeight: true }, { equalNodeHeight: true, nodeGap: 30 },
  { minNodeHeight: 20 }, { minNodeHeight: 5, nodeGap: 0 }, { minLinkHeight: 6 }, { minLinkHeight: 3, minNodeHeight: 10 }, { maxNodeHeight: 30 }, { maxLinkHeight: 4 }, { maxNodeHeight: 50, maxLinkHeight: 60 }, { minNodeHeight: 80 }, { minNodeHeight: 3000 }, { maxNodeHeight: 20, minNodeHeight: 10, minLinkHeight: 2, maxLinkHeight: 6 },
  { crossNodeAlign: 'start', iterations: 0 }, { crossNodeAlign: 'end', iterations: 0 }, { crossNodeAlign: 'middle', iterations: 0 }, { crossNodeAlign: 'parent', iterations: 0 }, { crossNodeAlign: 'end' }, { crossNodeAlign: 'parent' },
  { gapPosition: 'start' }, { gapPosition: 'end', iterations: 0 }, { gapPosition: 'start', crossNodeAlign: 'end', iterations: 0 },
  { linkOverlap: 'start' }, { linkOverlap: 'center' }, { linkOverlap: 'end', direction: 'vertical' }, { linkSortBy: '$ls' }, { nodeSortBy: '$ns' }, { nodeSortBy: '$ns', linkSortBy: '$ls', nodeAlign: 'left' }, { iterations: 1 }, { iterations: 30 }
];

check<C>({
  id: 'S01',
  level: 'model_checking',
  rule:
    'all acyclic networks of 4 nodes x values {1,3} x 6 alignments x {0,6} iterations, of 5 nodes x alignments (thorough: values {1,3}), all orders of their links, node lists (orders, own values, unknown and isolated nodes, odd names, layers), links without value/source/target, 55 option sets (directions, gaps, widths, heights, limits, sorts, overlap), hierarchies of <=5 nodes; ' +
    'values, depths, layers, widths, heights, disjointness, attachment and tiling compared with their definition; all pairs of highlight events on the elements of all 4-node networks and hierarchies of <=5 nodes',
  *cases(ctx) {
    const T = ctx.thorough;
    const aligns = ['left', 'right', 'center', 'justify', 'start', 'end'];
    for (const e of dags(4)) for (const v of tuples([1, 3], e.length)) for (const nodeAlign of aligns) for (const iterations of [6, 0]) yield { kind: 'net', links: toLinks(e, v), o: { nodeAlign, iterations } };
    for (const e of dags(5)) for (const v of T ? tuples([1, 3], e.length) : [e.map((_, i) => 1 + ((i * i) % 3))]) for (const nodeAlign of T ? ['justify', 'center'] : ['justify', 'center', 'right']) yield { kind: 'net', links: toLinks(e, v), o: { nodeAlign } };
    // orders of links
    for (const e of dags(4)) if (e.length > 1 && e.length <= (T ? 6 : 4)) for (const p of permutations(toLinks(e, [1, 3, 2, 5, 4, 6]))) yield { kind: 'net', links: p, o: {}, box: BOX2 };
    // options
    for (const o of OPTS) for (const e of dags(4)) for (const v of e.length <= (T ? 6 : 3) ? tuples([1, 4], e.length) : [e.map((_, i) => 1 + ((i * i) % 3))]) yield { kind: 'net', links: toLinks(e, v), o, box: e.length % 2 ? BOX2 : BOX };
    if (T) for (const a of OPTS) for (const b of OPTS) if (a !== b && !Object.keys(a).some(k => k in b)) for (const e of dags(4)) if (e.length === 4) yield { kind: 'net', links: toLinks(e, [3, 1, 2, 5]), o: { ...a, ...b }, box: BOX2 };
    // values
    for (const e of dags(3)) for (const v of tuples([undefined, null, 0, 2, '3', NaN], e.length)) yield { kind: 'net', links: toLinks(e, v), o: {} };
    for (const e of dags(4)) if (e.length <= 4) for (const v of tuples([0, 0.001, 1000], e.length)) yield { kind: 'net', links: toLinks(e, v), o: {} };
    // node lists
    const names = (ns: any[]) => ns.map(name => ({ name }));
    for (const e of dags(4)) for (const p of permutations([0, 1, 2, 3])) yield { kind: 'net', nodes: names(p.map(i => 'n' + i)), links: toLinks(e, [2, 1, 3, 1, 2, 1]), o: { nodeKey: 'name', dropIsolatedNode: e.length % 2 === 0 } };
    for (const e of dags(3)) for (const own of tuples([undefined, null, 0, 1, 7], 3)) for (const d of [undefined, false]) yield { kind: 'net', nodes: own.map((value, i) => (value === undefined ? { name: 'n' + i } : { name: 'n' + i, value })), links: toLinks(e, [2, 1, 3]), o: { nodeKey: 'name', dropIsolatedNode: d } };
    for (const e of dags(3)) for (const own of tuples([undefined, 4, 7], 3)) for (const v of tuples([undefined, 1, 2], e.length)) yield { kind: 'net', nodes: own.map((value, i) => (value === undefined ? { name: 'n' + i } : { name: 'n' + i, value })), links: toLinks(e, v), o: { nodeKey: 'name', divideNodeValueToLink: true } };
    for (const e of dags(4)) yield { kind: 'net', nodes: names(['0', '1', '2', 'x']), links: e.map(([i, j], k) => ({ source: 'k' + i, target: 'k' + j, value: k + 1 })), o: { nodeKey: '$key' } };
    for (const e of dags(4)) yield { kind: 'net', nodes: names(['a', 'b', 'c', 'd']), links: e.map(([i, j], k) => ({ source: i, target: j, value: k + 1 })), o: {} };
    for (const layers of tuples([undefined, 0, 1, 2, 5], 3)) for (const e of dags(3)) if (layers.every((_, i) => e.some(([a, b]) => a === i || b === i))) yield { kind: 'net', nodes: layers.map((layer, i) => ({ name: 'n' + i, layer })), links: toLinks(e, [2, 1, 3]), o: { nodeKey: 'name', setNodeLayer: '$layer', nodeSortBy: layers[0] === 5 ? '$ns' : undefined } };
    const odd = ['constructor', '__proto__', '', 'toString', 0, 1.5, 'a-b'];
    for (let i = 0; i < odd.length; i++) for (let j = 0; j < odd.length; j++) for (let k = 0; k < odd.length; k++) if (i < j && j < k) yield { kind: 'net', links: [{ source: odd[i], target: odd[j], value: 1 }, { source: odd[j], target: odd[k], value: 2 }, { source: odd[i], target: odd[k], value: 2 }], o: {} };
    // open links
    for (const e of dags(3)) for (const m of tuples([0, 1, 2], e.length)) yield { kind: 'net', links: toLinks(e, [2, 1, 3]).map((l, i) => (m[i] === 1 ? { ...l, source: undefined } : m[i] === 2 ? { ...l, target: undefined } : l)), o: {} };
    // hierarchies
    for (let n = 1; n <= (T ? 6 : 5); n++) for (const f of forests(n, 5)) for (const v of tuples([1, 3], leaves(f))) for (const o of [{}, { direction: 'vertical', inverse: true }, { crossNodeAlign: 'start', nodeGap: 2 }, { nodeKey: 'name', crossNodeAlign: 'end' }, { linkSortBy: '$ls' }]) yield { kind: 'tree', tree: build(f, v), o: n > 4 && !T && 'nodeKey' in o ? {} : o };
    for (let n = 2; n <= 4; n++) for (const f of forests(n, 4)) { const k = inner(f); if (k) for (const own of tuples([undefined, 2, 9], k)) for (const v of tuples([undefined, 0, 3], leaves(f))) yield { kind: 'tree', tree: build(f, v, own), o: { dropIsolatedNode: false } }; }
    // the same node on several paths
    for (const a of tuples(['x', 'y'], 4)) for (const v of tuples([1, 2], 4)) yield { kind: 'tree', tree: shared(a, v), o: { nodeKey: 'name' } };
    // highlighting
    for (const effect of ['related', 'adjacency', undefined]) for (const e of dags(4)) if (T || e.length <= 4) yield { kind: 'hi', nodes: names(['n0', 'n1', 'n2', 'n3']), links: toLinks(e, [1, 2, 3, 1, 2, 1]), o: { nodeKey: 'name', effect } };
    for (const effect of ['related', 'adjacency']) for (let n = 2; n <= (T ? 6 : 5); n++) for (const f of forests(n, 5)) if (inner(f)) yield { kind: 'hitree', tree: build(f, [1, 2, 3, 4, 5]), o: { effect, nodeKey: n % 2 ? 'name' : undefined } };
    for (const effect of ['related', 'adjacency']) for (const a of tuples(['x', 'y'], 4)) yield { kind: 'hitree', tree: shared(a, [1, 2, 3, 4]), o: { nodeKey: 'name', effect } };
  },
  nontrivial: c => (c.links || c.tree)!.length > 1,
  run(c, ctx) {
    if (c.kind === 'hi' || c.kind === 'hitree') highlight(c, ctx);
    else judge(c, ctx);
  }
});
function shared(a: string[], v: number[]) {
  return [
    { name: 'A', children: [{ name: a[0], children: [{ name: 'z' + a[1], value: v[0] }, { name: 'w', value: v[1] }] }] },
    { name: 'B', children: [{ name: a[2], children: [{ name: 'z' + a[3], value: v[2] }] }, { name: 'v', value: v[3] }] }
  ];
}

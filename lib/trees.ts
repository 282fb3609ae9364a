// Enumeration of ordered forests for the hierarchy checks.
import { tuples } from './kit';
export type Shape = Shape[]; // a node is the list of its children
/** all ordered forests with exactly n nodes */
const memo: Record<string, Shape[][]> = {};
export function forests(n: number, depth = 9): Shape[][] {
  if (n === 0) return [[]];
  if (depth === 0) return [];
  const key = n + '/' + depth;
  if (memo[key]) return memo[key];
  const res: Shape[][] = [];
  for (let k = 1; k <= n; k++) for (const kids of forests(k - 1, depth - 1)) for (const rest of forests(n - k, depth)) res.push([kids, ...rest]);
  return (memo[key] = res);
}
export const leaves = (f: Shape[]): number => f.reduce((s, t) => s + (t.length ? leaves(t) : 1), 0);
export const inner = (f: Shape[]): number => f.reduce((s, t) => s + (t.length ? 1 + inner(t) : 0), 0);
/** the datum tree of a forest; values go to the leaves in order, own[i] to the i-th inner node (preorder) */
export function build(f: Shape[], values: any[], own: any[] = [], field = 'value'): any[] {
  let li = 0, ii = 0, id = 0;
  const rec = (t: Shape): any => {
    const d: any = { name: 'n' + id++ };
    if (t.length) {
      const o = own[ii++];
      if (o !== undefined) d[field] = o;
      d.children = t.map(rec);
    } else {
      const v = values[li++];
      if (v !== undefined) d[field] = v;
    }
    return d;
  };
  return f.map(rec);
}
export function* valued(n: number, alphabet: any[], depth = 9): Generator<{ f: Shape[]; v: any[] }> {
  for (const f of forests(n, depth)) for (const v of tuples(alphabet, leaves(f))) yield { f, v };
}
/** value of a datum by definition: a leaf its own value, an inner node the larger of its own value and the sum of its children */
export function valueOf(d: any, field = 'value'): number {
  const own = d[field];
  const n = own === undefined || own === null || isNaN(+own) ? 0 : +own;
  if (!d.children || !d.children.length) return n;
  const s = d.children.reduce((a: number, c: any) => a + valueOf(c, field), 0);
  return own === undefined || own === null ? s : Math.max(s, n);
}
export interface Exp {
  key: string;
  parentKey?: string;
  depth: number;
  index: number;
  flattenIndex: number;
  value: number;
  datum: any[];
  leaf: boolean;
  kids: Exp[];
}
/** the complete expected description of the nodes of a forest */
export function describe(data: any[], field = 'value', key?: (d: any) => any): Exp[] {
  let fi = -1;
  const rec = (d: any, index: number, depth: number, parent?: Exp): Exp => {
    const e: Exp = {
      key: key ? key(d) : `${parent ? parent.key : ''}-${index}`,
      parentKey: parent && parent.key,
      depth,
      index,
      flattenIndex: ++fi,
      value: valueOf(d, field),
      datum: parent ? [...parent.datum, d] : [d],
      leaf: !(d.children && d.children.length),
      kids: []
    };
    e.kids = (d.children || []).map((c: any, i: number) => rec(c, i, depth + 1, e));
    return e;
  };
  return data.map((d, i) => rec(d, i, 0));
}
export const flat = (es: Exp[]): Exp[] => es.flatMap(e => [e, ...flat(e.kids)]);

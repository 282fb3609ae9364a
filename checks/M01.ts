// M01: data join. Sequences of data sets (and key/group/sort changes) on a real mark against a 40-line model of the join.
import { newView, releaseAll } from '../lib/vg';
import { check, eq, ok, fail, sequences, tuples, show, product } from '../lib/kit';

// a row is written <key><group>; its payload is unique
type Cfg = { type: 'symbol' | 'rect' | 'text' | 'line' | 'area'; key: 0 | 1 | 2; group: 0 | 1; sort: 0 | 1 | 2; gsort?: 0 | 1; nested?: 0 | 1; rowsKept?: 0 | 1 };
type Case = { cfg: Cfg; ops: string[] };
// ops: 'T:<rows>' set table + run; 'M:<rows>|<rows>' first table during the layout pass, second one after it, run; 'P' parameter change + run;
//      'C<key><group><sort>' join() with another configuration + run; 'S:' same rows, mutated payload; 'E:<rows>' set without run
const IDS = ['a', 'b', 'c'];

class Model {
  els = new Map<string, { id: number; rows: any[]; born: number }>();
  order: string[] = [];
  next = 0;
}

const keyOf = (cfg: Cfg, r: any, idx: number) => (cfg.key === 0 ? idx : cfg.key === 1 ? r.k : `${r.k}/${r.g}`);
const collection = (cfg: Cfg) => cfg.type === 'line' || cfg.type === 'area';

check<Case>({
  id: 'M01',
  level: 'model_checking',
  rule:
    'every sequence of up to three data sets drawn from all tables with at most two (first steps: three) rows over keys x groups, changed with and without a layout pass in between, parameter changes, ' +
    'in-place changed rows and join() reconfigurations, for every combination of mark type, key, groupBy, sort and groupSort; after each evaluation elements, their rows, keys, identity, graphics, status and the exact set of encoder calls are compared with a model',
  *cases(ctx) {
    const letters = ['ax', 'bx', 'ay', 'by', 'cx'];
    const tables = (n: number, ls = letters) => {
      const out: string[] = [];
      for (let k = 0; k <= n; k++) for (const t of tuples(ls, k)) out.push(t.join(','));
      return out;
    };
    const small = tables(2, ['ax', 'bx', 'ay']);
    const cfgs: Cfg[] = [];
    for (const [type, key, group, sort] of product(['symbol', 'line'] as Cfg['type'][], [0, 1, 2] as Cfg['key'][], [0, 1] as Cfg['group'][], [0, 1, 2] as Cfg['sort'][])) {
      cfgs.push({ type, key, group, sort });
      if (type === 'line') cfgs.push({ type, key, group, sort, gsort: 1 });
    }
    // pairs of all tables
    for (const cfg of cfgs)
      for (const a of ctx.thorough ? tables(3) : tables(2)) for (const b of ctx.thorough ? tables(2) : small) yield { cfg, ops: ['T:' + a, 'T:' + b] };
    // permutations and removals in the middle of three-key tables, up to depth 3
    const perms = ['ax,bx,cx', 'cx,ax,bx', 'cx,bx', 'bx', '', 'ax,ay,bx', 'by,ax', 'cy,ax,bx'];
    for (const cfg of cfgs) for (const s of sequences(perms.map(t => 'T:' + t), ctx.thorough ? 4 : 3, 3)) yield { cfg, ops: s };
    // other operations in between
    const mixed = ['T:ax,bx', 'T:bx,cx', 'T:', 'M:ax,cx|bx', 'M:bx|ax,bx', 'M:|ax', 'P', 'S', 'E:cx', 'C100', 'C110', 'C002'];
    for (const cfg of [
      { type: 'symbol', key: 1, group: 0, sort: 0, nested: 1 },
      { type: 'symbol', key: 1, group: 1, sort: 1, nested: 1 },
      { type: 'rect', key: 0, group: 0, sort: 2, nested: 1 },
      { type: 'line', key: 1, group: 1, sort: 0, nested: 1 },
      { type: 'text', key: 1, group: 1, sort: 0, rowsKept: 1, nested: 1 },
      { type: 'area', key: 0, group: 0, sort: 0, gsort: 1, nested: 1 }
    ] as Cfg[]) {
      for (const s of sequences(mixed, ctx.thorough ? 5 : 3, 1)) if (s[0][0] === 'T' || s[0][0] === 'M') yield { cfg, ops: s };
    }
    // keys and groups which are empty, zero or false
    for (const cfg of cfgs)
      for (const a of tables(2, ['0_', 'a_', '_x'])) for (const b of ['', 'ax', 'a_', '0x,_x']) yield { cfg, ops: ['T:' + a, 'T:' + a, 'T:' + b, 'T:' + a] };
    // keys which are only distinct together with their group
    for (const type of ['symbol', 'rect'] as Cfg['type'][])
      for (const a of tables(2, ['p-q~r', 'r~p-q', 'p~q-r', 'q-r~p'])) for (const b of ['', 'p-q~r,p~q-r', 'p~q-r']) yield { cfg: { type, key: 1, group: 1, sort: 0 }, ops: ['T:' + a, 'T:' + b] };
  },
  nontrivial: c => c.ops.length > 1,
  run(c, ctx) {
    try {
      let cfg: Cfg = { ...c.cfg };
      const v = newView();
      const param = v.signal(0);
      param.id('p');
      const data = v.data([]);
      data.id('d');
      const group = c.cfg.nested ? v.group(v.rootMark).id('g').encode({ width: 50, height: 50 }) : null;
      const mark = v.mark(cfg.type, group ?? v.rootMark);
      mark.id('m');
      let mid: (() => void) | null = null;
      if (group) group.layout(() => { const f = mid; mid = null; f && f(); });
      const sorts = [undefined, (a: any, b: any) => first(a).v - first(b).v, (a: any, b: any) => first(b).v - first(a).v];
      const first = (d: any) => (Array.isArray(d) ? d[0] ?? { v: -1 } : d);
      const doJoin = () =>
        mark.join(
          data,
          cfg.key === 0 ? undefined : cfg.key === 1 ? 'k' : (r: any) => `${r.k}/${r.g}`,
          sorts[cfg.sort],
          cfg.group ? 'g' : undefined,
          cfg.gsort ? (a: any, b: any) => b.v - a.v : undefined
        );
      doJoin();
      let calls: { ch: string; el: any; row: any }[] = [];
      const log = (ch: string, f: (r: any) => any) => (row: any, el: any) => {
        calls.push({ ch, el, row });
        return f(row);
      };
      mark.encodeState('enter', { lineWidth: log('enter', r => r.v) });
      mark.encodeState('update', { x: log('update', r => r.v * 2), y: { field: 'v' }, fill: { signal: 'p' } });
      mark.encodeState('exit', { opacity: log('exit', () => 0) });
      let version = 0;
      let rows: any[] = [];
      const kept: Record<string, any> = {};
      const parse = (t: string) => {
        version++;
        return t === ''
          ? []
          : t.split(',').map((s, i) => {
              const [k, g] = s.includes('~') ? s.split('~') : [...s].map(x => (x === '_' ? '' : x === '0' ? (0 as any) : x));
              // payload: not monotone in the position, no ties
              const v = version * 10 + [5, 1, 7, 3][i];
              if (c.cfg.rowsKept) {
                const id = k + g + t.split(',').slice(0, i).filter(x => x === s).length;
                kept[id] = kept[id] ?? { k, g };
                kept[id].v = v;
                return kept[id];
              }
              return { k, g, v };
            });
      };
      const m = new Model();
      const real = new Map<number, { el: any; gi: any }>();
      let evals = 0;
      /** model of one evaluation of the join over `rows`, relative to the last rendered state `m` */
      const grouped = (rs: any[]) => {
        const out = new Map<string, any[]>();
        rs.forEach((r, i) => {
          const gk = cfg.group ? r.g : 'key';
          // an element belongs to one (group, key) pair
          const id = collection(cfg) ? JSON.stringify([gk]) : JSON.stringify([gk, keyOf(cfg, r, i)]);
          if (!out.has(id)) out.set(id, []);
          out.get(id).push(r);
        });
        if (cfg.gsort && collection(cfg)) out.forEach((l, k) => out.set(k, l.slice().sort((a, b) => b.v - a.v)));
        return out;
      };
      const evaluateModel = (rs: any[]) => {
        const g = grouped(rs);
        const status = new Map<string, 'enter' | 'update'>();
        const els = new Map<string, { id: number; rows: any[]; born: number }>();
        g.forEach((list, id) => {
          const prev = m.els.get(id);
          status.set(id, prev ? 'update' : 'enter');
          els.set(id, { id: prev ? prev.id : m.next++, rows: list, born: prev ? prev.born : evals });
        });
        let order = [...els.keys()];
        if (cfg.sort) order = order.map((id, i) => ({ id, i, d: els.get(id).rows[0] })).sort((a, b) => sorts[cfg.sort](a.d, b.d) || a.i - b.i).map(o => o.id);
        return { els, status, order };
      };
      const checkEval = (expectStatus: boolean) => {
        eq(data.output().map((r: any) => r.v), rows.map(r => r.v), 'data-order', 'rows of the joined data after the evaluation');
        const { els, status, order } = evaluateModel(rows);
        const actual = mark.elements as any[];
        ctx.compare();
        ok(actual.length === order.length, 'element-count', () => `elements ${show(actual.map(e => [e.key, e.groupKey]))}, expected ${show(order)}`);
        order.forEach((id, i) => {
          const e = els.get(id);
          const el = actual[i];
          const what = `element #${i} ${id}`;
          eq(el.data.map((r: any) => r.v), e.rows.map((r: any) => r.v), 'rows-of-element', `${what} rows`);
          ok(el.data.every((r: any, j: number) => r === e.rows[j]), 'rows-of-element', `${what} does not carry the rows themselves`);
          eq(el.items.length, e.rows.length, 'items-of-element', `${what} items`);
          const [gk, k] = JSON.parse(id);
          eq(el.groupKey, gk, 'group-key', `${what} groupKey`);
          if (!collection(cfg)) eq(el.key, k, 'element-key', `${what} key`);
          ok(el.mark === mark, 'element-mark', what);
          const gi = el.getGraphicItem();
          ok(gi, 'no-graphic', `${what} has no graphic`);
          const known = real.get(e.id);
          if (known) {
            ok(known.el === el, 'identity-lost', `${what} was re-created although its key was present before`);
            ok(known.gi === gi, 'graphic-lost', `${what} changed its graphic`);
          } else {
            for (const [, o] of real) ok(o.el !== el && o.gi !== gi, 'identity-shared', `${what} shares element or graphic with another key`);
            real.set(e.id, { el, gi });
          }
          if (expectStatus) eq(el.diffState, status.get(id), 'status', `${what} status`);
          if (!collection(cfg)) {
            eq([gi.attribute.x, gi.attribute.y], [e.rows[0].v * 2, e.rows[0].v], 'update-channels', `${what} update channels`);
            eq(gi.attribute.fill, param.output(), 'update-channels', `${what} fill`);
          } else {
            eq((gi.attribute.points ?? []).map((p: any) => [p.x, p.y]), e.rows.map((r: any) => [r.v * 2, r.v]), 'points', `${what} points`);
          }
        });
        const live = [...real].filter(([id]) => [...els.values()].some(e => e.id === id));
        for (const [id, o] of [...real]) {
          if (live.some(l => l[0] === id)) continue;
          ok(o.el.getGraphicItem() == null && o.gi.parent == null && o.gi.stage == null, 'exit-not-removed', 'an element whose key is gone still has a graphic on the stage');
          real.delete(id);
        }
        const kids = mark.graphicItem.children;
        ok(kids.length === order.length && new Set(kids).size === kids.length, 'stale-graphic', () => `the mark has ${kids.length} graphics for ${order.length} elements`);
        eq(mark.elementMap.size, order.length, 'element-map', 'size of the element map');
        const st = [...new Set(actual)];
        eq(st.length, actual.length, 'duplicate-element', 'elements are distinct');
        // calls
        if (expectStatus) {
          const want: string[] = [];
          order.forEach(id => {
            const e = els.get(id);
            // first-row-only encoding of collection marks applies to the channels other than points
            const list = e.rows;
            list.forEach((r, i) => {
              const enter = status.get(id) === 'enter' || (collection(cfg) && true);
              if (enter && (!collection(cfg) || i === 0)) want.push(`enter:${r.v}`);
              want.push(`update:${r.v}`);
            });
          });
          const got = calls.filter(x => !(collection(cfg) && x.ch === 'enter')).map(x => `${x.ch}:${x.row.v}`).sort();
          eq(got, want.filter(x => !(collection(cfg) && x.startsWith('enter'))).sort(), 'encoder-calls', 'encoder calls (channel group : row)');
          if (collection(cfg)) {
            const en = new Set(calls.filter(x => x.ch === 'enter').map(x => x.row.v));
            order.forEach(id => ok(en.has(els.get(id).rows[0].v), 'encoder-calls', `enter channels of collection element ${id} not evaluated`));
          }
          calls.forEach(x => ok(x.el && [...els.values()].some(e => real.get(e.id).el === x.el && e.rows.includes(x.row)), 'encoder-args', `encoder ${x.ch} called with an element which does not own the row`));
        }
        m.els = els;
        m.order = order;
        evals++;
        ctx.state([cfg, order.map(id => [id, els.get(id).id, els.get(id).rows.length, status.get(id)])]);
      };
      let first0 = true;
      let dirty = false;
      for (const op of c.ops) {
        ctx.trace(op);
        ctx.step();
        calls = [];
        let reEval = true;
        if (op[0] === 'T') {
          rows = parse(op.slice(2));
          data.values(rows);
        } else if (op[0] === 'E') {
          rows = parse(op.slice(2));
          data.values(rows);
          dirty = true;
          continue;
        } else if (op[0] === 'M') {
          const [a, b] = op.slice(2).split('|');
          const r1 = parse(a);
          data.values(r1);
          rows = parse(b);
          v.updateLayoutTag();
          mid = () => data.values(rows);
        } else if (op === 'P') param.value(param.output() + 1);
        else if (op === 'S') {
          rows.forEach(r => (r.v += 100));
          data.values(rows.slice());
        } else if (op[0] === 'C') {
          cfg = { ...cfg, key: +op[1] as any, group: +op[2] as any, sort: +op[3] as any };
          // join() is a new configuration: what was joined under the old key is matched by its key string
          doJoin();
        }
        v.run();
        if (op[0] === 'C' && reEval) {
          // identities across a change of the key rule are not part of the property: re-learn them
          const { els } = evaluateModel(rows);
          const byId = new Map<string, any>();
          (mark.elements as any[]).forEach(el => byId.set(JSON.stringify(collection(cfg) ? [el.groupKey] : [el.groupKey, el.key]), el));
          const live = new Set(byId.values());
          for (const [id, o] of [...real]) {
            if (!live.has(o.el)) ok(o.gi.parent == null, 'exit-not-removed', 'element of the old key rule still on the stage');
            real.delete(id);
          }
          els.forEach((e, id) => {
            const el = byId.get(id);
            ok(el, 'element-count', `no element for ${id} after join()`);
            real.set(e.id, { el, gi: el.getGraphicItem() });
          });
          m.els = els;
          calls = [];
          param.value(param.output() + 1);
          v.run();
        }
        if (first0 && op === 'P') fail('harness', 'bad case');
        first0 = false;
        const mids = op[0] === 'M';
        if (mids) {
          ok(mid === null, 'harness', 'layout callback did not run');
        }
        void dirty;
        checkEval(!mids);
        dirty = false;
      }
    } finally {
      releaseAll();
    }
  }
});

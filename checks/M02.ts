// M02: encoding. Every channel form on every channel group, over histories of data / signal / scale / encoding changes, against a model of the composition.
import { view, releaseAll } from '../lib/vg';
import { check, eq, ok, sequences, show } from '../lib/kit';

type World = { s: number; dmax: number; bands: string[]; rows: any[] };
const ROWS: Record<string, any[]> = {
  D1: [{ k: 'a', g: 'x', v: 2, n: { w: 7 } }, { k: 'b', g: 'y', v: 8, n: { w: 0 } }],
  D2: [{ k: 'b', g: 'y', v: 5, n: { w: 1 } }, { k: 'c', g: 'x', v: 0, n: { w: 4 } }, { k: 'a', g: 'x', v: 3, n: { w: 2 } }],
  D3: [{ k: 'c', g: 'y', v: 10, n: { w: 9 } }],
  D0: []
};
const lin = (w: World, v: number) => (v / w.dmax) * 100;
const step = (w: World) => 60 / w.bands.length;
const band = (w: World, k: string) => w.bands.indexOf(k) * step(w);
const COLORS = ['red', 'green', 'blue', 'black'];
// form -> [spec, value of a row]
const FORMS: Record<string, [(v: any) => any, (r: any, w: World) => any]> = {
  c5: [() => 5, () => 5],
  c0: [() => 0, () => 0],
  f: [() => ({ field: 'v' }), r => r.v],
  fn: [() => ({ field: 'n.w' }), r => r.n.w],
  F: [() => (d: any, el: any, p: any) => d.v * 10 + (el.mark ? 1 : 0) + (p === undefined ? 1000 : 0), r => r.v * 10 + 1],
  sg: [() => ({ signal: 's' }), (r, w) => w.s],
  sgi: [v => ({ signal: v.getSignalById('s') }), (r, w) => w.s],
  cb: [() => ({ callback: (d: any, el: any, p: any) => d.v + p.s * 100, dependency: ['s'] }), (r, w) => r.v + w.s * 100],
  sf: [() => ({ scale: 'lin', field: 'v' }), (r, w) => lin(w, r.v)],
  sv: [() => ({ scale: 'lin', value: 4 }), (r, w) => lin(w, 4)],
  sv0: [() => ({ scale: 'lin', value: 0, offset: 6 }), () => 6],
  sfo: [() => ({ scale: 'lin', field: 'v', offset: -3 }), (r, w) => lin(w, r.v) - 3],
  sn: [() => ({ scale: 'lin', offset: 9 }), () => 9],
  bf: [() => ({ scale: 'band', field: 'k' }), (r, w) => band(w, r.k)],
  bfb: [() => ({ scale: 'band', field: 'k', band: 0.5 }), (r, w) => band(w, r.k) + step(w) / 2],
  bfo: [() => ({ scale: 'band', field: 'k', band: 1, offset: 2 }), (r, w) => band(w, r.k) + step(w) + 2],
  b0: [() => ({ scale: 'band', field: 'k', band: 0 }), (r, w) => band(w, r.k)],
  bn: [() => ({ scale: 'band', band: 0.25, offset: 1 }), (r, w) => step(w) / 4 + 1],
  bv: [() => ({ scale: 'band', value: 'b', band: 0.5 }), (r, w) => band(w, 'b') + step(w) / 2],
  si: [v => ({ scale: v.getScaleById('lin'), field: 'n.w', offset: 1 }), (r, w) => lin(w, r.n.w) + 1],
  lb: [() => ({ scale: 'lin', field: 'v', band: 0.5 }), (r, w) => lin(w, r.v)],
  o: [() => ({ scale: 'ord', field: 'k' }), (r, w) => COLORS[['a', 'b', 'c'].indexOf(r.k)]]
};
const CH = { pos: 'x', style: 'lineWidth', custom: 'myChannel' } as const;
type Kind = keyof typeof CH;
type Case = { type: string; ch: Kind; enter: string | null; update: string | null; group?: string | null; ops: string[] };

check<Case>({
  id: 'M02',
  level: 'model_checking',
  rule:
    'all pairs of enter/update channel forms (constant, field, nested field, function, signal by id and instance, callback with dependencies, scale with field/value/offset/band, ordinal, scale instance) x mark types x position/style/custom channels, each through a history of ' +
    'data, signal, scale-domain and encoding changes; all histories (to the depth) of such changes and encode()/encodeState() calls incl. clear and function encoders; group channels; attributes of every element compared with a model of the composition after each evaluation',
  *cases(ctx) {
    const names = Object.keys(FORMS);
    const hist = ['s', 'D2', 'dom', 'bdom', 'D3', 's', 'D1', 're'];
    const types = ctx.thorough ? ['symbol', 'rect', 'text', 'rule', 'path', 'arc', 'image', 'group', 'polygon', 'line', 'area'] : ['symbol', 'rect', 'text', 'rule', 'line', 'area'];
    for (const type of types)
      for (const ch of Object.keys(CH) as Kind[])
        for (const e of [null, ...names]) for (const u of [null, ...names]) {
          if (ch === 'pos' && (e === 'o' || u === 'o' || type === 'rule')) continue;
          if (type === 'group' && ch === 'style') continue;
          yield { type, ch, enter: e, update: u, ops: hist };
        }
    const ops = ['D1', 'D2', 'D0', 's', 'dom', 'bdom', 'u:sf', 'u:cb', 'u:c0', 'c:F', 'c:bfb', 'e:sg', 'fn', 'fnd', 'noop'];
    for (const type of ['symbol', 'line']) for (const s of sequences(ops, ctx.thorough ? 4 : 3, 2)) yield { type, ch: 'pos', enter: 'f', update: 'sg', ops: s };
    for (const g of ['c5', 'f', 'sf', 'cb', 'F', 'bfb'])
      for (const type of ['symbol', 'rect', 'line', 'area']) for (const u of [null, 'f', 'cb'])
        for (const s of sequences(['D2', 'D3', 's', 'dom', 'D1'], ctx.thorough ? 3 : 2, 1)) yield { type, ch: 'style', enter: null, update: type === 'line' || type === 'area' ? null : u, group: g, ops: s };
  },
  run(c, ctx) {
    try {
      const w: World = { s: 3, dmax: 10, bands: ['a', 'b', 'c'], rows: ROWS.D1 };
      const ch = CH[c.ch];
      const coll = c.type === 'line' || c.type === 'area';
      const copy = (n: string) => ROWS[n].map(r => ({ ...r, n: { ...r.n } }));
      const v = view(
        {
          padding: 0,
          signals: [{ id: 's', value: 3 }],
          data: [{ id: 'd', values: copy('D1') }],
          scales: [
            { id: 'lin', type: 'linear', domain: [0, 10], range: [0, 100] },
            { id: 'band', type: 'band', domain: ['a', 'b', 'c'], range: [0, 60] },
            { id: 'ord', type: 'ordinal', domain: ['a', 'b', 'c'], range: COLORS }
          ],
          marks: []
        },
        {},
        false
      );
      const enc: any = { enter: {} as Record<string, string>, update: {} as Record<string, string | { whole: string }> };
      if (c.enter) enc.enter[ch] = c.enter;
      if (c.update) enc.update[ch] = c.update;
      // collections always have positions
      if (ch !== 'x') enc.update.x = 'f';
      else if (coll && !c.enter && !c.update) return;
      enc.update.y = 'fn';
      const toSpec = (g: any) => Object.fromEntries(Object.entries(g).map(([k, f]) => [k, FORMS[f as string][0](v)]));
      const mark = v.mark(c.type, v.rootMark);
      mark.join('d', 'k', undefined, c.group ? 'g' : undefined);
      if (Object.keys(enc.enter).length) mark.encodeState('enter', toSpec(enc.enter));
      mark.encode(toSpec(enc.update));
      if (c.group) mark.encodeState('group', { [ch]: FORMS[c.group][0](v) });
      v.run();
      // --- model: attributes per element key
      let whole: string | null = null;
      let model = new Map<string, any>();
      let reenter = false;
      const ev = (form: string, r: any) => FORMS[form][1](r, w);
      const evaluate = (changed: boolean) => {
        if (!changed) return;
        const next = new Map<string, any>();
        const apply = (a: any, g: any, r: any) => Object.keys(g).forEach(k => (a[k] = ev(g[k], r)));
        if (!coll) {
          const groupVal: any = {};
          w.rows.forEach(r => {
            // the group channels are evaluated with the first row of the group
            if (c.group && !(r.g in groupVal)) groupVal[r.g] = ev(c.group, r);
          });
          w.rows.forEach(r => {
            const old = model.get(r.k);
            const a = { ...(old || {}) };
            if (c.group) a[ch] = groupVal[r.g];
            if (!old || reenter) apply(a, enc.enter, r);
            if (whole) a.x = ev(whole, r);
            else apply(a, enc.update, r);
            next.set(r.k, a);
          });
        } else {
          const groups = new Map<string, any[]>();
          w.rows.forEach(r => {
            const k = c.group ? r.g : 'key';
            groups.set(k, [...(groups.get(k) || []), r]);
          });
          groups.forEach((rs, k) => {
            const a: any = { ...(model.get(k) || {}), points: rs.map(() => ({})) };
            rs.forEach((r, i) => {
              const one: any = {};
              apply(one, enc.enter, r);
              if (whole) one.x = ev(whole, r);
              else apply(one, enc.update, r);
              a.points[i] = { x: one.x, y: one.y };
              if (i === 0) Object.keys(one).forEach(q => q !== 'x' && q !== 'y' && (a[q] = one[q]));
            });
            if (c.group) a[ch] = ev(c.group, rs[0]);
            next.set(k, a);
          });
        }
        model = next;
        reenter = false;
      };
      const compare = (what: string) => {
        const els = mark.elements as any[];
        eq(els.map(e => (coll ? e.groupKey : e.key)), [...model.keys()], 'elements', what + ': elements');
        els.forEach(e => {
          const m = model.get(coll ? e.groupKey : e.key);
          const at = e.getGraphicItem().attribute;
          const id = `${what}: ${c.type} ${coll ? e.groupKey : e.key}`;
          ctx.compare();
          if (coll) {
            const pts = (at.points ?? []).map((p: any) => ({ x: p.x, y: p.y }));
            if (whole) eq(pts.map((p: any) => p.x), m.points.map((p: any) => p.x), 'points', `${id} points`);
            else eq(pts, m.points, 'points', `${id} points`);
            if (ch !== 'x') eq(at[ch], m[ch], 'style-channel', `${id} ${ch}`);
          } else {
            const got = c.type === 'rule' && ch !== ('x' as any) ? { [ch]: at[ch] } : { x: at.x, y: at.y, [ch]: at[ch] };
            const want: any = {};
            Object.keys(got).forEach(k => (want[k] = m[k]));
            eq(got, want, 'attributes', `${id} attributes`);
          }
        });
        ctx.state([c.type, ch, enc, whole, w.s, w.dmax, w.bands.length, [...model]]);
      };
      evaluate(true);
      compare('initially');
      let gen = 0;
      for (const op of c.ops) {
        ctx.step();
        gen++;
        let changed = true;
        if (/^D\d$/.test(op)) {
          w.rows = ROWS[op];
          v.getDataById('d').values(copy(op));
        } else if (op === 's') {
          w.s += 1;
          v.getSignalById('s').value(w.s);
        } else if (op === 'dom') {
          w.dmax = w.dmax === 10 ? 20 : 10;
          v.getScaleById('lin').domain([0, w.dmax]);
        } else if (op === 'bdom') {
          w.bands = w.bands.length === 3 ? ['b', 'a', 'c', 'd'] : ['a', 'b', 'c'];
          v.getScaleById('band').domain(w.bands.slice());
        } else if (op === 're') {
          // the same enter encoding again: re-entered
          mark.encodeState('enter', toSpec(enc.enter));
          reenter = true;
        } else if (op[1] === ':') {
          const f = op.slice(2);
          if (op[0] === 'u') {
            if (whole) enc.update = {};
            whole = null;
            enc.update = { ...enc.update, [ch]: f };
            mark.encode(ch, FORMS[f][0](v));
            if (!enc.update.y) {
              enc.update.y = 'fn';
              mark.encode({ y: FORMS.fn[0](v) });
            }
          } else if (op[0] === 'c') {
            whole = null;
            enc.update = { [ch]: f, y: 'fn' };
            mark.encode(toSpec(enc.update), true);
          } else {
            enc.enter[ch] = f;
            mark.encodeState('enter', ch, FORMS[f][0](v));
            reenter = true;
          }
        } else if (op === 'fn') {
          whole = 'F';
          mark.encode((d: any, el: any, p: any) => ({ x: FORMS.F[0](v)(d, el, p) }));
        } else if (op === 'fnd') {
          whole = 'cb';
          mark.encode({ callback: (d: any, el: any, p: any) => ({ x: d.v + p.s * 100 }), dependency: ['s'] } as any);
        } else changed = false;
        // a grammar which is not used leaves the mark alone: enter channels of a collection are then not evaluated either, which gives the same values
        v.run();
        if (changed) {
          const used = /^D/.test(op) || op === 're' || op[1] === ':' || op.startsWith('fn') || usesGrammar(op, enc, whole, c.group);
          if (used) evaluate(true);
        }
        compare(`after ${c.ops.slice(0, gen).join(',')}`);
      }
    } finally {
      releaseAll();
    }
  }
});
function usesGrammar(op: string, enc: any, whole: string | null, group: string | null | undefined): boolean {
  const forms = [...Object.values(enc.enter), ...(whole ? [whole] : Object.values(enc.update)), ...(group ? [group] : [])] as string[];
  const uses: Record<string, string[]> = {
    s: ['sg', 'sgi', 'cb'],
    dom: ['sf', 'sv', 'sv0', 'sfo', 'sn', 'si', 'lb'],
    bdom: ['bf', 'bfb', 'bfo', 'b0', 'bn', 'bv']
  };
  return forms.some(f => uses[op]?.includes(f));
}

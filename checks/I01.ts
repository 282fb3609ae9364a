// I01: highlight, select and active interactions against event histories.
import { newView, releaseAll, vtime } from '../lib/vg';
import { fire } from '../lib/events';
import { check, eq, tuples } from '../lib/kit';
import { LegendEvent } from '@visactor/vrender-components';

type Cfg = { type: string; [k: string]: any };
type Case = { its: Cfg[]; enc: string[]; ops: string[]; end?: boolean };

const S = { h: 'highlight', b: 'blur', s: 'selected', r: 'unselected', a: 'active', f: 'focus' } as Record<string, string>;
/** rows by mark: key, group, field, graphic name */
const ROWS: Record<string, any[]> = {
  A: [{ k: 'k0', g: 'g0', f: 1 }, { k: 'k1', g: 'g1', f: 2 }],
  B: [{ k: 'k0', g: 'g1', f: 1 }, { k: 'k2', g: 'g0', f: 2 }],
  C: [{ k: 'k0', g: 'g0', f: 1 }]
};
const NAMES: Record<string, string | undefined> = { A0: 'n0', A1: 'n1', B0: 'n0', B1: undefined, C0: 'n0' };
type El = { id: string; mark: string; k: string; g: string; f: number; n?: string };
const ELS: El[] = Object.keys(ROWS).flatMap(m => ROWS[m].map((r, i) => ({ id: m + i, mark: m, ...r, n: NAMES[m + i] })));
const el = (id: string) => ELS.find(e => e.id === id) || null;
const IN = (e: El | null) => !!e && e.mark !== 'C';
/** what the text marks L0, L1 show: the group g0, the key k1 */
const LABELS: Record<string, { name: string; text: string }> = { L0: { name: 'lbl', text: 'g0' }, L1: { name: 'lbl', text: 'k1' }, L2: { name: 'other', text: 'g1' } };

interface Model {
  /** returns the notifications */
  on(type: string, target: string): string[];
  tick(ms: number): string[];
  start(arg: string): string[];
  reset(arg?: string): string[];
  shown(e: El): string[];
}
const none = (): string[] => [];

function highlight(cfg: Cfg, enc: Record<string, string>): Model {
  const view = (cfg.triggerOff || '').startsWith('view:');
  const off = (cfg.triggerOff || 'pointerout').replace('view:', '');
  let last: El | null = null;
  const hs = S.h;
  const bs = cfg.blurState === undefined ? S.b : cfg.blurState;
  const reset = () => {
    if (!last) return [];
    const n = [`reset ${last.id}`];
    last = null;
    return n;
  };
  const start = (e: El | null) => {
    if (!IN(e)) return view ? reset() : [];
    if (e === last) return [];
    last = e;
    return [`start ${e!.id}`];
  };
  return {
    on(type, t) {
      const e = el(t);
      const out: string[] = [];
      if (type === (cfg.trigger || 'pointerover')) out.push(...start(e));
      if (type === off && (view ? !IN(e) : IN(e))) out.push(...reset());
      return out;
    },
    tick: none,
    start: t => start(el(t)),
    reset: t => (!t || (last && last.id === t) ? reset() : []),
    shown: e => (!last || !IN(e) ? [] : e === last ? (enc[e.mark].includes('h') ? [hs] : []) : bs && enc[e.mark].includes('b') ? [bs] : [])
  };
}
function select(cfg: Cfg, enc: Record<string, string>): Model {
  const offs: any[] = cfg.triggerOff === undefined ? [] : Array.isArray(cfg.triggerOff) ? cfg.triggerOff : [cfg.triggerOff];
  const evs = offs.filter(o => typeof o === 'string' && o !== 'empty' && o !== 'none');
  const view = offs.some(o => o === 'empty' || (typeof o === 'string' && o.startsWith('view:')));
  const self = evs.some(o => !o.startsWith('view:'));
  const wait = offs.find(o => typeof o === 'number');
  let set: El[] = [];
  let due = Infinity;
  let now = 0;
  const reset = () => {
    if (!set.length) return [];
    const n = [`reset ${set.map(e => e.id).sort()}`];
    set = [];
    return n;
  };
  const start = (e: El | null): string[] => {
    if (cfg.type === 'element-select-by-graphic-name' && e && !e.n) return [];
    if (!IN(e)) return view ? reset() : [];
    const related = cfg.type === 'element-select' ? [e!] : ELS.filter(x => IN(x) && x.n === e!.n);
    if (set.includes(e!)) {
      if (!self) return [];
      const left = set.filter(x => !related.includes(x));
      if (!left.length) return reset();
      set = left;
      return [];
    }
    set = cfg.isMultiple ? [...set, ...related] : related;
    if (wait !== undefined) due = now + wait;
    return [`start ${set.map(x => x.id).sort()}`];
  };
  return {
    on(type, t) {
      const e = el(t);
      const trigger = cfg.trigger || 'click';
      if (type === trigger) return start(e);
      if (evs.some(o => o.replace('view:', '') === type)) {
        if (!IN(e) ? view : self) return reset();
      }
      return [];
    },
    tick(ms) {
      now += ms;
      if (now >= due) {
        due = Infinity;
        return reset();
      }
      return [];
    },
    start: t => start(el(t)),
    reset(t) {
      if (!t) return reset();
      const e = el(t)!;
      if (!set.includes(e)) return [];
      if (set.length === 1) return reset();
      set = set.filter(x => x !== e);
      return [];
    },
    shown: e =>
      !set.length || !IN(e) ? [] : set.includes(e) ? (enc[e.mark].includes('s') ? [S.s] : []) : cfg.reverseState && enc[e.mark].includes('r') ? [S.r] : []
  };
}
function active(cfg: Cfg): Model {
  const on = new Set<El>();
  let last: El | null = null;
  const reset = (e: El | null): string[] => {
    const x = e || last;
    if (x) on.delete(x);
    return [];
  };
  const start = (e: El | null): string[] => {
    if (IN(e)) {
      on.add(e!);
      last = e;
    }
    return [];
  };
  return {
    on(type, t) {
      if (type === (cfg.trigger || 'pointerover')) start(el(t));
      if (type === (cfg.triggerOff || 'pointerout')) reset(el(t));
      return [];
    },
    tick: none,
    start: t => start(el(t)),
    reset: t => reset(t ? el(t) : null),
    shown: e => (on.has(e) ? [cfg.state || S.a] : [])
  };
}
/** all elements of the marks which match a value are highlighted, the others blurred */
function matching(cfg: Cfg): Model {
  let by: { field: string; value: any } | null = null;
  const field = cfg.type.endsWith('by-key') ? 'k' : cfg.type.endsWith('by-group') ? 'g' : cfg.type.endsWith('by-graphic-name') ? 'n' : cfg.filterField ? cfg.filterField : cfg.filterType === 'key' ? 'k' : 'g';
  const legend = cfg.type.endsWith('legend');
  const byName = cfg.type.endsWith('by-name');
  const isActive = cfg.type.startsWith('element-active');
  const set = (value: any) => {
    if (value !== undefined && value !== null) by = { field, value };
    return [];
  };
  return {
    on(type, t) {
      if (legend) {
        if (type === LegendEvent.legendItemHover) set(t);
        if (type === LegendEvent.legendItemUnHover) by = null;
      } else if (byName) {
        const l = LABELS[t];
        const counts = cfg.withStart ? !!l && l.text !== 'k1' : !!l && [].concat(cfg.graphicName).includes(l.name as never);
        if (type === 'pointerover' && counts) set(cfg.withParse ? 'g1' : l.text);
        const off = cfg.withReset ? t === '-' : !!l && [].concat(cfg.graphicName).includes(l.name as never);
        if (type === 'pointerout' && off) by = null;
      } else {
        const e = el(t);
        if (type === (cfg.trigger || 'pointerover') && IN(e)) set((e as any)[field]);
        if (type === (cfg.triggerOff || 'pointerout') && IN(e)) by = null;
      }
      return [];
    },
    tick: none,
    start: t => set(legend || byName ? t : cfg.type.endsWith('graphic-name') ? t : (IN(el(t)) && (el(t) as any)[field]) || null),
    reset: () => ((by = null), []),
    shown: e => (!by || !IN(e) ? [] : (e as any)[by.field] === by.value ? [isActive ? S.a : S.h] : isActive ? [] : [S.b])
  };
}
const model = (cfg: Cfg, enc: Record<string, string>) =>
  cfg.type === 'element-highlight' ? highlight(cfg, enc) : /^element-select/.test(cfg.type) ? select(cfg, enc) : cfg.type === 'element-active' ? active(cfg) : matching(cfg);

const T = ['A0', 'A1', 'B0', 'C0', '-'];
const evs = (types: string[], targets = T) => types.flatMap(t => targets.map(x => t + ':' + x));
const ENC = ['hbsr', 'hs', 'br', ''];

check<Case>({
  id: 'I01',
  level: 'model_checking',
  rule:
    'every sequence of events of the length (triggering, resetting and unrelated events on every element of two marks in the selector, on an element outside the selector and on the blank area; programmatic starts and resets; waiting below and beyond timeouts; removal of the interaction) for every configuration: highlight (reset by elements, by the blank area and by view events), select (single and multiple, with reversed states, toggling, reset by events, by the blank area, by time and mixtures of them), active, and highlight / active / select by key, group, name, graphic name and legend item, with all combinations of states which the marks define, alone and combined: ' +
    'after every event the states of every element and the notifications are those determined by the history',
  assumptions: ['elements added while an interaction is on are judged after the next reset only', 'select interactions reset by different events for the view and for elements are not judged'],
  *cases(ctx) {
    const X = ctx.thorough ? 1 : 0;
    const hev = evs(['pointerover', 'pointerout']);
    for (const a of ENC)
      for (const b of ENC)
        if (X || a === ENC[0] || b === ENC[0] || a === b) for (const triggerOff of [undefined, 'view:pointerout', 'view:click'])
          for (const ops of tuples(triggerOff === 'view:click' ? evs(['pointerover', 'click']) : hev, (a === ENC[0] && b === ENC[0] && !triggerOff ? 4 : 3) + X)) yield { its: [{ type: 'element-highlight', triggerOff }], enc: [a, b], ops };
    for (const blurState of [null, undefined]) for (const ops of tuples([...hev, 'start:A1', 'start:B0', 'reset', 'reset:A1', 'reset:A0'], 3 + X)) yield { its: [{ type: 'element-highlight', blurState }], enc: ['hb', 'hb'], ops };
    // select
    const OFFS = [undefined, 'empty', 'none', 'click', 'dblclick', 'view:click', 'view:dblclick', 50, ['empty', 50], ['click', 'empty'], ['dblclick', 50], ['click', 'empty', 50], ['view:dblclick', 'none']];
    for (const type of ['element-select', 'element-select-by-graphic-name'])
      for (const triggerOff of OFFS)
        for (const isMultiple of [false, true])
          for (const reverseState of [undefined, S.r])
            for (const [i, enc] of [['sr', 'sr'], ['s', 'r'], ['', 'sr'], ['sr', '']].entries()) {
              const ops = [...evs(['click'], [...T, 'B1'])];
              const off = [].concat(triggerOff as any);
              if (off.some(o => /dblclick/.test(String(o)))) ops.push(...evs(['dblclick'], ['A0', 'B0', 'C0', '-']));
              if (off.includes(50 as never)) ops.push('+49', '+50');
              const deep = !i && type === 'element-select' && ops.length <= 8 && (X || (isMultiple && reverseState));
              if (i > 1 && type !== 'element-select' && !X) continue;
              for (const o of tuples(ops, X ? (ops.length > 8 ? 4 : deep ? 5 : 4) : deep ? 4 : ops.length > 8 && i ? 2 : 3)) yield { its: [{ type, triggerOff, isMultiple, reverseState }], enc, ops: o };
            }
    for (const isMultiple of [false, true])
      for (const reverseState of [undefined, S.r]) for (const o of tuples(['click:A0', 'click:B0', 'click:-', 'start:A1', 'start:B0', 'reset', 'reset:A0', 'reset:B0'], (isMultiple && reverseState ? 4 : 3) + X)) yield { its: [{ type: 'element-select', triggerOff: ['click', 'empty'], isMultiple, reverseState }], enc: ['sr', 'sr'], ops: o };
    // active and matching
    for (const state of [undefined, S.f]) for (const o of tuples([...hev, 'start:A1', 'reset', 'reset:A0'], 3 + X)) yield { its: [{ type: 'element-active', state }], enc: ['a', ''], ops: o };
    for (const type of ['element-highlight-by-key', 'element-highlight-by-group', 'element-highlight-by-graphic-name'])
      for (const o of tuples([...evs(['pointerover', 'pointerout'], [...T, 'B1']), ...(type.endsWith('graphic-name') ? ['start:n0', 'start:n1'] : ['start:A1', 'start:B1']), 'reset'], 3 + X)) yield { its: [{ type }], enc: ['hb', ''], ops: o };
    for (const type of ['element-highlight-by-legend', 'element-active-by-legend'])
      for (const f of [{}, { filterType: 'key' }, { filterField: 'f' }, { filterField: 'zz' }])
        for (const o of tuples([`${LegendEvent.legendItemHover}:g0`, `${LegendEvent.legendItemHover}:k0`, `${LegendEvent.legendItemHover}:zz`, `${LegendEvent.legendItemHover}:1`, `${LegendEvent.legendItemUnHover}:g0`, 'start:g1', 'reset'], 3 + X)) yield { its: [{ type, ...f }], enc: ['hb', ''], ops: o };
    for (const f of [{}, { filterType: 'key' }, { withParse: true }, { withStart: true }, { withReset: true }])
      for (const graphicName of ['lbl', ['lbl', 'other'], ['other']])
        for (const o of tuples([...evs(['pointerover', 'pointerout'], ['L0', 'L1', 'L2', 'A0', '-']), 'start:g1', 'reset'], (graphicName === 'lbl' ? 3 : 2) + X)) yield { its: [{ type: 'element-highlight-by-name', graphicName, ...f }], enc: ['hb', ''], ops: o };
    // together, and removal
    const its = [{ type: 'element-highlight' }, { type: 'element-select', triggerOff: 'empty', reverseState: S.r, id: 's' }, { type: 'element-active', id: 'x' }, { type: 'element-select', trigger: 'dblclick', isMultiple: true, triggerOff: 'dblclick' }];
    const combo = [...evs(['pointerover', 'pointerout', 'click'], ['A0', 'B0', '-']), 'dblclick:A0', 'dblclick:B0'];
    for (const p of [[0, 1], [1, 2], [0, 2], [0, 1, 2]]) for (const o of tuples([...combo.slice(0, -2), 'rm:0', 'rm:1', 'rmtype:0', 'rmid:1', 'rmall'], (p.length === 2 && p[0] === 0 && p[1] === 1 && X ? 4 : 3))) yield { its: p.map(i => its[i]), enc: ['hbsra', 'hsa'], ops: o };
    for (const o of tuples(combo.slice(6).concat('rmtype:1', 'rmall'), 3 + X)) yield { its: [its[3], its[0]], enc: ['hbs', 'hbs'], ops: o };
    // data
    const ends = ['over', 'reset'];
    for (const its of [{ type: 'element-highlight' }, { type: 'element-select', reverseState: S.r, triggerOff: 'empty' }, { type: 'element-select', isMultiple: true, triggerOff: 'empty' }, { type: 'element-highlight-by-key', trigger: 'click', triggerOff: 'dblclick' }, { type: 'element-active', trigger: 'click', triggerOff: 'dblclick' }])
      for (const o of tuples(['click:A0', 'click:A1', 'click:B0', 'pointerover:A0', 'pointerover:A1', 'dblclick:A0', 'drop', 'add', 'drop0'], 4)) {
        const types = its.type === 'element-highlight' ? ['pointerover'] : its.type === 'element-select' ? ['click'] : ['click', 'dblclick'];
        if (o.some(x => x.includes(':') && !types.includes(x.split(':')[0])) || !o.some(x => x === 'drop' || x === 'drop0')) continue;
        yield { its: [its], enc: ['hbsr', 'hbsr'], ops: [...o, ...(its.type === 'element-active' ? ['reset:all'] : ['reset'])], end: true };
      }
  },
  run(c, ctx) {
    const enc: Record<string, string> = { A: c.enc[0], B: c.enc[1], C: 'hbsra' };
    const v = newView();
    try {
      const colors: any = { h: 'blue', b: 'grey', s: 'green', r: 'black', a: 'yellow' };
      const mark = (m: string, type: string, y: number) => ({
        id: m, type, key: 'k', groupBy: 'g', from: { data: m },
        encode: {
          update: { x: { callback: (d: any) => +d.k[1] * 20 }, y, width: 10, height: 10, size: 10, fill: 'red' },
          ...Object.fromEntries(enc[m].split('').map(s => [S[s], { fill: colors[s] }]))
        }
      });
      v.parseSpec({
        data: Object.keys(ROWS).map(id => ({ id, values: ROWS[id] })),
        marks: [mark('A', 'rect', 0), mark('B', 'symbol', 20), mark('C', 'rect', 40), ...Object.keys(LABELS).map((id, i) => ({ id, name: LABELS[id].name, type: 'text', encode: { update: { x: 10 * i, y: 70, text: LABELS[id].text } } }))]
      });
      v.run();
      const elements = (m: string) => v.getMarkById(m).elements;
      const ref: Record<string, any> = {};
      const naming = () =>
        Object.keys(ROWS).forEach(m =>
          elements(m).forEach((e: any) => {
            const id = m + ROWS[m].findIndex(r => r.k === e.key);
            ref[id] = e;
            e.getGraphicItem().name = NAMES[id];
          })
        );
      naming();
      Object.keys(LABELS).forEach(id => (v.getMarkById(id).elements[0].getGraphicItem().name = LABELS[id].name));
      const got: string[] = [];
      const its = c.its.map(({ withParse, withStart, withReset, ...cfg }, i) => {
        const opts: any = { selector: ['#A', '#B'], ...cfg };
        Object.keys(opts).forEach(k => opts[k] === undefined && delete opts[k]);
        if (withParse) opts.parseData = () => 'g1';
        if (withStart) opts.shouldStart = (e: any) => !!e.target && !!(e.target.attribute || {}).text && e.target.attribute.text !== 'k1';
        if (withReset) opts.shouldReset = (e: any) => !e.element;
        opts.onStart = (p: any) => got.push(`${i} start ${name(p.elements)}`);
        opts.onReset = (p: any) => got.push(`${i} reset ${name(p.elements)}`);
        return v.interaction(cfg.type, opts);
      });
      const name = (es: any[]) => es.map(e => Object.keys(ref).find(k => ref[k] === e) || '?').sort().join(',');
      const types = [...new Set(c.its.map(i => i.type))];
      const emitted: string[] = [];
      types.forEach(t => ['start', 'reset'].forEach(k => v.addEventListener(`${t}:${k}`, (p: any) => emitted.push(`${k} ${name(p.elements)}`))));
      const models = c.its.map(cfg => model(cfg, enc));
      const alive = c.its.map(() => true);
      const item = (t: string) => (t === '-' ? null : t[0] === 'L' ? v.getMarkById(t).elements[0].getGraphicItem() : ref[t].getGraphicItem());
      const setData = (keep: (r: any) => boolean) => {
        v.getDataById('A').values(ROWS.A.filter(keep));
        v.run();
        naming();
      };
      for (let i = 0; i < c.ops.length; i++) {
        const op = c.ops[i];
        got.length = 0;
        emitted.length = 0;
        const want: string[] = [];
        const [o, t] = op.split(':');
        const gone = t && ref[t] && !elements(t[0]).includes(ref[t]);
        if (gone) continue;
        const note = (k: number, xs: string[]) => want.push(...xs.map(x => `${k} ${x}`));
        if (op[0] === '+') {
          vtime.advance(+op.slice(1));
          models.forEach((m, k) => note(k, m.tick(+op.slice(1))));
        } else if (o === 'start') {
          its[0].start(ref[t] || t);
          note(0, models[0].start(t));
        } else if (o === 'reset') {
          // single elements are reset while they are the ones in the state
          if (t && t !== 'all' && /^element-(highlight|select)$/.test(c.its[0].type) && !models[0].shown(el(t)!).some(s => s === S.h || s === S.s)) continue;
          if (t && c.its[0].reverseState && ELS.filter(e => models[0].shown(e).includes(S.s)).length > 1) continue;
          if (t === 'all') ELS.forEach(e => ref[e.id] && IN(e) && its[0].reset(ref[e.id]));
          else its[0].reset(t ? ref[t] : undefined);
          if (t === 'all') ELS.forEach(e => models[0].reset(e.id));
          else note(0, models[0].reset(t));
        } else if (o === 'rm' || o === 'rmtype' || o === 'rmid' || o === 'rmall') {
          const k = +t;
          if (o === 'rm') v.removeInteraction(its[k]);
          else if (o === 'rmtype') v.removeInteraction(c.its[k].type);
          else if (o === 'rmid') v.removeInteraction(null, c.its[k].id ?? 'zz');
          else v.removeAllInteractions();
          c.its.forEach((x, j) => {
            if (o === 'rmall' || (o === 'rmtype' ? x.type === c.its[k].type : o === 'rmid' ? x.id === (c.its[k].id ?? 'zz') : j === k)) alive[j] = false;
          });
        } else if (o === 'drop') setData(r => r.k !== 'k1');
        else if (o === 'drop0') setData(r => r.k !== 'k0');
        else if (o === 'add') setData(() => true);
        else {
          const legend = o === LegendEvent.legendItemHover || o === LegendEvent.legendItemUnHover;
          const id: any = t === '1' ? 1 : t;
          fire(v, o, legend ? null : item(t), legend ? { detail: { data: { id } } } : {});
          models.forEach((m, k) => alive[k] && note(k, m.on(o, legend ? id : t)));
        }
        ctx.step();
        if (c.end && i < c.ops.length - 1) continue;
        const what = `${op} (${i}) of ${c.its.map(x => x.type)}`;
        if (!c.end) {
          ctx.compare(2);
          eq(got.slice().sort(), want.sort(), `notifications:${c.its[0].type}`, `notifications after ${what}`);
          eq(emitted.slice().sort(), want.map(w => w.slice(2)).sort(), `events:${c.its[0].type}`, `events of the view after ${what}`);
        }
        const states: Record<string, string[]> = {};
        for (const e of ELS) {
          if (!ref[e.id]) continue;
          const live = elements(e.mark).includes(ref[e.id]);
          if (!live) continue;
          // states which the mark does not define are not set
          const exp = [...new Set(models.flatMap(m => m.shown(e)))].filter(s => enc[e.mark].includes(Object.keys(S).find(k => S[k] === s)!)).sort();
          states[e.id] = (ref[e.id].states || []).slice().sort();
          ctx.compare();
          eq(states[e.id], c.end ? [] : exp, `states:${c.its[0].type}`, `states of ${e.id} after ${what}`);
          const top = (ref[e.id].states || []).filter((s: string) => s !== S.f && enc[e.mark].includes(Object.keys(S).find(k => S[k] === s)!));
          if (top.length === 1) eq(ref[e.id].getGraphicItem().attribute.fill, colors[Object.keys(S).find(k => S[k] === top[0])!], 'style', `fill of ${e.id} after ${what}`);
          else if (!top.length) eq(ref[e.id].getGraphicItem().attribute.fill, 'red', 'style', `fill of ${e.id} after ${what}`);
        }
        ctx.state([c.its.map(x => [x.type, x.triggerOff]), states]);
        ctx.trace(op, { states, got });
      }
    } finally {
      releaseAll();
    }
  }
});

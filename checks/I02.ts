// I02: filtering interactions against histories of selections, source changes and removals.
import { newView, releaseAll } from '../lib/vg';
import { fire, pointer } from '../lib/events';
import { check, eq, ok, tuples, same } from '../lib/kit';
import { LegendEvent, PlayerEventEnum } from '@visactor/vrender-components';

type Kind = 'legend' | 'clegend' | 'slider' | 'datazoom' | 'scrollbar' | 'player' | 'drill' | 'roll' | 'brush' | 'bdrill';
type It = { kind: Kind; form: string };
type Case = { its: It[]; ops: string[] };

const ROWS = [
  { id: 'r0', cat: 'a', v: 5 },
  { id: 'r1', cat: 'b', v: 30 },
  { id: 'r2', cat: 'a', v: 55 },
  { id: 'r3', cat: 'c', v: 80 }
];
const LATER = [
  { id: 'r1', cat: 'c', v: 10 },
  { id: 'r4', cat: 'a', v: 45 },
  { id: 'r3', cat: 'c', v: 80 },
  { id: 'r5', cat: 'b', v: 95 },
  { id: 'r0', cat: 'b', v: 20 }
];
/** order in which filters are applied */
const RANK: Kind[] = ['player', 'roll', 'drill', 'bdrill', 'slider', 'datazoom', 'legend', 'clegend', 'scrollbar', 'brush'];
const OPS: Record<Kind, string[]> = {
  legend: ['a', 'a,c', 'none'],
  clegend: ['0~50', '30~55', '60~70'],
  slider: ['0~50', '30~55', '90~99'],
  datazoom: ['0~.5', '.3~1', '0~1'],
  scrollbar: ['0~.5', '.3~.9', '.0~1'],
  player: ['0', '2'],
  drill: ['r0', 'r1', '-'],
  roll: ['r0', 'r1', '-', 'r0!', '-!'],
  brush: ['0~40', '20~60', '61~65', 'clear'],
  bdrill: ['0~40', '20~60', 'clear']
};
const FORMS: Record<Kind, string[]> = {
  legend: ['field', 'fn', 'transform'],
  clegend: ['field', 'fn'],
  slider: ['field', 'fn', 'both'],
  datazoom: ['field', 'fn', 'band'],
  scrollbar: ['field', 'fn', 'band', 'plain'],
  player: ['rows', 'transform'],
  drill: ['rows', 'transform'],
  roll: ['transform', 'dblclick', 'view:dblclick', 'click', 'rows'],
  brush: ['rows', 'transform'],
  bdrill: ['rows', 'transform']
};
const TYPE: Record<Kind, string> = {
  legend: 'legend-filter', clegend: 'legend-filter', slider: 'slider-filter', datazoom: 'datazoom-filter', scrollbar: 'scrollbar-filter', player: 'player-filter',
  drill: 'drill-down', roll: 'roll-up', brush: 'brush-filter', bdrill: 'drill-down'
};
const first = (n: number) => (data: any[]) => data.slice(0, n);
const num = (s: string) => s.split('~').map(Number) as [number, number];

check<Case>({
  id: 'I02',
  level: 'model_checking',
  rule:
    'every sequence of the length of selections (discrete and continuous legend, slider, datazoom and scrollbar over continuous and band scales, player, drill-down and roll-up by click, brushes drawn and cleared with the pointer), clicks on the blank area, replacements of the source rows, runs and removals of the interactions (one, by type, all), for every filtering interaction in every form of its filter (field, function, transform, both) and every pair of them on the same data in both orders of creation: ' +
    'the rows of the filtered data and the elements of its mark are the current source rows restricted to the current selections, in the order of their ranks; removed interactions restrict nothing',
  assumptions: ['drilled, rolled or brushed rows which the source has replaced are not judged without transform', 'brushes select in another mark than they filter'],
  *cases(ctx) {
    const kinds = Object.keys(FORMS) as Kind[];
    const common = ['src', 'rm:0'];
    const solo = (k: Kind) => (ctx.thorough ? 5 : ['legend', 'drill', 'slider'].includes(k) ? 4 : 3);
    const ops = (k: Kind, i: number) => OPS[k].map(o => `${i}:${o}`);
    for (const kind of kinds) for (const form of FORMS[kind]) for (const o of tuples([...ops(kind, 0), ...common, ...(ctx.thorough ? ['back'] : [])], solo(kind))) yield { its: [{ kind, form }], ops: o };
    for (const a of kinds)
      for (const b of kinds) {
        if (a === b && a !== 'slider' && a !== 'legend') continue;
        // both would take the same pointer events
        if (a.endsWith('rush') && b === 'bdrill' || a === 'bdrill' && b === 'brush') continue;
        for (const [fa, fb] of [[FORMS[a][0], FORMS[b][FORMS[b].length - 1]], ...(ctx.thorough ? [[FORMS[a][FORMS[a].length - 1], FORMS[b][0]]] : [])])
          if (ctx.thorough || a < b) for (const o of tuples([...ops(a, 0).slice(0, 2), ...ops(b, 1).slice(0, ctx.thorough ? 2 : 1), 'src', 'rm:0', 'rm:1', ...(ctx.thorough ? ['rmtype:1', 'rmall'] : [])], ctx.thorough ? 4 : 3)) yield { its: [{ kind: a, form: fa }, { kind: b, form: fb }], ops: o };
      }
    if (ctx.thorough)
      for (const t of [['legend', 'slider', 'roll'], ['player', 'drill', 'scrollbar'], ['datazoom', 'brush', 'clegend']] as Kind[][])
        for (const o of tuples([...t.flatMap((k, i) => ops(k, i).slice(0, 2)), 'src', 'rm:0', 'rm:1', 'rmall'], 4)) yield { its: t.map(kind => ({ kind, form: FORMS[kind][0] })), ops: o };
  },
  run(c, ctx) {
    const v = newView({ width: 200, height: 100 });
    try {
      let rows: any[] = ROWS;
      const has = (k: Kind) => c.its.some(i => i.kind === k);
      const band = c.its.some(i => i.form === 'band');
      const comp = (id: string, componentType: string, extra: any) => ({ type: 'component', id, componentType, ...extra });
      const encode = { update: { x: { field: 'v' }, y: 0, width: 4, height: 10, fill: 'red' } };
      v.parseSpec({
        data: [{ id: 'src', values: ROWS }, { id: 't', source: 'src' }, { id: 'n', values: ROWS }],
        scales: [
          { id: 'x', type: 'linear', domain: [0, 100], range: [0, 200] },
          { id: 'xb', type: 'band', domain: ['a', 'b', 'c'], range: [0, 200] },
          { id: 'col', type: 'ordinal', domain: ['a', 'b', 'c'], range: ['red', 'green', 'blue'] },
          { id: 'cc', type: 'linear', domain: [0, 100], range: ['#ff0000', '#00ff00'] }
        ],
        marks: [
          { id: 'M', type: 'rect', key: 'id', from: { data: 't' }, encode },
          { id: 'N', type: 'rect', key: 'id', from: { data: 'n' }, encode: { update: { ...encode.update, y: 50 } } },
          ...(has('legend') ? [comp('legend', 'legend', { scale: 'col', legendType: 'discrete' })] : []),
          ...(has('clegend') ? [comp('clegend', 'legend', { scale: 'cc', legendType: 'color' })] : []),
          ...(has('slider') ? [comp('slider', 'slider', { min: 0, max: 100, encode: { update: { layout: 'horizontal', railWidth: 100, railHeight: 6 } } })] : []),
          ...(has('datazoom') ? [comp('datazoom', 'datazoom', { preview: { data: 'src', x: { scale: band ? 'xb' : 'x', field: band ? 'cat' : 'v' }, y: { field: 'v' } }, encode: { update: { orient: 'bottom', start: 0, end: 1, size: { width: 100, height: 10 } } } })] : []),
          ...(has('scrollbar') ? [comp('scrollbar', 'scrollbar', { ...(c.its.some(i => i.form === 'plain') ? {} : { scale: band ? 'xb' : 'x' }), encode: { update: { width: 100, height: 10, range: [0, 1] } } })] : []),
          ...(has('player') ? [comp('player', 'player', { playerType: 'discrete', source: [0, 1, 2], encode: { update: { disableTriggerEvent: true, size: { width: 100, height: 20 }, layout: 'horizontal' } } })] : [])
        ]
      });
      v.run();
      const state: { fv: any; alive: boolean; stale: boolean }[] = c.its.map(() => ({ fv: null, alive: true, stale: false }));
      const scaled = (d: any) => (band ? ['a', 'b', 'c'].indexOf(d.cat) / 3 : d.v / 100);
      /** what a selection keeps */
      const keep = (it: It, fv: any, data: any[]): any[] => {
        const range = (d: any) => d.v >= fv[0] && d.v <= fv[1];
        switch (it.kind) {
          case 'legend':
            return it.form === 'transform' ? (fv.length === 1 ? data.slice(0, 2) : data.slice(0, 3)) : data.filter(d => fv.includes(d.cat));
          case 'clegend':
          case 'slider': {
            const r = data.filter(range);
            return it.form === 'both' ? r.slice(0, 2) : r;
          }
          case 'datazoom':
          case 'scrollbar':
            if (it.form === 'plain') return data;
            return data.filter(d => scaled(d) >= fv[0] && scaled(d) <= fv[1]);
          case 'player':
            return it.form === 'rows' ? fv.rows : data.slice(fv.index);
          default:
            return it.form === 'rows' && it.kind !== 'roll' ? fv : it.kind === 'roll' && it.form === 'rows' ? data : data.filter(d => fv.some((f: any) => f.cat === d.cat));
        }
      };
      const its = c.its.map(it => {
        const target: any = { data: 't' };
        const fns: Record<string, any> = {
          legend: (d: any, fv: any[]) => fv.includes(d.cat),
          datazoom: (d: any, fv: any) => scaled(d) >= fv.startRatio && scaled(d) <= fv.endRatio,
          scrollbar: (d: any, fv: any) => scaled(d) >= fv.startRatio && scaled(d) <= fv.endRatio
        };
        if (['field', 'band', 'both', 'plain'].includes(it.form)) target.filter = it.kind === 'legend' || it.form === 'band' ? 'cat' : 'v';
        if (it.form === 'fn') target.filter = fns[it.kind] || ((d: any, fv: any) => d.v >= fv.start && d.v <= fv.end);
        if (it.form === 'both') target.transform = first(2);
        if (it.form === 'transform' && it.kind === 'legend') target.transform = (data: any[], fv: any[]) => data.slice(0, fv.length === 1 ? 2 : 3);
        else if (it.kind === 'player') {
          if (it.form === 'transform') target.transform = (data: any[], fv: any) => data.slice(fv.index);
        } else if (it.form !== 'rows' && ['drill', 'roll', 'brush', 'bdrill'].includes(it.kind))
          target.transform = (data: any[], fv: any) => (fv ? data.filter(d => [].concat(fv).some((f: any) => f.cat === d.cat)) : data);
        const opts: any = { target };
        if (it.kind === 'drill') opts.selector = '#M';
        else if (it.kind === 'roll') Object.assign(opts, { source: '#N' }, ['transform', 'rows'].includes(it.form) ? {} : { triggerOff: it.form });
        else if (it.kind === 'brush' || it.kind === 'bdrill') Object.assign(opts, { selector: '#N', brushType: 'rect', brushMode: 'single', sizeThreshold: 0, delayTime: 0, brushMoved: false }, it.kind === 'bdrill' ? { brush: true } : {});
        else opts.source = '#' + it.kind;
        return v.interaction(TYPE[it.kind], opts);
      });
      v.getDataById('src').commit();
      v.run();
      const item = (id: string) => v.getMarkById(id).elements[0].getGraphicItem();
      const el = (m: string, id: string) => v.getMarkById(m).elements.find((e: any) => e.key === id);
      let shown = rows;
      for (let n = 0; n < c.ops.length; n++) {
        const op = c.ops[n];
        const [head, arg] = op.split(':');
        const i = +head;
        const s = state[i];
        const it = c.its[i];
        if (head === 'src' || head === 'back') {
          rows = head === 'src' ? LATER : ROWS;
          v.getDataById('src').values(rows);
          v.run();
          state.forEach((x, k) => x.fv && c.its[k].form === 'rows' && ['drill', 'brush', 'bdrill', 'player'].includes(c.its[k].kind) && (x.stale = true));
        } else if (head === 'rm' || head === 'rmtype' || head === 'rmall') {
          const k = +arg;
          if (head === 'rm') v.removeInteraction(its[k]);
          else if (head === 'rmtype') v.removeInteraction(TYPE[c.its[k].kind]);
          else v.removeAllInteractions();
          state.forEach((x, j) => {
            if (head === 'rmall' || (head === 'rmtype' ? TYPE[c.its[j].kind] === TYPE[c.its[k].kind] : j === k)) Object.assign(x, { alive: false, fv: null, stale: false });
          });
          v.run();
        } else {
          let fv: any;
          let handled = true;
          switch (it.kind) {
            case 'legend':
              fv = arg === 'none' ? [] : arg.split(',');
              fire(v, LegendEvent.legendItemClick, item('legend'), { detail: { currentSelected: fv } });
              break;
            case 'clegend':
            case 'slider':
              fv = num(arg);
              fire(v, 'change', item(it.kind), { detail: { value: fv } });
              break;
            case 'datazoom':
              fv = num(arg);
              fire(v, 'change', item('datazoom'), { detail: { start: fv[0], end: fv[1] } });
              break;
            case 'scrollbar':
              fv = num(arg);
              fire(v, n % 2 ? 'scrollUp' : 'scrollDrag', item('scrollbar'), { detail: { value: fv } });
              break;
            case 'player':
              fv = { index: +arg, rows: ROWS.slice(+arg, +arg + 2) };
              fire(v, PlayerEventEnum.OnChange, item('player'), { detail: { index: +arg, value: fv.rows } });
              break;
            case 'drill': {
              const e = arg === '-' ? null : el('M', arg);
              if (arg !== '-' && !e) continue;
              fire(v, 'click', e && e.getGraphicItem());
              handled = !!e;
              fv = e ? [].concat(e.getDatum()) : null;
              break;
            }
            case 'roll': {
              const dbl = arg.endsWith('!');
              const id = arg.replace('!', '');
              const e = id === '-' ? null : el('N', id);
              if (dbl && e && it.form === 'view:dblclick') continue;
              fire(v, dbl ? 'dblclick' : 'click', e && e.getGraphicItem());
              const off = it.form === 'transform' || it.form === 'rows' ? 'empty' : it.form;
              if (dbl) {
                handled = off.includes('dblclick');
                fv = null;
              } else if (e) {
                const toggles = off === 'empty' || off === 'click';
                const again = s.fv && s.fv[0].id === id;
                fv = again && toggles ? null : [].concat(e.getDatum());
              } else {
                handled = off === 'empty';
                fv = null;
              }
              break;
            }
            default: {
              if (arg === 'clear') {
                pointer(v, 'pointerdown', 150, 90);
                pointer(v, 'pointerup', 150, 90);
                fv = null;
              } else {
                const [a, b] = num(arg);
                pointer(v, 'pointerdown', a, 45);
                pointer(v, 'pointermove', (a + b) / 2, 50);
                pointer(v, 'pointermove', b, 55);
                pointer(v, 'pointerup', b, 55);
                fv = ROWS.filter(r => r.v < b && r.v + 4 > a);
              }
            }
          }
          if (s.alive && handled) {
            s.fv = fv;
            s.stale = false;
          }
        }
        ctx.step();
        const order = c.its.map((_, k) => k).sort((a, b) => {
          const rank = (k: Kind) => RANK.indexOf(k === 'clegend' ? 'legend' : k === 'bdrill' ? 'drill' : k);
          return rank(c.its[a].kind) - rank(c.its[b].kind) || a - b;
        });
        const what = `${op} (${n}) with ${c.its.map(x => x.kind + '/' + x.form)}`;
        if (state.some(x => x.stale)) continue;
        let want = rows;
        for (const k of order) if (state[k].alive && state[k].fv) want = keep(c.its[k], state[k].fv, want);
        ctx.compare(3);
        const ids = (xs: any[]) => xs.map(x => [x.id, x.cat, x.v]);
        const got = v.getDataById('t').output();
        eq(ids(got), ids(want), `rows:${c.its.map(x => x.kind)}`, `rows after ${what}`);
        eq(v.getMarkById('M').elements.map((e: any) => e.key).sort(), want.map(r => r.id).sort(), `elements:${c.its.map(x => x.kind)}`, `elements after ${what}`);
        eq(ids(v.getDataById('src').output()), ids(rows), 'source', `source rows after ${what}`);
        shown = want;
        ctx.state([c.its.map(x => [x.kind, x.form]), want.map(r => r.id), state.map(x => [x.alive, !!x.fv])]);
        ctx.trace(op, { got: got.map((r: any) => r.id) });
      }
      void shown;
      void ok;
      void same;
    } finally {
      releaseAll();
    }
  }
});

// I03: event streams against event configurations.
import { newView, releaseAll, vtime } from '../lib/vg';
import { fire, fakeWindow } from '../lib/events';
import { check, eq, ok, sequences, product } from '../lib/kit';

type Case =
  | { kind: 'select'; sels: string[]; filter: boolean; consume: boolean; stream: string[]; config: string }
  | { kind: 'timing'; mode: 'debounce' | 'throttle'; sel: string; filter: boolean; stream: string[]; target: boolean }
  | { kind: 'between'; specs: number[]; stream: string[] }
  | { kind: 'merge'; form: number; stream: string[] }
  | { kind: 'signal'; form: number; stream: string[] }
  | { kind: 'listen'; ops: string[] }
  | { kind: 'bubble'; depth: number; stream: string[] };

const SELS = ['click', 'rect:click', 'symbol:click', 'group:click', '#a:click', '#b:click', '#g:click', '#zz:click', '@n1:click', '@n2:click', '@zz:click', 'view:click', 'window:click', 'mousemove', 'rect:mousemove', '@n1:mousemove'];
/** targets: a0, a1: rects (id a, name n1); b: symbol (id b, name n1) in group g; c: rect without names; g: group (id g, name n2); -: blank; w: window */
const TARGETS = ['a0', 'a1', 'b', 'c', 'g', '-', 'w'];
const EVENTS = ['click', 'mousemove'];
const info: Record<string, any> = {
  a0: { type: 'rect', id: 'a', name: 'n1' }, a1: { type: 'rect', id: 'a', name: 'n1' }, b: { type: 'symbol', id: 'b', name: 'n1' },
  c: { type: 'rect', id: 'c', name: undefined }, g: { type: 'group', id: 'g', name: 'n2' }, '-': null, w: null
};
/** what the documentation of selectors says */
const selects = (sel: string, ev: string) => {
  const [t, type] = ev.split(':');
  const [src, stype] = sel.includes(':') ? sel.split(':') : ['view', sel];
  if (stype !== type) return false;
  if (src === 'window') return t === 'w';
  if (t === 'w') return false;
  if (src === 'view') return true;
  const i = info[t];
  if (!i) return false;
  if (src[0] === '#') return i.id === src.slice(1);
  if (src[0] === '@') return i.name === src.slice(1);
  return i.type === src;
};
const WAIT = 40;
// start, middle, end
const BETWEEN: [string, string, string][] = [
  ['rect:down', 'move', 'up'],
  ['symbol:down', 'move', 'up'],
  ['down', 'rect:move', 'window:up'],
  ['click', 'move', 'click'],
  ['down', 'up', 'up'],
  ['down', 'down', 'up'],
  ['window:down', 'window:move', 'window:up']
];
const MERGES: any[] = [['click', 'mousemove'], ['rect:click', '#b:click'], [{ type: 'click', filter: (e: any) => e.element && e.element.key === 'a1' }, 'rect:mousemove']];
const SIGNALS = 5;

check<Case>({
  id: 'I03',
  level: 'model_checking',
  rule:
    'every selector and pair of selectors, with and without filter, consumption and permission settings of the view, against every event on every target (elements by type, id and name, a group, the blank area, the window) and all streams to the length; every stream of matching and other events with gaps around the waiting time for debounce and throttle, including release of the view while events are pending; every stream for all between configurations and pairs of them; merged streams; signal targets with values, callbacks and dependencies; every sequence of listening, stopping to listen, dispatching and releasing on view and marks: ' +
    'callbacks are called exactly for the events which the configuration describes, with their element, and events are prevented and stopped exactly where configured',
  assumptions: ['selectors of unknown sources are not judged'],
  *cases(ctx) {
    const all = TARGETS.flatMap(t => EVENTS.map(e => t + ':' + e));
    for (const s of SELS)
      for (const filter of [false, true])
        for (const consume of [false, true])
          for (const config of ['', 'prevent', 'prevent-click', 'allow-click', 'no-click', 'only-click', 'disable', 'off']) yield { kind: 'select', sels: [s], filter, consume, stream: all, config };
    for (const a of SELS) for (const b of SELS) yield { kind: 'select', sels: [a, b], filter: false, consume: false, stream: all, config: '' };
    for (const s of sequences(['a0:click', 'b:click', '-:click', 'w:click', 'c:mousemove'], ctx.thorough ? 5 : 3, 2)) yield { kind: 'select', sels: ['#a:click', 'symbol:click', 'click', 'window:click'], filter: false, consume: false, stream: s, config: '' };
    for (const mode of ['debounce', 'throttle'] as const)
      for (const sel of ['rect:click', 'click'])
        for (const filter of [false, true])
          for (const target of [false, true])
            for (const s of sequences(['a0', 'a1', '-', '+10', '+39', '+40', '+41'], ctx.thorough ? 6 : 4, 2)) {
              if (s[0][0] === '+' || s.some((o, i) => i && o[0] === '+' && s[i - 1][0] === '+')) continue;
              yield { kind: 'timing', mode, sel, filter, stream: s, target };
              if (!filter && !ctx.thorough && s.length < 4) yield { kind: 'timing', mode, sel, filter, stream: [...s, 'release'], target };
            }
    const bet = ['a0:down', 'b:down', 'a0:move', '-:move', '-:up', 'a0:click', 'w:down', 'w:move', 'w:up'];
    const tops = (n: number[]) => {
      const types = new Set(n.flatMap(i => BETWEEN[i].map(s => s.split(':').pop())));
      const win = n.some(i => BETWEEN[i].some(s => s.startsWith('window')));
      return bet.filter(b => types.has(b.split(':')[1]) && (win || b[0] !== 'w'));
    };
    for (let i = 0; i < BETWEEN.length; i++) for (const s of sequences(tops([i]), ctx.thorough ? 6 : 5, 2)) yield { kind: 'between', specs: [i], stream: s };
    for (const p of [[0, 1], [0, 2], [1, 4], [3, 5], [0, 0]]) for (const s of sequences(tops(p), ctx.thorough ? 5 : 4, 2)) yield { kind: 'between', specs: p, stream: s };
    for (let f = 0; f < MERGES.length; f++) for (const s of sequences(['a0:click', 'a1:click', 'b:click', 'a0:mousemove', '-:click', '+20', '+49', '+50'], ctx.thorough ? 5 : 4, 1)) yield { kind: 'merge', form: f, stream: s };
    for (let f = 0; f < SIGNALS; f++) for (const s of sequences(['a0', 'a1', 'b', '-', 'set'], ctx.thorough ? 5 : 4, 1)) yield { kind: 'signal', form: f, stream: s };
    for (const s of sequences(['v+', 'v-', 'V-', 'm+', 'm-', 'M-', 'n+', 'a0:click', 'b:click', '-:click', 'a0:mousemove', 'rm', 'rel'], ctx.thorough ? 5 : 4, 2)) {
      if (!s[s.length - 1].includes(':') || s.indexOf('rel') !== s.lastIndexOf('rel')) continue;
      yield { kind: 'listen', ops: s };
    }
    for (const depth of [0, 1, 2, 3]) for (const s of sequences(['part', 'own', 'group', '-'], 2, 1)) yield { kind: 'bubble', depth, stream: s };
  },
  nontrivial: c => ('stream' in c ? c.stream.length > 1 : true),
  run(c, ctx) {
    const win = fakeWindow();
    try {
      const config: any =
        c.kind !== 'select' || !c.config ? undefined
        : c.config === 'prevent' ? { defaults: { prevent: true } }
        : c.config === 'prevent-click' ? { defaults: { prevent: ['click'] } }
        : c.config === 'allow-click' ? { defaults: { allow: ['click'] } }
        : c.config === 'no-click' ? { view: ['mousemove'] }
        : c.config === 'only-click' ? { view: ['click'] }
        : c.config === 'off' ? { view: false }
        : { disable: true };
      const v = newView(config ? { eventConfig: config } : {});
      const calls: string[] = [];
      const spec: any = {
        signals: [{ id: 's1', value: 0 }, { id: 's2', value: 'p' }, { id: 's3', update: { callback: (_s: any, p: any) => p.s1 + '!', dependency: ['s1'] } }],
        data: [{ id: 'd', values: [{ k: 'a0' }, { k: 'a1' }] }, { id: 'e', values: [{ k: 'b' }] }, { id: 'f', values: [{ k: 'c' }] }],
        marks: [
          { id: 'a', name: 'n1', type: 'rect', key: 'k', from: { data: 'd' }, encode: { update: { x: { callback: (_d: any, _e: any, p: any) => (typeof p.s1 === 'number' ? p.s1 : 1), dependency: ['s1'] }, y: 5, width: 10, height: 10, fill: 'red' } } },
          { id: 'c', type: 'rect', key: 'k', from: { data: 'f' }, encode: { update: { x: 30, y: 5, width: 10, height: 10, fill: 'red' } } },
          { id: 'g', name: 'n2', type: 'group', encode: { update: { x: 50, y: 5, width: 30, height: 30, fill: 'grey' } }, marks: [{ id: 'b', name: 'n1', type: 'symbol', key: 'k', from: { data: 'e' }, encode: { update: { x: 3, y: 5, size: 10, fill: 'red' } } }] }
        ]
      };
      const note = (tag: string) => (e: any) => calls.push(`${tag}(${e && e.element ? (e.element.mark.markType === 'group' ? 'g' : e.element.key) : '-'})`);
      const item = (t: string) => {
        const m = t === 'g' ? v.getMarkById('g') : t === '-' ? null : v.getMarkById(info[t].id);
        return !m ? null : t === 'g' ? m.elements[0].getGraphicItem() : m.elements.find((e: any) => e.key === t).getGraphicItem();
      };
      const send = (ev: string) => {
        const [t, type] = ev.split(':');
        ctx.step();
        return t === 'w' ? win.fire(type) : fire(v, type, item(t));
      };
      const flush = () => calls.splice(0).join(' ');
      const shown = (t: string) => (t === 'w' ? '-' : t);
      const start = (s: any) => {
        v.parseSpec(s);
        v.run();
      };
      if (c.kind === 'select') {
        const admit = (e: any) => e.element && e.element.key !== 'a1';
        spec.events = c.sels.map((s, i) => ({ type: s, callback: note('E' + i), ...(c.filter ? { filter: admit } : {}), ...(c.consume ? { consume: true } : {}) }));
        start(spec);
        c.stream.forEach((ev, i) => {
          const [t, type] = ev.split(':');
          const got = send(ev);
          const permitted = (s: string) => {
            if (c.config === 'disable') return false;
            if (s.startsWith('window')) return true;
            return c.config === 'off' ? false : c.config === 'no-click' ? type === 'mousemove' : c.config === 'only-click' ? type === 'click' : true;
          };
          const hit = c.sels.map((s, j) => (selects(s, ev) && permitted(s) && (!c.filter || (info[t] && t !== 'a1')) ? j : -1)).filter(j => j >= 0);
          ctx.compare();
          eq(flush(), hit.map(j => `E${j}(${shown(t)})`).join(' '), 'select', `calls of ${c.sels.join(', ')} for ${ev} (${i})`);
          // an event which is listened to is prevented by the configuration or by consumption
          const heard = c.sels.some(s => permitted(s) && !s.startsWith('window') && t !== 'w' && s.split(':').pop() === type);
          const def = c.config === 'prevent' || (c.config === 'prevent-click' && type === 'click') || (c.config === 'allow-click' && type !== 'click');
          const eaten = c.consume && hit.length > 0;
          eq(got.prevented > 0, (heard && def) || eaten, 'prevented', `default of ${ev} prevented`);
          eq(got.stopped > 0, eaten, 'stopped', `propagation of ${ev} stopped`);
          ctx.state([c.sels, ev, hit]);
        });
      } else if (c.kind === 'timing') {
        const fired: { t: number; el: string }[] = [];
        let now = 0;
        spec.events = [{ type: c.sel, [c.mode]: WAIT, filter: c.filter ? (e: any) => e.element && e.element.key === 'a0' : undefined, target: c.target ? 's2' : undefined, callback: (e: any) => (fired.push({ t: now, el: e.tag }), fired.length) }];
        start(spec);
        const matched: { t: number; el: string }[] = [];
        const advance = (ms: number) => {
          for (let k = 0; k < ms; k++) {
            now++;
            vtime.advance(1);
          }
        };
        let released = -1;
        c.stream.forEach((o, i) => {
          ctx.step();
          if (o[0] === '+') return advance(+o.slice(1));
          if (o === 'release') {
            v.release();
            released = now;
            return;
          }
          const tag = o + i;
          fire(v, 'click', item(o), { tag });
          if ((c.sel === 'click' || o !== '-') && (!c.filter || o === 'a0')) matched.push({ t: now, el: tag });
        });
        advance(3 * WAIT);
        ctx.compare();
        ctx.state([c.mode, matched]);
        if (released >= 0) {
          ok(fired.every(f => f.t <= released), 'released', `${JSON.stringify(fired)} fired after the view was released at ${released}`);
          return;
        }
        if (c.mode === 'debounce') {
          const want = matched.filter((m, i) => !matched[i + 1] || matched[i + 1].t - m.t >= WAIT).map(m => ({ t: m.t + WAIT, el: m.el }));
          eq(fired, want, 'debounce', `debounced calls of ${JSON.stringify(matched)}`);
        } else {
          fired.forEach((f, i) => {
            // an event after a whole waiting time is handled at once
            const k = matched.findIndex(m => m.el === f.el);
            const fresh = k > 0 && matched[k].t === f.t && matched[k].t - matched[k - 1].t >= WAIT;
            if (i) ok(f.t - fired[i - 1].t >= WAIT || fresh, 'throttle', `calls at ${fired.map(f => f.t)} are too dense`);
            // the latest event, events at the very time of the call may come after it
            const before = matched.filter(m => m.t < f.t);
            ok([...before.slice(-1), ...matched.filter(m => m.t === f.t)].some(m => m.el === f.el), 'throttle', `call at ${f.t} is for ${f.el} of ${JSON.stringify(matched)}`);
          });
          matched.forEach((m, i) => {
            // the first event after a pause is handled at once
            if (!i || m.t - matched[i - 1].t >= 2 * WAIT) ok(fired.some(f => f.t === m.t && f.el === m.el), 'throttle', `${m.el} at ${m.t} is the first after a pause, calls: ${JSON.stringify(fired)}`);
            ok(fired.some(f => f.t >= m.t && f.t <= m.t + WAIT), 'throttle', `no call within ${WAIT} after ${m.t}: ${JSON.stringify(fired)}`);
          });
          if (matched.length) eq(fired[fired.length - 1].el, matched[matched.length - 1].el, 'throttle', 'the last event is handled');
        }
        if (c.target) eq(v.getSignalById('s2').getValue(), fired.length ? fired.length : 'p', 'signal', 'value of the signal');
      } else if (c.kind === 'between') {
        spec.events = c.specs.map((n, i) => ({ between: [{ type: BETWEEN[n][0] }, { type: BETWEEN[n][2] }], type: BETWEEN[n][1], callback: note('B' + i) }));
        start(spec);
        const open = c.specs.map(() => false);
        c.stream.forEach((ev, k) => {
          const want: string[] = [];
          c.specs.forEach((n, i) => {
            const [a, m, z] = BETWEEN[n];
            // the starting event itself is not in between, the ending one is
            const was = open[i];
            if (was && selects(m, ev)) want.push(`B${i}(${shown(ev.split(':')[0])})`);
            if (was && selects(z, ev)) open[i] = false;
            else if (!was && selects(a, ev)) open[i] = true;
          });
          send(ev);
          ctx.compare();
          eq(calls.splice(0).sort().join(' '), want.sort().join(' '), 'between', `calls for ${c.stream.slice(0, k + 1).join(', ')}`);
          ctx.state([c.specs, open]);
        });
      } else if (c.kind === 'merge') {
        let now = 0;
        const fired: string[] = [];
        spec.events = [{ merge: MERGES[c.form], callback: (e: any) => fired.push(now + e.tag) }];
        start(spec);
        const streams: { t: number; tag: string }[][] = MERGES[c.form].map(() => []);
        c.stream.forEach((o, i) => {
          ctx.step();
          if (o[0] === '+') {
            for (let k = 0; k < +o.slice(1); k++) (now++, vtime.advance(1));
            return;
          }
          const [t, type] = o.split(':');
          fire(v, type, item(t), { tag: o + i });
          MERGES[c.form].forEach((m: any, j: number) => {
            if (selects(m.type ?? m, o) && (!m.filter || t === 'a1')) streams[j].push({ t: now, tag: o + i });
          });
        });
        for (let k = 0; k < 120; k++) (now++, vtime.advance(1));
        // each merged stream is debounced by 50 ms
        const want = streams.flatMap(s => s.filter((m, i) => !s[i + 1] || s[i + 1].t - m.t >= 50).map(m => m.t + 50 + m.tag));
        ctx.compare();
        eq(fired.sort(), want.sort(), 'merge', `merged calls`);
      } else if (c.kind === 'signal') {
        const el = (e: any) => (e.element && e.element.mark.id() === 'a' ? 1 + ['a0', 'a1'].indexOf(e.element.key) : 9);
        const forms: any[] = [
          { type: 'rect:click', target: 's1', callback: el },
          { type: 'click', target: 's1', callback: (e: any, p: any) => p.s1 + el(e), dependency: ['s1'] },
          { type: 'click', target: [{ target: 's1', callback: el }, { target: 's2', callback: (e: any) => 'q' + el(e) }] },
          { type: 'click', target: 's1' },
          { type: 'click', target: [{ target: 'nope', callback: el }, { target: 's1', callback: el }], callback: note('never') }
        ];
        spec.events = [forms[c.form]];
        start(spec);
        let runs = 0;
        const run = v.run;
        v.run = (...a: any[]) => (runs++, run.apply(v, a));
        let s1 = 0;
        let s2 = 'p';
        c.stream.forEach((o, i) => {
          ctx.step();
          runs = 0;
          const was = [s1, s2];
          if (o === 'set') {
            s1 = 4;
            v.getSignalById('s1').value(4);
            v.run();
          } else {
            const n = o === 'a0' ? 1 : o === 'a1' ? 2 : 9;
            fire(v, 'click', item(o));
            if (c.form === 0) (o === 'a0' || o === 'a1') && (s1 = n);
            else if (c.form === 1) s1 += n;
            else if (c.form === 2) (s1 = n), (s2 = 'q' + n);
            else if (c.form === 4) s1 = n;
            if (c.form !== 3) eq(runs, s1 !== was[0] || s2 !== was[1] ? 1 : 0, 'runs', `evaluations for ${o} (${i})`);
          }
          ctx.compare();
          eq([v.getSignalById('s1').getValue(), v.getSignalById('s2').getValue(), v.getSignalById('s3').getValue()], [s1, s2, s1 + '!'], 'signal', `signals after ${c.stream.slice(0, i + 1)}`);
          eq(v.getMarkById('a').elements[0].getGraphicItem().attribute.x, s1, 'signal', `graphics after ${c.stream.slice(0, i + 1)}`);
          eq(flush(), '', 'signal', 'own callback beside targets');
          ctx.state([c.form, s1, s2]);
        });
      } else if (c.kind === 'listen') {
        start(spec);
        const vh = note('v');
        const mh = note('m');
        const nh = note('n');
        let [vo, mo, no] = [0, 0, 0];
        let markGone = false;
        let gone = false;
        const held = { a0: item('a0'), b: item('b') };
        c.ops.forEach((o, i) => {
          ctx.step();
          const m = markGone ? null : gone ? null : v.getMarkById('a');
          if (o === 'rel') {
            v.release();
            gone = true;
          } else if (o === 'rm') {
            if (gone || markGone) return;
            v.removeGrammar('a');
            v.run();
            markGone = true;
          } else if (o.includes(':')) {
            const [t, type] = o.split(':');
            if (gone) return;
            if (markGone && t === 'a0') return;
            fire(v, type, item(t));
            const want: string[] = [];
            for (let k = 0; k < vo && type === 'click'; k++) want.push(`v(${t})`);
            for (let k = 0; k < mo && type === 'click' && t === 'a0'; k++) want.push(`m(${t})`);
            for (let k = 0; k < no && type === 'click' && t === 'b'; k++) want.push(`n(${t})`);
            ctx.compare();
            eq(calls.splice(0).sort().join(' '), want.sort().join(' '), 'listen', `calls after ${c.ops.slice(0, i + 1)}`);
          } else if (gone) return;
          else if (o === 'v+') (v.addEventListener('click', vh), vo++);
          else if (o === 'v-') (v.removeEventListener('click', vh), (vo = 0));
          else if (o === 'V-') (v.removeEventListener('click'), (vo = 0));
          else if (o === 'm+') m && (m.addEventListener('click', mh), mo++);
          else if (o === 'm-') m && (m.removeEventListener('click', mh), (mo = 0));
          else if (o === 'M-') m && (m.removeEventListener('click'), (mo = 0));
          else if (o === 'n+') (v.getMarkById('b').addEventListener('click', nh), no++);
          ctx.state([vo, mo, no, markGone, gone]);
        });
        if (!gone) v.release();
        eq(win.all.length, 0, 'released', 'listeners of the window after release');
        void held;
      } else if (c.kind === 'bubble') {
        // parts deep inside an element belong to it
        spec.events = [{ type: 'click', callback: note('V') }, { type: '#c:click', callback: note('C') }, { type: '#g:click', callback: note('G') }];
        start(spec);
        const own = item('c');
        let part = own;
        if (c.depth) {
          const stage = v.renderer.stage();
          for (let k = 0; k < c.depth; k++) {
            const child = new own.constructor({ x: 1, y: 1, width: 2, height: 2 });
            child.parent = part;
            part.appendChild ? part.appendChild(child) : (part._children = [child]);
            child.parent = part;
            part = child;
          }
          void stage;
        }
        c.stream.forEach(o => {
          ctx.step();
          fire(v, 'click', o === 'part' ? part : o === 'own' ? own : o === 'group' ? item('g') : null);
          ctx.compare();
          eq(flush(), o === 'part' || o === 'own' ? 'V(c) C(c)' : o === 'group' ? 'V(g) G(g)' : 'V(-)', 'bubble', `click on ${o}`);
        });
      }
    } finally {
      win.restore();
      releaseAll();
    }
  }
});
void product;

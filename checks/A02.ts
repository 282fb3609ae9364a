// A02: timelines against the closed form of their configuration: the clock is driven by hand, in every partition of a list.
import { newView, releaseAll, vtime } from '../lib/vg';
import { check, eq, ok, product, sequences } from '../lib/kit';

const records = (o: Record<string, any[]>): any[] => [...product(...(Object.values(o) as any[][]))].map((vs: any[]) => Object.fromEntries(Object.keys(o).map((k, i) => [k, vs[i]])));

type Case = { kind: string; [k: string]: any };
const EPS = 1e-6;

/** steps the animation clock of all views by hand */
function drive(view: any) {
  const ticker = view.renderer.stage().ticker;
  ticker.stop();
  ticker.start = () => false;
  return {
    tick(ms: number) {
      vtime.advance(ms);
      ticker.timelines.slice().forEach((t: any) => t.tick(ms));
    },
    free() {
      delete ticker.start;
    }
  };
}

// slices: what they animate, their duration, delay and delayAfter
const SLICES: Record<string, { ch: string; dur: number | null; delay?: number; after?: number }[]> = {
  one: [{ ch: 'x', dur: 100 }],
  waits: [{ ch: 'x', dur: 60, delay: 20, after: 10 }],
  two: [{ ch: 'x', dur: 60 }, { ch: 'y', dur: 40 }],
  twoWaits: [{ ch: 'x', dur: 60, delay: 10, after: 20 }, { ch: 'y', dur: 40, delay: 30, after: 5 }],
  both: [{ ch: 'xy', dur: 50 }],
  share: [{ ch: 'x', dur: null, delay: 15 }],
  again: [{ ch: 'x', dur: 40 }, { ch: 'x2', dur: 30 }],
  zero: [{ ch: 'x', dur: 0, delay: 20 }]
};
const PARTITIONS: Record<string, number[]> = { 10: [10], 7: [7], 33: [33], 250: [250], mixed: [1, 49, 5, 20, 95] };

function single(c: Case, ctx: any) {
  const slices = SLICES[c.slices];
  const n = c.n as number;
  const v = newView();
  // what functions of options are told about the turn of an element
  const told: Record<string, Set<string>> = {};
  const fnOf = (x: any) =>
    c.fn && x !== undefined
      ? (d: any, e: any, params: any) => {
          const a = params.VGRAMMAR_ANIMATION_PARAMETERS;
          (told[e.key] = told[e.key] || new Set()).add([a.elementIndex, a.elementCount, a.mark.id(), a.view === v, a.width, a.height, d.k === e.key].join());
          return x;
        }
      : x;
  const rows = (set: number) => Array.from({ length: n }, (_, i) => ({ k: 'k' + i, x: 10 * i + (set ? 70 : 20), y: 5 * i + (set ? 40 : 9), rank: n - i }));
  // from .. to per channel, for element i
  const entering = c.state === 'enter';
  const set0 = rows(0);
  const set1 = entering ? set0 : rows(1);
  const from = (i: number, ch: string) => (entering || c.state === 'run' ? (ch === 'x' ? 3 : 4) : (set0[i] as any)[ch]);
  const to = (i: number, ch: string) => (c.state === 'run' ? (set0[i] as any)[ch] : (set1[i] as any)[ch]);
  const effect = (ch: string) => {
    const list = ch === 'x2' ? ['x'] : ch.split('');
    // the second of two slices on one channel goes back to where the first began
    if (ch === 'x2') return { channel: { x: { from: (_d: any, e: any) => to(+e.key.slice(1), 'x'), to: (_d: any, e: any) => to(+e.key.slice(1), 'x') + 7 } }, easing: 'linear' };
    if (entering || c.state === 'run') return { channel: Object.fromEntries(list.map(l => [l, { from: l === 'x' ? 3 : 4 }])), easing: 'linear' };
    return { channel: list, easing: 'linear' };
  };
  let config: any;
  const common = {
    ...(c.startTime ? { startTime: fnOf(c.startTime) } : {}),
    ...(c.oneByOne ? { oneByOne: fnOf(c.oneByOne) } : {}),
    ...(c.loop ? { loop: fnOf(c.loop) } : {}),
    ...(c.total ? { totalTime: fnOf(c.total) } : {}),
    ...(c.control ? { controlOptions: c.control } : {})
  };
  if (c.short) config = { ...common, ...effect(slices[0].ch), duration: fnOf(slices[0].dur), ...(slices[0].delay ? { delay: fnOf(slices[0].delay) } : {}), ...(slices[0].after ? { delayAfter: fnOf(slices[0].after) } : {}) };
  else
    config = {
      ...common,
      timeSlices: slices.map(s => ({
        effects: c.list ? [effect(s.ch)] : effect(s.ch),
        ...(s.dur === null ? {} : { duration: fnOf(s.dur) }),
        ...(s.delay ? { delay: fnOf(s.delay) } : {}),
        ...(s.after ? { delayAfter: fnOf(s.after) } : {})
      })),
      ...(c.sort ? { sort: (a: any, b: any) => a.rank - b.rank } : {}),
      ...(c.part ? { partitioner: (d: any) => d.k !== 'k0' } : {}),
      ...(c.id ? { id: 'mine' } : {})
    };
  if (!c.short && slices.length === 1 && c.bare) config.timeSlices = config.timeSlices[0];
  v.parseSpec({
    data: [{ id: 'd', values: set0 }],
    marks: [{ id: 'm', type: 'rect', from: { data: 'd' }, key: 'k', encode: { update: { x: { field: 'x' }, y: { field: 'y' }, width: 5, height: 5 } }, animation: c.state === 'run' ? { exit: { type: 'fadeOut' } } : { [c.state]: config } }]
  });
  const events: string[] = [];
  for (const e of ['animationStart', 'animationEnd', 'elementAnimationStart', 'elementAnimationEnd', 'allAnimationStart', 'allAnimationEnd'])
    v.addEventListener(e, (ev: any, el: any) => events.push(e + (el && el.key ? ':' + el.key : '')));
  let clock: any;
  try {
    let arranger: any;
    const m = () => v.getMarkById('m');
    if (entering) {
      v.run();
      clock = drive(v);
    } else {
      v.run();
      clock = drive(v);
      clock.tick(16);
      events.length = 0;
      if (c.state === 'run') arranger = m().animate.run(config);
      else {
        v.getDataById('d').values(rows(1));
        v.run();
        clock.free();
        clock = drive(v);
      }
    }
    // order in which the elements take turns
    let order = Array.from({ length: n }, (_, i) => i).filter(i => !(c.part && !c.short) || i !== 0);
    if (c.sort && !c.short) order = order.slice().reverse();
    const N = order.length;
    const durs = slices.map(s => (s.dur === null ? (c.total ? c.total / N : 1000) : s.dur));
    const turn = slices.reduce((s, x, i) => s + (x.delay || 0) + durs[i] + (x.after || 0), 0);
    const offset = c.oneByOne === true ? turn : c.oneByOne || 0;
    const L = turn + offset * (N - 1);
    const loops = c.loop === true ? Infinity : c.loop || 1;
    const natural = (c.startTime || 0) + L * loops;
    const end = Math.min(natural, c.total || Infinity);
    const animators = m().animate.getAllAnimators();
    eq(animators.length, N, 'animators', 'animators after the start');
    animators.forEach((a: any) => eq(a.getTotalAnimationTime(), c.total || natural, 'total-time', 'total time of an animator'));
    if (arranger) eq(arranger.totalTime, c.total || natural, 'arranger-time', 'total time of the arranger');
    Object.keys(told).forEach(k => eq([...told[k]], [[order.indexOf(+k.slice(1)), N, 'm', true, v.width(), v.height(), true].join()], 'parameters', `turn of ${k} in functions of options`));
    if (c.id) eq(animators[0].animationOptions.id, 'mine', 'id', 'id of the timeline');
    const channels = [...new Set(slices.flatMap(s => (s.ch === 'x2' ? ['x'] : s.ch.split(''))))];
    /** the values allowed for a channel of an element at time t */
    const value = (pos: number, i: number, ch: string): number[] | null => {
      const [f, g] = [from(i, ch), to(i, ch)];
      const last = slices.some(s => s.ch === 'x2') && ch === 'x' ? g + 7 : g;
      if (!order.includes(i)) return [to(i, ch)];
      const begin = c.startTime || 0;
      const index = order.indexOf(i);
      if (pos >= end) return [last];
      // attributes which are not applied before the animation begins
      if (c.control && pos < begin) return [g];
      if (c.control && pos < begin + offset * index + (slices[0].delay || 0)) return [f, g];
      if (pos < begin) return slices[0].ch === 'x' && slices.some(s => s.ch === 'x2') ? null : [f];
      const k = Math.floor((pos - begin) / L);
      let local = (pos - begin) - k * L - offset * index;
      const rest = k > 0 ? [f, last] : c.control ? [f, g] : [f];
      if (local < 0) return slices.some(s => s.ch === 'x2') ? null : rest;
      let cur: number[] | null = slices.some(s => s.ch === 'x2') ? null : rest;
      for (let s = 0; s < slices.length; s++) {
        const sl = slices[s];
        const mine = sl.ch === 'x2' ? ch === 'x' : sl.ch.includes(ch);
        const [a, b] = sl.ch === 'x2' ? [g, g + 7] : [f, g];
        if (local < (sl.delay || 0)) return cur;
        local -= sl.delay || 0;
        if (local < durs[s]) return mine ? [a + ((b - a) * local) / durs[s]] : cur;
        local -= durs[s];
        if (mine) cur = [b];
        if (local < (sl.after || 0)) return cur;
        local -= sl.after || 0;
      }
      return cur;
    };
    const look = (T: number) => {
      ctx.compare();
      m().elements.forEach((e: any) => {
        const i = +e.key.slice(1);
        channels.forEach(ch => {
          const lo = value(T - EPS, i, ch);
          const hi = value(T + EPS, i, ch);
          if (!lo || !hi) return;
          const got = e.getGraphicItem().attribute[ch];
          ok([...lo, ...hi].some(w => Math.abs(w - got) < 1e-3), 'value', `${ch} of ${e.key} is ${got} after ${T} ms, expected ${hi.join(' or ')}`);
        });
      });
      const over = T >= end;
      eq(m().animate.isAnimating(), !over && N > 0, 'animating', `isAnimating after ${T} ms of ${end}`);
      eq(v.animate.isAnimating(), !over && N > 0, 'view-animating', `view.animate.isAnimating after ${T} ms of ${end}`);
    };
    look(0);
    let T = 0;
    const steps = PARTITIONS[c.ticks];
    const stop = end === Infinity ? 900 : end + 60;
    for (let i = 0; T < stop; i++) {
      // the renderer overlooks a tick which is as long as the start time, also the last one
      let d = steps[i % steps.length];
      if (Math.min(d, natural - T) === (c.startTime || 0)) d = 1;
      clock.tick(d);
      ctx.step();
      T += d;
      look(T);
    }
    ctx.state([Math.min(end, 5000), N, offset, turn, c.slices]);
    const want: string[] = [];
    if (N) {
      const on = events.filter(e => /Start/.test(e)).sort().join();
      order.forEach(i => want.push('elementAnimationStart:k' + i));
      want.push('animationStart', 'allAnimationStart');
      eq(on, want.sort().join(), 'start-events', 'events at the start');
      if (end < Infinity) eq(events.filter(e => /End/.test(e)).sort().join(), want.map(e => e.replace('Start', 'End')).sort().join(), 'end-events', 'events at the end');
      else eq(events.filter(e => /End/.test(e)).join(), '', 'end-events', 'events of endless animations');
    }
  } finally {
    if (clock) clock.free();
    releaseAll();
  }
}

/** programs of after() and parallel() calls on three runs */
function arrange(c: Case, ctx: any) {
  const v = newView();
  const spec: any = { data: [{ id: 'd', values: [{ k: 'a' }, { k: 'b' }] }], marks: [] };
  for (let i = 0; i < c.durations.length; i++)
    spec.marks.push({ id: 'm' + i, type: 'rect', from: { data: 'd' }, key: 'k', encode: { update: { x: 100, y: 0, width: 3, height: 3 } }, animation: { exit: { type: 'fadeOut' } } });
  v.parseSpec(spec);
  let clock: any;
  try {
    v.run();
    clock = drive(v);
    clock.tick(16);
    const D = c.durations as number[];
    const arr = D.map((d, i) => v.getMarkById('m' + i).animate.run({ channel: { x: { from: 0 } }, duration: d, easing: 'linear', ...(c.startTime && i === 0 ? { startTime: c.startTime } : {}) }));
    const length = D.map((d, i) => d + (c.startTime && i === 0 ? c.startTime : 0));
    const all = D.map((_, i) => i);
    const after: number[] = all.map(() => -1);
    let set = all.slice();
    for (const [op, a, b] of c.program) {
      ctx.step();
      if (op === 'after') {
        arr[a].after(arr[b]);
        after[a] = b;
      } else {
        arr[a].parallel(arr[b]);
        const [x, y] = [set[a], set[b]];
        set = set.map(s => (s === y ? x : s));
      }
    }
    // the start of a set of parallel runs is the latest end of what its members come after
    const start = all.map(() => 0);
    const finish = all.map(() => 0);
    for (let r = 0; r <= D.length; r++)
      for (const i of all) {
        const mates = all.filter(j => set[j] === set[i]);
        start[i] = Math.max(...mates.map(j => (after[j] >= 0 ? finish[after[j]] : 0)));
        finish[i] = start[i] + Math.max(...mates.map(j => length[j]));
      }
    arr.forEach((x: any, i: number) => {
      eq(x.startTime, start[i], 'arrange-start', `start of run ${i}`);
      eq(x.endTime, finish[i], 'arrange-end', `end of run ${i}`);
    });
    let T = 0;
    for (let k = 0; k < (D.length > 3 ? 18 : 14); k++) {
      clock.tick(24);
      T += 24;
      ctx.compare();
      for (const i of all) {
        const shift = start[i] + (c.startTime && i === 0 ? c.startTime : 0);
        const want = 100 * Math.min(1, Math.max(0, (T - shift) / D[i]));
        v.getMarkById('m' + i).elements.forEach((e: any) => ok(Math.abs(e.getGraphicItem().attribute.x - want) < 1e-3, 'arrange-value', `x of run ${i} is ${e.getGraphicItem().attribute.x} after ${T} ms, expected ${want}`));
      }
    }
    ctx.state([start, finish]);
  } finally {
    if (clock) clock.free();
    releaseAll();
  }
}

check<Case>({
  id: 'A02',
  level: 'model_checking',
  rule:
    'every combination of start time, total time, one by one, loops, slices (with delays, without duration, of duration zero), order, partition, constant or function options, short or timeline form, for entering, updated and immediately run marks of one to three elements, driven by every partition of the clock in a list: after every tick every channel of every element has the value of the closed form of its timeline, the running flags follow the end, the reported times are the ones of the closed form and start and end events appear once for each element, timeline and view; ' +
    'every program of up to three after/parallel calls on three runs (four calls on four runs, where one is arranged anew) of different lengths has the start times of the fixpoint of its constraints',
  assumptions: ['exactly at the boundary of two slices the value of either is allowed; in the waits of later loops the initial or the final value', 'a tick which is exactly as long as the start time is excluded: the renderer (a dependency) overlooks it', 'a total time which is longer than the timeline does not prolong it'],
  *cases(ctx) {
    const base = records({
      startTime: [0, 30],
      oneByOne: [0, 20, true],
      loop: [0, 2, true],
      total: [0, 150, 420],
      slices: Object.keys(SLICES),
      n: ctx.thorough ? [1, 2, 3, 4] : [1, 3],
      state: ['enter', 'update', 'run']
    });
    for (const b of base) {
      if (b.slices === 'again' && b.state === 'update') continue;
      for (const ticks of ctx.thorough ? Object.keys(PARTITIONS) : ['10', 'mixed']) yield { kind: 'single', ...b, ticks };
    }
    const some = records({ startTime: [0, 30], oneByOne: [0, 20, true], loop: [0, 2], total: [0, 150], slices: ['one', 'waits', 'twoWaits', 'share'], n: [2, 3], state: ['enter', 'update', 'run'] });
    for (const b of some)
      for (const extra of [{ fn: 1 }, { fn: 1, sort: 1 }, { fn: 1, part: 1 }, { sort: 1 }, { part: 1 }, { sort: 1, part: 1 }, { short: 1 }, { short: 1, fn: 1 }, { list: 1 }, { bare: 1 }, { id: 1 }, { ticks: '7' }, { ticks: '33' }, { ticks: '250' }, { control: { immediatelyApply: false } }, { control: { immediatelyApply: false }, n: 1, ticks: 'mixed' }] as any[]) {
        if (extra.short && b.slices !== 'one' && b.slices !== 'waits') continue;
        yield { kind: 'single', ticks: '10', ...b, ...extra };
      }
    const pairs = [[0, 1], [1, 0], [0, 2], [2, 0], [1, 2], [2, 1]];
    const calls = [...pairs.map(p => ['after', ...p]), ...pairs.map(p => ['parallel', ...p])];
    for (const program of sequences(calls, 3, 0)) {
      // constraints may not be circular: a run after itself, after something parallel to itself
      const after: number[] = [-1, -1, -1];
      let set = [0, 1, 2];
      for (const [op, a, b] of program as any[]) {
        if (op === 'after') after[a] = b;
        else { const [x, y] = [set[a], set[b]]; set = set.map(s => (s === y ? x : s)); }
      }
      const edges = [0, 1, 2].filter(i => after[i] >= 0).map(i => [set[i], set[after[i]]]);
      const reach = (a: number, b: number, seen: number[] = []): boolean => edges.some(([x, y]) => x === a && (y === b || (!seen.includes(y) && reach(y, b, [...seen, y]))));
      let circular = [0, 1, 2].some(s => reach(s, s));
      // neither may an intermediate program
      for (let k = 1; k < program.length && !circular; k++) {
        const af: number[] = [-1, -1, -1];
        let st = [0, 1, 2];
        for (const [op, a, b] of program.slice(0, k) as any[]) {
          if (op === 'after') af[a] = b;
          else { const [x, y] = [st[a], st[b]]; st = st.map(s => (s === y ? x : s)); }
        }
        const es = [0, 1, 2].filter(i => af[i] >= 0).map(i => [st[i], st[af[i]]]);
        const rc = (a: number, b: number, seen: number[] = []): boolean => es.some(([x, y]) => x === a && (y === b || (!seen.includes(y) && rc(y, b, [...seen, y]))));
        circular = [0, 1, 2].some(s => rc(s, s));
      }
      if (circular) continue;
      for (const durations of ctx.thorough ? [[50, 100, 25], [100, 50, 25], [25, 50, 100], [50, 50, 50]] : [[50, 100, 25]])
        for (const startTime of [0, 40]) yield { kind: 'arrange', program, durations, startTime };
    }
    // a fourth run: what comes after a run is arranged anew
    const four = [0, 1, 2, 3].flatMap(a => [0, 1, 2, 3].filter(b => b !== a).map(b => ['after', a, b]));
    for (const rest of sequences([...four, ['parallel', 1, 3], ['parallel', 2, 3]], ctx.thorough ? 4 : 3, 3)) {
      const program = [['after', 0, 1], ...rest] as any[];
      const next: number[] = [-1, -1, -1, -1];
      let fine = true;
      let set = [0, 1, 2, 3];
      let moved = false;
      for (const [op, a, b] of program) {
        if (op === 'after') (moved = moved || next[a] >= 0), (next[a] = b);
        else { const [x, y] = [set[a], set[b]]; set = set.map(s => (s === y ? x : s)); }
        const es = [0, 1, 2, 3].filter(i => next[i] >= 0).map(i => [set[i], set[next[i]]]);
        const rc = (p: number, q: number, seen: number[] = []): boolean => es.some(([x, y]) => x === p && (y === q || (!seen.includes(y) && rc(y, q, [...seen, y]))));
        fine = fine && ![0, 1, 2, 3].some(i => rc(i, i));
      }
      if (fine && moved) yield { kind: 'arrange', program, durations: [50, 100, 25, 75], startTime: 0 };
    }
  },
  nontrivial: c => (c.kind === 'single' ? c.n > 1 || c.loop || c.slices !== 'one' : c.program.length > 0),
  run(c, ctx) {
    if (c.kind === 'single') single(c, ctx);
    else arrange(c, ctx);
  }
});

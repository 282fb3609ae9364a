// A03: control of animations as a state machine: every sequence of control calls and ticks against a model of independent runs.
import { newView, releaseAll, vtime } from '../lib/vg';
import { check, eq, ok, sequences } from '../lib/kit';

type Case = { ops: string[]; bare?: boolean; stop?: boolean; shared?: boolean };
/** one animation of one channel of one element */
type Run = { mark: string; key: string; state: string; id: string; ch: string; from: number; to: number; dur: number; pos: number; paused: boolean; loop?: boolean };
const D = { enter: 100, update: 60, exit: 80, y: 80, h: 40 };

// enabling a mark while the animations of the view are disabled
const inconsistent = (s: string[]) => s.reduce((r, o) => r === 2 ? 2 : o === 'VD' ? 1 : o === 'VE' ? 0 : o === 'E' && r ? 2 : r, 0) === 2;

check<Case>({
  id: 'A03',
  level: 'model_checking',
  rule:
    'every sequence (to the depth) of control calls (pause, resume, stop of a mark, of one state, of the view; disabling and enabling marks, states and the view; immediate runs on the same and other channels, runs by state), data updates, removals and clock ticks on two marks, from the start of the enter animations: ' +
    'after every step each channel has the value of the model of independent linear runs (a run is frozen while paused, also before its first tick; the youngest run owns a channel; stopping sets the end), the running flags of marks and view follow the model, removed elements stay exactly as long as their exit runs, start and end events alternate per timeline and for the view, and balance at rest',
  assumptions: ['runs which are started by the view while others are paused are not paused'],
  *cases(ctx) {
    const control = ['P', 'R', 'S', 'VP', 'VR', 'VS', 'pe', 're', 'se', 'D', 'E', 'VD', 'VE', 'd1', 'e1', 'd2', 'e2'];
    const work = ['I', 'J', 'K', 'N', 'U', 'X', 't', 'T'];
    const all = [...control, ...work];
    for (const s of sequences(all, ctx.thorough ? 4 : 3, 1)) {
      if (!s.some(o => work.includes(o)) || inconsistent(s)) continue;
      yield { ops: s };
    }
    // deeper on the essentials
    for (const s of sequences(['P', 'R', 'S', 'I', 'U', 't', 'T'], ctx.thorough ? 6 : 5, 4)) {
      if (s.some((o, i) => i && o === s[i - 1] && 'PRS'.includes(o))) continue;
      yield { ops: s };
    }
    for (const s of sequences(['I', 'J', 'K', 't', 'T', 'S'], ctx.thorough ? 7 : 5, 4)) yield { ops: s };
    for (const s of sequences(['X', 'U', 'W', 'VD', 'VE', 't', 'P'], ctx.thorough ? 6 : 4, 4)) yield { ops: s };
    for (const s of sequences(['X', 'T', 'D', 'E', 'VD', 'VE', 'N', 'VP', 'VR'], ctx.thorough ? 5 : 4, 4)) if (!inconsistent(s)) yield { ops: s };
    // marks which share one configuration
    for (const s of sequences(['U', 'X', 'S', 'se', 'I', 't', 'T', 'P', 'VS'], ctx.thorough ? 4 : 3, 1)) yield { ops: s, shared: true };
    // enter animations which end with their state
    for (const s of sequences(['U', 'X', 'N', 't', 'T', 'P', 'R', 'd1', 'e1', 'VS'], ctx.thorough ? 5 : 4, 1)) yield { ops: s, stop: true };
    // a mark without animations of its own
    for (const s of sequences(['I', 'J', 'L', 'X', 'U', 't', 'T', 'S', 'P', 'D'], ctx.thorough ? 5 : 4, 2)) yield { ops: s, bare: true };
  },
  nontrivial: c => c.ops.length > 1,
  run(c, ctx) {
    const v = newView();
    let ticker: any;
    try {
      const data = (n: number, set: number) => Array.from({ length: n }, (_, i) => ({ k: 'k' + i, x: 100 + 10 * i + set * 50 }));
      const animation = () => ({
        enter: { channel: { [c.stop ? 'height' : 'x']: { from: 0 } }, duration: D.enter, easing: 'linear', ...(c.stop ? { controlOptions: { stopWhenStateChange: true } } : {}) },
        update: { channel: ['x'], duration: D.update, easing: 'linear' },
        exit: { channel: { x: { from: (_d: any, e: any) => e.getGraphicAttribute('x', true), to: 0 } }, duration: D.exit, easing: 'linear' }
      });
      const common = animation();
      const mk = (id: string) => ({
        id, type: 'rect', from: { data: id + 'd' }, key: 'k',
        encode: { update: { x: { field: 'x' }, y: 5, height: 7, width: 3, fill: 'red' } },
        animation: c.bare && id === 'm0' ? undefined : c.shared ? common : animation()
      });
      v.parseSpec({ data: [{ id: 'm0d', values: data(2, 0) }, { id: 'm1d', values: data(1, 0) }], marks: [mk('m0'), mk('m1')] });
      const events: string[] = [];
      const open = new Map<string, number>();
      for (const e of ['animation', 'elementAnimation', 'allAnimation'])
        for (const w of ['Start', 'End'])
          v.addEventListener(e + w, (ev: any, el: any) => {
            const id = e === 'allAnimation' ? e : e + ':' + ev.mark.id() + ':' + ev.animationState + (el && el.key ? ':' + el.key : '');
            const n = (open.get(id) || 0) + (w === 'Start' ? 1 : -1);
            open.set(id, n);
            ok(n >= 0, 'event-order', `${id} ends ${-n} times more than it starts`);
            if (e === 'allAnimation') ok(n <= 1, 'event-order', 'animations of the view start twice');
            events.push(id + w);
          });
      v.run();
      ticker = v.renderer.stage().ticker;
      const hold = () => {
        delete ticker.start;
        ticker.stop();
        ticker.start = () => false;
      };
      hold();
      const tick = (ms: number) => {
        vtime.advance(ms);
        ticker.timelines.slice().forEach((t: any) => t.tick(ms));
      };
      // the model
      let runs: Run[] = [];
      const marks = ['m0', 'm1'];
      const attr: Record<string, Record<string, number>> = {};
      const alive: Record<string, string> = {}; // element -> state of difference
      let set: Record<string, number> = { m0: 0, m1: 0 };
      let size: Record<string, number> = { m0: 2, m1: 1 };
      const enabled: Record<string, boolean> = { m0: true, m1: true };
      let viewOn = true;
      const off: Record<string, boolean> = { m0: false, m1: false };
      const last: Record<string, number> = {};
      const loose: Record<string, Record<string, number>> = {}; // channels which may show the end of their animations until the next frame
      const lastState: Record<string, string> = {}; // state of the run which was started last
      let serial = 0;
      const name = (m: string, k: string) => m + '/' + k;
      const own = (r: Run) => !runs.some(s => s !== r && runs.indexOf(s) > runs.indexOf(r) && s.mark === r.mark && s.key === r.key && s.ch === r.ch);
      const dropped = new WeakSet<Run>(); // lost their channel for good
      const settle = () => runs.forEach(r => { if (!own(r)) dropped.add(r); });
      const start = (r: Omit<Run, 'pos' | 'paused'>) => {
        // the same timeline starts again: the former run ends in place, or at its end where nothing else defines the channel
        runs = runs.filter(s => !(s.mark === r.mark && s.key === r.key && s.state === r.state && s.id === r.id));
        runs.push({ ...r, pos: 0, paused: false });
        lastState[name(r.mark, r.key)] = r.state;
        attr[name(r.mark, r.key)][r.ch] = r.from;
        if (loose[name(r.mark, r.key)]) delete loose[name(r.mark, r.key)][r.ch];
        settle();
      };
      // runs end at the values which were evaluated last
      const goal = (r: Run) => (r.state === 'exit' ? r.to : normal(r.mark, r.key, r.ch));
      const finish = (list: Run[], apply: boolean) => {
        list.forEach(r => {
          if (apply && !dropped.has(r)) (attr[name(r.mark, r.key)][r.ch] = goal(r)), delete loose[name(r.mark, r.key)]?.[r.ch];
          runs = runs.filter(s => s !== r);
        });
        // evaluated attributes are forgotten when the mark is at rest
        if (list.length) marks.forEach(m => { if (!runs.some(r => r.mark === m)) Object.keys(last).forEach(n => n.startsWith(m) && delete last[n]); });
        // elements which were only kept for their exit runs
        list.forEach(r => {
          if (r.state === 'exit' && !runs.some(s => s.mark === r.mark && s.key === r.key && s.state === 'exit')) delete alive[name(r.mark, r.key)];
        });
      };
      const normal = (m: string, k: string, ch: string) => (ch === 'x' ? 100 + 10 * +k.slice(1) + set[m] * 50 : ch === 'y' ? 5 : 7);
      marks.forEach(m =>
        data(size[m], 0).forEach(d => {
          alive[name(m, d.k)] = 'enter';
          attr[name(m, d.k)] = { x: c.stop ? d.x : 0, y: 5, height: 7 };
          last[name(m, d.k)] = d.x;
          if (c.bare && m === 'm0') attr[name(m, d.k)].x = d.x;
          else start({ mark: m, key: d.k, state: 'enter', id: 'enter', ch: c.stop ? 'height' : 'x', from: 0, to: c.stop ? 7 : d.x, dur: D.enter });
          })
      );
      const look = (where: string) => {
        ctx.compare();
        for (const m of marks) {
          const mark = v.getMarkById(m);
          const keys = [...mark.elementMap.values()].map((e: any) => e.key).sort().join();
          eq(keys, Object.keys(alive).filter(n => n.startsWith(m)).map(n => n.split('/')[1]).sort().join(), 'elements', `elements of ${m} ${where}`);
          mark.elementMap.forEach((e: any) => {
            const want = attr[name(m, e.key)];
            for (const ch of ['x', 'y', 'height'])
              ok(
                [want[ch], loose[name(m, e.key)]?.[ch]].some(x => Math.abs(x - e.getGraphicItem().attribute[ch]) < 1e-3),
                'value',
                `${ch} of ${m}/${e.key} is ${e.getGraphicItem().attribute[ch]} ${where}, expected ${want[ch]}`
              );
          });
          eq(mark.animate.isAnimating(), runs.some(r => r.mark === m), 'animating', `isAnimating of ${m} ${where}`);
          eq(mark.animate.getAnimatorCount(), runs.filter(r => r.mark === m).length, 'animators', `animators of ${m} ${where}`);
          mark.elementMap.forEach((e: any) => eq(mark.animate.getElementAnimators(e).length, runs.filter(r => r.mark === m && r.key === e.key).length, 'element-animators', `animators of ${m}/${e.key} ${where}`));
        }
        eq(v.animate.isAnimating(), runs.length > 0, 'view-animating', `view.animate.isAnimating ${where}`);
        eq(open.get('allAnimation') || 0, runs.length ? 1 : 0, 'event-balance', `open animations of the view ${where}`);
      };
      const current = (m: string) => Object.keys(alive).filter(n => n.startsWith(m) && alive[n] !== 'exit').map(n => n.split('/')[1]);
      const evaluate = (changed: string[]) => {
        for (const m of marks) {
          const next = new Set(data(size[m], set[m]).map(d => d.k));
          if (!changed.includes(m)) continue;
          const all = [...new Set([...Object.keys(alive).filter(n => n.startsWith(m)).map(n => n.split('/')[1]), ...next])];
          for (const k of all) {
            const n = name(m, k);
            const was = alive[n];
            if (!next.has(k)) {
              if (was === 'exit') continue;
              // an exit animation stops all others at their end
              finish(runs.filter(r => r.mark === m && r.key === k), true);
              alive[n] = 'exit';
              if (viewOn && enabled[m] && !(c.bare && m === 'm0')) {
                start({ mark: m, key: k, state: 'exit', id: 'exit', ch: 'x', from: attr[n].x, to: 0, dur: D.exit });
              } else delete alive[n];
              continue;
            }
            alive[n] = 'update';
            const before = last[n];
            const to = normal(m, k, 'x');
            // unchanged channels have no former value
            const from = before !== to ? attr[n].x : to; // (attributes are only remembered while animations run)
            // the end of the state ends its animations
            if (c.stop && lastState[n] === 'enter') {
              const kept = { ...last };
              finish(runs.filter(r => r.mark === m && r.key === k), true);
              Object.assign(last, kept);
              delete lastState[n];
            }
            last[n] = to;
            // without animation the data show at once
            attr[n].x = to;
            loose[n] = Object.fromEntries(runs.filter(r => name(r.mark, r.key) === n && !dropped.has(r)).map(r => [r.ch, r.to]));
            if (viewOn && enabled[m] && !off[m] && !(c.bare && m === 'm0')) {
              start({ mark: m, key: k, state: 'update', id: 'update', ch: 'x', from, to, dur: D.update });
            }
          }
        }
      };
      look('at the start');
      c.ops.forEach((op, i) => {
        const where = `after ${c.ops.slice(0, i + 1).join(' ')}`;
        const m0 = v.getMarkById('m0');
        const mine = runs.filter(r => r.mark === 'm0');
        ctx.step();
        if (op === 't' || op === 'T') {
          const ms = op === 't' ? 20 : 70;
          tick(ms);
          runs.forEach(r => {
            if (r.paused) return;
            r.pos += ms;
            delete loose[name(r.mark, r.key)]?.[r.ch];
            if (!dropped.has(r)) attr[name(r.mark, r.key)][r.ch] = !r.loop && r.pos >= r.dur ? goal(r) : r.from + (r.to - r.from) * (r.loop ? (r.pos % r.dur) / r.dur : r.pos / r.dur);
          });
          finish(runs.filter(r => !r.loop && r.pos >= r.dur), false);
        } else if (op === 'P') (m0.animate.pause(), mine.forEach(r => (r.paused = true)));
        else if (op === 'R') (m0.animate.resume(), mine.forEach(r => (r.paused = false)));
        else if (op === 'S') (m0.animate.stop(), finish(mine, true));
        else if (op === 'VP') (v.animate.pause(), runs.forEach(r => (r.paused = true)));
        else if (op === 'VR') (v.animate.resume(), runs.forEach(r => (r.paused = false)));
        else if (op === 'VS') (v.animate.stop(), finish(runs.slice(), true));
        else if (op === 'pe') (m0.animate.pauseAnimationByState('enter'), mine.forEach(r => r.state === 'enter' && (r.paused = true)));
        else if (op === 're') (m0.animate.resumeAnimationByState('enter'), mine.forEach(r => r.state === 'enter' && (r.paused = false)));
        else if (op === 'se') (m0.animate.stopAnimationByState('enter'), finish(mine.filter(r => r.state === 'enter'), true));
        else if (op === 'D') (m0.animate.disable(), finish(mine, true), (enabled.m0 = false));
        else if (op === 'E') (m0.animate.enable(), (enabled.m0 = true));
        else if (op === 'VD') {
          v.animate.disable();
          finish(runs.slice(), true);
          marks.forEach(m => (enabled[m] = false));
          viewOn = false;
        } else if (op === 'VE') {
          v.animate.enable();
          marks.forEach(m => (enabled[m] = true));
          viewOn = true;
        } else if (op === 'd1') (m0.animate.disableAnimationState('update'), (off.m0 = true));
        else if (op === 'e1') (m0.animate.enableAnimationState('update'), (off.m0 = false));
        else if (op === 'd2') (m0.animate.disableAnimationState(['other', 'update']), (off.m0 = true));
        else if (op === 'e2') (m0.animate.enableAnimationState(['other', 'update']), (off.m0 = false));
        else if ('IJKL'.includes(op)) {
          const [ch, dur, from] = op === 'I' ? ['y', D.y, 45] : op === 'J' ? ['height', D.h, 27] : op === 'K' ? ['y', 200, 85] : ['y', 50, 65];
          m0.animate.run({ channel: { [ch]: { from } }, duration: dur, easing: 'linear', loop: op === 'L' });
          serial++;
          if (enabled.m0)
            current('m0').forEach(k => {
              if (alive[name('m0', k)] === 'update' && off.m0) return;
              start({ mark: 'm0', key: k, state: 'immediate', id: 'i' + serial, ch: ch as string, from: from as number, to: normal('m0', k, ch as string), dur: dur as number, loop: op === 'L' });
            });
        } else if (op === 'N') {
          m0.animate.runAnimationByState('enter');
          if (enabled.m0)
            current('m0').forEach(k => {
              if (alive[name('m0', k)] === 'update' && off.m0) return;
              const ch = c.stop ? 'height' : 'x';
              start({ mark: 'm0', key: k, state: 'enter', id: 'enter', ch, from: 0, to: normal('m0', k, ch), dur: D.enter });
            });
        } else if (op === 'U' || op === 'X' || op === 'W') {
          const m = op === 'W' ? 'm1' : 'm0';
          if (op === 'X') size = { ...size, m0: 1 };
          else set = { ...set, [m]: 1 - set[m] };
          v.getDataById(m + 'd').values(data(size[m], set[m]));
          v.run();
          hold();
          evaluate([m]);
        }
        ctx.state([op, runs.map(r => [r.mark, r.key, r.state, r.ch, r.pos, r.paused]), enabled, viewOn, off.m0, size.m0]);
        look(where);
      });
      // at rest
      if (c.bare) {
        v.getMarkById('m0').animate.stop();
        finish(runs.filter(r => r.mark === 'm0'), true);
      }
      v.animate.resume();
      runs.forEach(r => (r.paused = false));
      for (let k = 0; k < 3; k++) {
        tick(210);
        runs.forEach(r => { if (!dropped.has(r)) attr[name(r.mark, r.key)][r.ch] = goal(r); });
        finish(runs.slice(), false);
        look('at rest');
      }
      open.forEach((n, id) => eq(n, 0, 'event-balance', `open starts of ${id} at rest`));
    } finally {
      if (ticker) delete ticker.start;
      releaseAll();
    }
  }
});

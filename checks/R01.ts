import { check, eq, ok } from '../lib/kit';
import { VG, newView, releaseAll, vtime } from '../lib/vg';
/**
 * Frames are virtual: nothing of the frame chain runs unless the check lets it, one frame at a time.
 * Final pictures are compared with those of a fresh view, with the same definitions, which is evaluated synchronously.
 */
const A: any = VG;
A.Factory.registerTransform(
  'verif-progressive',
  {
    transform: (options: any, data: any[]) => {
      const rows = data.map(d => ({ ...d, w: d.v * 2 }));
      if (!options.per) return rows;
      let at = 0;
      let alive = true;
      const run = () => {
        if (alive) at = Math.min(rows.length, at + options.per);
      };
      run();
      return {
        progressive: {
          unfinished: () => alive && at < rows.length,
          output: () => (alive ? rows.slice(0, at) : []),
          progressiveOutput: () => rows.slice(Math.max(0, at - options.per), at),
          progressiveRun: run,
          canAnimate: () => options.can !== false,
          release: () => {
            alive = false;
          }
        }
      };
    },
    markPhase: 'beforeJoin'
  },
  true
);

type Conf = {
  type: string;
  group: 'none' | 'even' | 'uneven';
  n: number;
  step: number;
  thr: number;
  extra: 'plain' | 'state' | 'groupEncode' | 'nokey' | 'large' | 'transform' | 'transform-static' | 'interactive';
};
type Case = Conf & { edits: [number, string][] };

const table = (n: number, off = 0) =>
  Array.from({ length: n }, (_, i) => ({ k: i + off, v: ((i * 7) % 10) + off, even: 'ab'[i % 2], uneven: i < n - 2 ? 'p' : 'q' }));
/** the definitions a view ends with */
type World = { rows: any[]; fill: string; other: any[]; step: number; thr: number; removed: boolean; width: number; otherFill: string; per: number };

const points = (t: string) => t === 'line' || t === 'area';
function spec(c: Conf, w: World, sync: boolean): any {
  const encode: any = {
    enter: { stroke: 'blue' },
    update: {
      x: (d: any) => d.k * 5,
      y: (d: any) => (c.extra.startsWith('transform') ? d.w : d.v),
      width: 4,
      height: 5,
      size: 4,
      ...(points(c.type) ? {} : { text: (d: any) => 'k' + d.k }),
      fill: w.fill
    }
  };
  if (c.type === 'area') encode.update.y1 = 50;
  const mark: any = { id: 'm', type: c.type, from: { data: 'd' }, encode };
  if (c.extra !== 'nokey') mark.key = 'k';
  if (c.group !== 'none') mark.groupBy = c.group;
  if (c.extra === 'interactive') mark.interactive = false;
  if (c.extra === 'large') Object.assign(mark, { large: true, largeThreshold: 1000 });
  if (c.extra === 'state') {
    mark.state = (d: any) => (d.k % 2 ? ['hi'] : []);
    encode.hi = { fillOpacity: 0.5 };
  }
  if (c.extra === 'groupEncode') {
    delete encode.update.fill;
    encode.group = { fill: (d: any) => (c.group === 'none' ? w.fill : d[c.group] === 'a' || d[c.group] === 'p' ? w.fill : 'grey') };
  }
  if (c.extra.startsWith('transform')) {
    mark.transform = [{ type: 'verif-progressive', per: sync ? 0 : w.per, can: c.extra === 'transform' }];
  } else if (!sync) Object.assign(mark, { progressiveStep: w.step, progressiveThreshold: w.thr });
  return {
    data: [
      { id: 'd', values: w.rows },
      { id: 'e', values: w.other }
    ],
    marks: [
      ...(w.removed ? [] : [mark]),
      {
        id: 'o',
        type: 'rect',
        from: { data: 'e' },
        key: 'k',
        encode: { update: { x: (d: any) => d.k, y: 2, width: 3, height: 4, fill: w.otherFill } }
      }
    ]
  };
}

const clean = (a: any) => {
  const r = { ...a };
  delete r.points;
  delete r.segments;
  delete r.imageAttrs;
  return r;
};
const point = (p: any) => ({ x: p.x, y: p.y, x1: p.x1, y1: p.y1, defined: p.defined, context: p.context });
const drawn = (a: any) => (a.segments ? [].concat(...a.segments.map((s: any) => s.points)) : a.points || []).map(point);
const row = (d: any) => `${d.k}:${d.v}${d.w === undefined ? '' : ':' + d.w}`;

/** what the elements of the mark, and its graphics, say */
function picture(m: any, c: Conf): any {
  const graphics: any[] = [];
  const collect = (g: any, theme: any) =>
    g.children.forEach((x: any) => {
      if (x.type === 'group') collect(x, x.theme?.userTheme?.common ?? theme);
      else graphics.push({ x, theme });
    });
  collect(m.graphicItem, {});
  const els = m.elements;
  const groups: any = {};
  els.forEach((e: any) => {
    const gi = e.getGraphicItem();
    const found = graphics.find(g => g.x === gi);
    const k = points(c.type) ? String(e.key ?? e.groupKey) : `${c.group === 'none' ? '' : e.data[0][c.group]}`;
    (groups[k] ||= []).push({
      rows: e.data.map(row),
      states: (e.states || []).slice(),
      drawn: !!found,
      attrs: found && { ...found.theme, ...clean(gi.attribute) },
      points: points(c.type) && found ? drawn(gi.attribute) : undefined,
      pickable: gi?.attribute?.pickable
    });
  });
  return { elements: els.length, distinct: new Set(els).size, graphics: graphics.length, groups };
}

/** number of rows each group may show after the given number of frames */
const shown = (size: number, frames: number, step: number) => Math.min(size, frames * step);

const EDITS = ['grow', 'shrink', 'replace', 'encode', 'other-data', 'other-mark', 'rerun', 'resize', 'coarser', 'off', 'remove', 'empty', 'threshold', 'release'];

function apply(v: any, w: World, e: string, c: Conf, turn: number) {
  const m = () => v.getMarkById('m');
  switch (e) {
    case 'grow':
      w.rows = table(w.rows.length + 2);
      v.getDataById('d').values(w.rows);
      break;
    case 'shrink':
      w.rows = table(2, 1);
      v.getDataById('d').values(w.rows);
      break;
    case 'empty':
      w.rows = [];
      v.getDataById('d').values(w.rows);
      break;
    case 'replace':
      w.rows = table(7, 3 + turn);
      v.getDataById('d').values(w.rows);
      break;
    case 'encode':
      w.fill = 'green' + turn;
      if (!w.removed) {
        if (c.extra === 'groupEncode')
          m().encodeState('group', {
            fill: (d: any) => (c.group === 'none' ? w.fill : d[c.group] === 'a' || d[c.group] === 'p' ? w.fill : 'grey')
          });
        else m().encode({ fill: w.fill });
      }
      break;
    case 'other-data':
      w.other = [{ k: 3 + turn }, { k: 9 }];
      v.getDataById('e').values(w.other);
      break;
    case 'other-mark':
      w.otherFill = 'pink' + turn;
      v.getMarkById('o').encode({ fill: w.otherFill });
      break;
    case 'resize':
      w.width += 10;
      v.width(w.width);
      break;
    case 'coarser':
    case 'threshold':
    case 'off':
      if (e === 'coarser') w.step = w.thr - 1;
      else if (e === 'threshold') w.thr += 2;
      else w.step = 0;
      if (e === 'coarser') w.per += 1;
      if (!w.removed) {
        if (!c.extra.startsWith('transform')) m().configure({ progressiveStep: w.step, progressiveThreshold: w.thr });
        m().commit();
      }
      break;
    case 'remove':
      if (!w.removed) v.removeGrammar(v.getMarkById('m'));
      w.removed = true;
      break;
    case 'rerun':
      break;
  }
}

function run(c: Case, ctx: any) {
  const w: World = { rows: table(c.n), fill: 'red', other: [{ k: 1 }], step: c.step, thr: c.thr, removed: false, width: 100, otherFill: 'black', per: c.step };
  try {
    const v = newView();
    // no pixels: the incremental layers of the renderer do not exist outside browsers
    v.renderer.render = () => v.renderer;
    const stage = v.renderer.stage();
    stage.render = stage.renderNextFrame = () => undefined;
    v.parseSpec(spec(c, w, false));
    v.run();
    const ticker = v.renderer.stage().ticker;
    ticker.stop();
    ticker.start = () => false;
    const at = c.edits.slice();
    /** frames shown since the last time the mark was evaluated; the definitions it was evaluated with */
    let frames = 1;
    let current = { ...w };
    const progressive = () =>
      !c.extra.startsWith('transform') &&
      current.step > 0 &&
      current.thr > 0 &&
      current.step < current.thr &&
      Object.values(sizes(current.rows, c)).some((n: any) => n > current.thr);
    const prefix = (where: string) => {
      if (current.removed) {
        ok(!v.getMarkById('m'), 'removed', `${where}: the mark is still there`);
        return;
      }
      const m = v.getMarkById('m');
      const p = picture(m, c);
      ctx.step();
      if (c.extra.startsWith('transform')) {
        // until it is finished the former elements stay, afterwards everything is shown
        if (m.renderContext?.beforeTransformProgressive?.unfinished()) return;
        const keys = m.elements.map((e: any) => e.data.map(row)).flat();
        const want = current.rows.map((d: any) => row({ ...d, w: d.v * 2 }));
        if (!points(c.type)) eq(keys, want, 'prefix', `rows shown ${where}, when the transform is finished`);
        return;
      }
      const got: any = {};
      Object.keys(p.groups).forEach(k => (got[k] = [].concat(...p.groups[k].map((e: any) => e.rows))));
      const want: any = {};
      const full = groupRows(current.rows, c);
      Object.keys(full).forEach(k => {
        const n = progressive() ? shown(full[k].length, frames, current.step) : full[k].length;
        want[k] = full[k].slice(0, n).map(row);
      });
      if (points(c.type)) {
        const seen = Object.keys(p.groups).map(k => [].concat(...p.groups[k].map((e: any) => e.points.map((q: any) => q.x / 5))));
        const due = Object.values(full).map((rows: any) => rows.slice(0, progressive() ? shown(rows.length, frames, current.step) : rows.length).map((d: any) => d.k));
        eq(seen, due, 'prefix-points', `points drawn ${where}`);
      }
      eq(got, want, 'prefix', `rows shown ${where}`);
      eq({ e: p.distinct, g: p.graphics }, { e: p.elements, g: p.elements }, 'distinct', `elements (distinct ones, graphics) ${where}`);
    };
    let total = 0;
    const frame = () => {
      // frames are deferred callbacks; other callbacks than the frame chain are harmless when they run too
      return vtime.fireNext();
    };
    prefix('at first');
    for (let turn = 0; ; turn++) {
      const [wait, e] = at.length ? at.shift() : [Infinity, ''];
      let done = 0;
      let quiet = false;
      while (done < wait) {
        const before = signature(v, w, c);
        let moved = false;
        while (vtime.pending()) {
          if (total++ > 300) ok(false, 'endless', 'the frames do not end');
          frame();
          if (signature(v, w, c) !== before) {
            moved = true;
            break;
          }
        }
        if (!moved) {
          quiet = true;
          break;
        }
        frames++;
        done++;
        prefix(`after frame ${frames}${turn ? ' following ' + c.edits[turn - 1][1] : ''}`);
      }
      if (e === '') break;
      if (e === 'release') {
        v.release();
        while (vtime.fireNext()) ok(total++ < 300, 'endless', 'the frames of a released view do not end');
        return;
      }
      apply(v, w, e, c, turn);
      if (e === 'remove') {
        // frames which happen before the view is evaluated again must not mind
        vtime.fireNext();
      }
      v.run();
      if (!(e === 'other-data' || e === 'other-mark' || e === 'rerun')) frames = 1;
      current = { ...w };
      prefix(`at once after ${e}`);
      void quiet;
    }
    ok(vtime.pending() === 0, 'endless', 'something is still scheduled');
    if (!w.removed) {
      const s = newView();
      s.parseSpec(spec(c, w, true));
      s.run();
      const want = picture(s.getMarkById('m'), c);
      const got = picture(v.getMarkById('m'), c);
      ctx.state(want);
      eq(got, want, 'final', 'the finished picture and that of a synchronous view');
    }
    const o = v.getMarkById('o');
    eq(o.elements.length, w.other.length, 'others', 'elements of the other mark');
    o.elements.forEach((e: any, i: number) => eq({ x: e.getGraphicItem().attribute.x, fill: e.getGraphicItem().attribute.fill }, { x: w.other[i].k, fill: w.otherFill }, 'others', 'the other mark'));
    delete ticker.start;
  } finally {
    releaseAll();
  }
}
function groupRows(rows: any[], c: Conf): any {
  const r: any = {};
  rows.forEach(d => (r[c.group === 'none' ? (points(c.type) ? 'key' : '') : d[c.group]] ||= []).push(d));
  if (points(c.type) && c.group === 'none') {
    const only = r.key;
    delete r.key;
    if (only) r[String(DEFAULT_KEY)] = only;
  }
  return r;
}
const DEFAULT_KEY = 'key';
const sizes = (rows: any[], c: Conf) => {
  const g = groupRows(rows, c);
  const r: any = {};
  Object.keys(g).forEach(k => (r[k] = g[k].length));
  return r;
};
/** changes whenever a frame of the mark has run */
function signature(v: any, w: World, c: Conf): string {
  if (w.removed) return 'removed';
  const m = v.getMarkById('m');
  return JSON.stringify([
    m.elements.length,
    m.renderContext?.progressive?.currentIndex,
    m.renderContext?.beforeTransformProgressive?.output()?.length
  ]);
}

check<Case>({
  id: 'R01',
  level: 'exhaustive within bounds, on the real code',
  rule: 'after the frames: picture == picture of a synchronous view; frame by frame: a prefix of each group, one graphic per element; frames end; unrelated edits change nothing',
  assumptions: ['frames are run one at a time under virtual time', 'styles of group encodes may be given by the theme of the group'],
  *cases(ctx) {
    const types = ['rect', 'symbol', 'text', 'line', 'area'];
    const maxN = ctx.thorough ? 12 : 8;
    for (const type of types)
      for (const group of ['none', 'even', 'uneven'] as const)
        for (const extra of ['plain', 'state', 'groupEncode', 'nokey', 'large', 'interactive', 'transform', 'transform-static'] as const) {
          if (points(type) && (extra === 'state' || extra === 'nokey')) continue;
          if (extra === 'nokey' && group !== 'none') continue;
          for (let n = 0; n <= maxN; n += extra === 'plain' || ctx.thorough ? 1 : 3)
            for (const step of [1, 2, 3])
              for (const thr of extra === 'plain' ? [2, 3, 4] : [3, 4]) yield { type, group, extra, n, step, thr, edits: [] };
        }
    const waits = ctx.thorough ? [0, 1, 2, 3, 9] : [0, 1, 9];
    for (const type of ctx.thorough ? types : ['rect', 'line'])
      for (const group of ['none', 'uneven'] as const)
        for (const extra of ['plain', 'groupEncode', 'transform', 'transform-static'] as const) {
          if (!ctx.thorough && extra === 'groupEncode' && group === 'none') continue;
          const conf = { type, group, extra, n: 7, step: 2, thr: 3 };
          for (const w1 of [0, 1, 2, 3, 9]) for (const e1 of EDITS) yield { ...conf, edits: [[w1, e1]] };
          for (const w1 of waits)
            for (const e1 of EDITS)
              for (const w2 of waits) for (const e2 of EDITS) {
                if (!ctx.thorough && (extra !== 'plain') && (w1 === 0 || w2 === 0)) continue;
                yield { ...conf, edits: [[w1, e1], [w2, e2]] };
              }
          if (ctx.thorough && extra === 'plain')
            for (const e1 of EDITS) for (const e2 of EDITS) for (const e3 of EDITS) for (const wt of [1, 9]) yield { ...conf, edits: [[1, e1], [wt, e2], [1, e3]] };
        }
  },
  run,
  nontrivial: c => c.n > c.thr || c.edits.length > 0
});

// W01: word cloud layouts place words without collisions inside the view; frames do not matter.
import { check, eq, ok, show, product, tuples, subsets } from '../lib/kit';
import { newView, releaseAll, Canvas } from '../lib/vg';
import { transform } from '@repo/vgrammar-wordcloud/src/wordcloud';
import { vglobal } from '@visactor/vrender-core';

newView();
releaseAll();
const G: any = globalThis;
const realDocument = G.document;
const RealDate = Date;
const fakeDocument = {
  createElement: () => {
    const c = Canvas.createCanvas(1, 1);
    c.setAttribute = (k: string, v: string) => (c[k] = +v);
    return c;
  }
};
void vglobal;

type Word = { text: string; size: number; rotate?: number };
type Case = { layout: string; words: Word[]; view: [number, number]; o: any; steps?: number[]; times?: number[]; again?: boolean };
const M = 80;
/** the pixels a word covers when it is drawn as wordcloud charts do: centred, on an alphabetic baseline */
function ink(w: any, text: string, view: [number, number], limit = 160): { in: Int32Array; out: number } {
  const W = view[0] + 2 * M;
  const H = view[1] + 2 * M;
  const c = Canvas.createCanvas(W, H);
  const x = c.getContext('2d');
  x.translate(w.x + M, w.y + M);
  x.rotate(w.angle || 0);
  x.font = `${w.fontStyle} ${w.fontWeight} ${w.fontSize}px ${w.fontFamily}`;
  x.textAlign = 'center';
  x.textBaseline = 'alphabetic';
  x.fillText(text, 0, 0);
  const d = x.getImageData(0, 0, W, H).data;
  const inside: number[] = [];
  let out = 0;
  for (let i = 0, n = W * H; i < n; i++)
    if (d[4 * i + 3] >= limit) {
      const px = (i % W) - M;
      const py = ((i / W) | 0) - M;
      if (px < 0 || py < 0 || px >= view[0] || py >= view[1]) out++;
      inside.push(i);
    }
  return { in: Int32Array.from(inside), out };
}

const rows = (c: Case) => c.words.map((w, i) => ({ id: i, ...w }));
const options = (c: Case) => ({
  text: { field: 'text' },
  fontSize: { field: 'size' },
  fontFamily: 'sans-serif',
  size: c.view,
  layoutType: c.layout,
  minFontSize: 2,
  ...(c.words.some(w => w.rotate !== undefined) ? { rotate: { field: 'rotate' } } : {}),
  ...c.o,
  ...(c.o.rotates ? { rotate: c.o.rotates } : {})
});
const picked = (r: any[]) => r.map((w: any) => ({ id: w.id, x: w.x, y: w.y, fontSize: w.fontSize, angle: w.angle }));

function judge(c: Case, out: any[], ctx: any) {
  ok(Array.isArray(out), 'result', `the result is ${out}`);
  const ids = out.map(w => w.id);
  if (!c.o.repeatFill) eq(new Set(ids).size, ids.length, 'twice', `placed words ${ids}`);
  ok(ids.every(i => c.words[i]), 'unknown', `placed words ${ids}`);
  out.forEach(w => ok([w.x, w.y, w.fontSize, w.angle].every(n => typeof n === 'number' && isFinite(n)), 'finite', `word ${w.id} is at ${w.x}, ${w.y}, size ${w.fontSize}, angle ${w.angle}`));
  // sizes
  const grid = c.layout === 'grid';
  if (!(grid && (c.o.shrink || c.o.repeatFill))) {
    const ratio = out.filter(w => c.words[w.id].size >= 1).map(w => w.fontSize / (c.layout === 'fast' ? c.words[w.id].size : Math.max(~~c.words[w.id].size, 0)));
    if (!c.o.fontSizeRange) ratio.forEach(r => ok(Math.abs(r - ratio[0]) < 1e-9, `${c.layout}-size`, `sizes are scaled by ${ratio}`));
    if (!c.o.shrink && !c.o.enlarge && !c.o.fontSizeRange) ratio.forEach(r => ok(r === 1, `${c.layout}-size`, `sizes are scaled by ${ratio}`));
    out.forEach(a => out.forEach(b => ok(c.words[a.id].size <= c.words[b.id].size || a.fontSize >= b.fontSize - 1e-9, `${c.layout}-order`, `word ${a.id} is smaller than ${b.id}`)));
  }
  if (c.o.fontSizeRange) out.forEach(w => ok(c.o.shrink || c.o.enlarge || (w.fontSize >= c.o.fontSizeRange[0] - 1 && w.fontSize <= c.o.fontSizeRange[1]), 'range', `size ${w.fontSize} is not in the range`));
  // angles are the ones asked for
  out.forEach(w => {
    const want = c.words[w.id].rotate ?? (c.o.rotates ? undefined : 0);
    if (want !== undefined) ok(Math.abs(w.angle - (want * Math.PI) / 180) < 1e-9, `${c.layout}-angle`, `angle ${w.angle} of word ${w.id}`);
    else ok(c.o.rotates.some((a: number) => Math.abs(w.angle - (a * Math.PI) / 180) < 1e-9), `${c.layout}-angle`, `angle ${w.angle} of word ${w.id}`);
  });
  // places
  const area: Record<number, number> = {};
  const inks = out.map(w => (w.fontSize < 5 ? { in: new Int32Array(0), out: 0 } : ink(w, c.words[w.id].text, c.view)));
  inks.forEach((k, i) => {
    if (!c.o.clip) ok(k.out <= 2, `${c.layout}-inside`, `${k.out} pixels of word ${ids[i]} (${c.words[ids[i]].text}) at ${out[i].x}, ${out[i].y} outside of ${c.view}`);
    let both = 0;
    let first = -1;
    k.in.forEach(p => {
      if (area[p] !== undefined) (both++, (first = area[p]));
      else area[p] = ids[i];
    });
    ok(both <= 2, `${c.layout}-overlap`, `${both} pixels of words ${first} and ${ids[i]} are the same`);
    ctx.compare();
  });
  ctx.state(picked(out));
  // words which are easy to place are placed
  const len = (w: Word) => w.text.length * w.size * 0.9 + 2 * w.size;
  const need = c.words.reduce((s, w) => s + len(w) * len(w), 0);
  if (!c.o.fontSizeRange && c.words.every(w => len(w) < 0.7 * Math.min(...c.view)) && need < 0.35 * c.view[0] * c.view[1] && (!c.o.shape || c.o.shape === 'square'))
    eq([...new Set(ids)].filter(i => c.words[i].text.trim() && c.words[i].size >= 1).sort(), c.words.map((w, i) => i).filter(i => c.words[i].text.trim() && c.words[i].size >= 1), `${c.layout}-placed`, 'placed words');
}

function run(c: Case, ctx: any) {
  const input = rows(c);
  const given = input.slice();
  const sync = transform(options(c) as any, input) as any;
  ctx.step();
  eq(input.map(r => r.id), given.map(r => r.id), 'order-of-data', 'rows of the data');
  judge(c, sync, ctx);
  const want = picked(sync);
  if (c.again) eq(picked(transform(options(c) as any, rows(c)) as any), want, 'again', 'another layout of the same words');
  // frames of so many words, or of so many ticks of a clock which advances at every look
  const frames = [...(c.steps ?? []).map(n => ({ progressiveStep: n })), ...(c.times ?? []).map(n => ({ progressiveTime: n }))] as any[];
  frames.forEach(frame => {
    const step = show(frame);
    const timed = frame.progressiveTime !== undefined;
    const r: any = transform({ ...options(c), ...frame } as any, rows(c));
    ok(r?.progressive, 'progressive', 'progressive layouts are progressive');
    const p = r.progressive;
    let seen = p.progressiveOutput() ?? [];
    let n = 0;
    while (p.unfinished()) {
      ok(n++ < 400, 'endless', `still unfinished after ${n} frames of ${step}`);
      const before = p.output().length;
      p.progressiveRun();
      const part = p.progressiveOutput();
      eq(p.output().length, before + part.length, timed ? 'time-part' : 'part', 'words of a frame');
      seen = seen.concat(part);
      ctx.step();
    }
    eq(picked(p.output()), want, timed ? 'time-frames' : 'frames', `words after all frames of ${step}`);
    eq(seen.map((w: any) => w.id), want.map(w => w.id), timed ? 'time-parts' : 'parts', `words of all frames of ${step}`);
    p.release();
    ok(!p.unfinished(), 'release', 'a released layout is unfinished');
  });
}

const VIEWS: [number, number][] = [[200, 150], [97, 61], [60, 200]];
const TEXTS = ['a', 'word', 'long words'];
function* lists(n: number, sizes: number[], texts = TEXTS): IterableIterator<Word[]> {
  const alphabet = [...product(texts, sizes)].map(([text, size]) => ({ text: text as string, size: size as number }));
  for (let i = 0; i <= n; i++) for (const t of tuples(alphabet, i)) yield t as Word[];
}
check<Case>({
  id: 'W01',
  level: 'exhaustive within bounds, on the real code',
  rule: 'words drawn with their layout: no common pixels, inside the view, sizes in proportion and order, rotated as asked, each at most once, easy ones placed; progressive layouts of every step end in the synchronous one',
  assumptions: ['texts are drawn centred on an alphabetic baseline', 'fonts of this machine'],
  *cases(ctx) {
    const deep = ctx.thorough;
    for (const layout of ['cloud', 'grid', 'fast']) {
      for (const view of VIEWS)
        for (const words of lists(deep ? 3 : 2, deep ? [11, 20, 34] : [12, 30])) yield { layout, words, view, o: {}, again: view === VIEWS[1] };
      // orientations
      for (const words of lists(2, [20], ['ab', 'xyzzy']))
        for (const angles of tuples([0, 90, -90, 45, 30, 180], words.length)) yield { layout, view: VIEWS[0], words: words.map((w, i) => ({ ...w, rotate: angles[i] })), o: {} };
      const many: Word[] = [30, 24, 24, 18, 14, 14, 12, 11].map((size, i) => ({ text: ['hello', 'ab', 'words', 'c', 'again', 'four', 'x', 'yes'][i], size }));
      for (const view of VIEWS)
        for (const words of [many, many.slice(2), many.slice().reverse(), many.filter((w, i) => i % 2)])
          for (const o of [
            {}, { shape: 'circle' }, { shape: 'cardioid' }, { shape: 'triangle' }, { shape: 'triangle-upright' }, { shape: 'diamond' }, { shape: 'star' }, { spiral: 'rectangular' },
            { shrink: true }, { enlarge: true }, { shrink: true, enlarge: true }, { shrink: true, shape: 'triangle' }, { shrink: true, shape: 'cardioid' }, { clip: true }, { padding: 5 }, { padding: 0 }, { rotates: [0, 90] }, { rotates: [45] }, { rotates: [-30, 60, 0] },
            { rotates: [0, 90], shrink: true }, { fontSizeRange: [10, 30] }, { fontSizeRange: [20, 20] }, { gridSize: 4 }, { gridSize: 11 }, { ellipticity: 0.6 }, { minFontSize: 12, shrink: true }
          ] as any[]) {
            if (layout === 'grid' && o.clip) continue; // texts are shortened
            yield { layout, view, words, o, steps: [1, 2, 3, 5, 9], times: [1, 2, 3, 5, 8, 30] };
          }
      // filled up with repeated words
      for (const view of VIEWS) for (const o of [{ repeatFill: true, fillTextFontSize: 9 }, { repeatFill: true, fillTextFontSize: 14, shape: 'triangle' }, { repeatFill: true, fillTextFontSize: 9, maxFailCount: 3 }] as any[])
        if (layout !== 'fast') for (const words of [many.slice(4), many.slice(0, 2), many.slice(5, 6)]) yield { layout, view, words, o, steps: [1, 4, 30], times: [2, 9] };
      // frames
      for (const words of lists(deep ? 3 : 2, [14, 40], ['ab', 'words'])) for (const o of [{}, { shrink: true }, { enlarge: true }, { shape: 'triangle' }] as any[]) yield { layout, view: [90, 60], words, o, steps: [1, 2], times: [1, 2, 4] };
      // unusual words
      for (const text of ['', ' ', '0', 'w'.repeat(60), '\u4e2d\u6587']) for (const size of [0, 0.5, 3, 20, 300]) for (const o of [{}, { shrink: true }] as any[]) for (const other of [[], [{ text: 'ab', size: 12 }]]) {
        yield { layout, view: [100, 80], words: [{ text, size }, ...other], o, steps: [1] };
      }
    }
  },
  run(c, ctx) {
    G.document = fakeDocument;
    let clock = 0;
    G.Date = class extends RealDate {
      constructor(...a: any[]) {
        super(...((a.length ? a : [clock++]) as [any]));
      }
      static now() {
        return clock++;
      }
    };
    try {
      run(c, ctx);
    } finally {
      G.document = realDocument;
      G.Date = RealDate;
    }
  },
  nontrivial: c => c.words.length > 0
});
void subsets;

// M06: drawn attributes. Channels which are derived (sizes of boxes, limits and types of texts, ends of rules, images of symbols, points and segments of lines)
// depend on the current channels and states alone, over histories of channels, states, data and animation.
import { view, releaseAll, vtime, VG } from '../lib/vg';
import { check, eq, ok, sequences, tuples, product, subsets, show } from '../lib/kit';

const num = (v: any) => typeof v === 'number' && isFinite(v);
const defined = (v: any) => v !== undefined && v !== null;

// --- what is drawn of the channels (c: merged; over: channels of the active states)
// a state which gives the end of a box whose size is given (or the reverse) is not judged: which of both counts is not told
function box(c: any, over: any, a: string, b: string, s: string) {
  if (Object.keys(over).length && num(c[s]) && num(c[b])) return {};
  const at = c[a] ?? 0;
  const sized = num(over[s]) || (!num(over[b]) && num(c[s]));
  if (sized) return { [a]: Math.min(at, c[b] ?? Infinity), [s]: c[s] };
  if (num(c[b])) return { [a]: Math.min(at, c[b]), [s]: Math.abs(c[b] - at) };
  return { [a]: at, [s]: undefined };
}
const DRAWN: Record<string, (c: any, over: any) => any> = {
  rect3d: (c, over) => ({ ...box(c, over, 'x', 'x1', 'width'), ...box(c, over, 'y', 'y1', 'height'), ...box(c, over, 'z', 'z1', 'length') }),
  rule: c => ({ x: 0, y: 0, points: ['x', 'y', 'x1', 'y1'].every(k => num(c[k])) ? [{ x: c.x, y: c.y }, { x: c.x1, y: c.y1 }] : [] }),
  symbol: c => ({
    symbolType: c.shape ?? c.symbolType ?? 'circle',
    fill: c.image ? false : c.fill,
    background: c.image ? c.image : c.background
  }),
  text: c => {
    const limit = Math.min(c.limit ?? Infinity, c.autoLimit ?? Infinity);
    const typed = c.text && typeof c.text === 'object' && !Array.isArray(c.text) && defined(c.text.text);
    const text = typed ? c.text.text : c.text;
    const kind = typed ? c.text.type : undefined;
    const dom = kind === 'html' || kind === 'react';
    return {
      maxLineWidth: limit === Infinity ? c.maxLineWidth : limit,
      text: dom ? c._originText ?? '' : kind === 'rich' ? undefined : text,
      html: kind === 'html' ? text : undefined,
      react: kind === 'react' ? text : undefined,
      visible: !dom
    };
  }
};
const norm = (type: string, at: any, want: any) => {
  const got: any = {};
  Object.keys(want).forEach(k => {
    got[k] = k === 'visible' ? at.renderable !== false : at[k] === null ? undefined : at[k];
    if (k === 'points') got[k] = (at.points ?? []).map((p: any) => ({ x: p.x, y: p.y }));
  });
  if (type === 'symbol') got.symbolType = got.symbolType ?? 'circle';
  if (type === 'text' && want.text === undefined) delete got.text;
  return got;
};
const clean = (o: any) => Object.fromEntries(Object.entries(o).map(([k, v]) => [k, v === null ? undefined : v]).filter(([k, v]) => v !== undefined));

const H = { type: 'html', text: { dom: '<b/>' } };
const R = { type: 'react', text: { element: 1 } };
// alphabets: assignments of channels; "+name" / "-" states
const BASE: Record<string, any> = {
  rect3d: { x: 4, y: 2, z: 3 },
  rule: { x: 1, y: 2, x1: 3, y1: 4 },
  symbol: { x: 1, y: 2, fill: 'red' },
  text: { x: 1, y: 2, text: 'abc' }
};
const SETS: Record<string, Record<string, any>> = {
  rect3d: {
    w: { width: 7 }, w0: { width: 0 }, wn: { width: null }, x1: { x1: 9 }, x1n: { x1: null }, x1m: { x1: -6 }, x: { x: 1 },
    h: { height: 5 }, hn: { height: undefined }, y1: { y1: -3 }, y1n: { y1: undefined }, l: { length: 8 }, ln: { length: null }, z1: { z1: 13 }, z1n: { z1: null }, z: { z: 6 },
    all1: { x1: 0, y1: 0, z1: 0 }, alln: { width: null, height: null, length: null }
  },
  rule: { x: { x: 5 }, x1: { x1: 0 }, x1n: { x1: null }, y1: { y1: 9 }, y: { y: 0 }, yn: { y: undefined }, xy: { x: 7, y: 7 } },
  symbol: {
    sh: { shape: 'square' }, shn: { shape: null }, st: { symbolType: 'circle' }, st2: { symbolType: 'triangle' }, f: { fill: 'green' }, fn: { fill: null }, i: { image: 'a.png' }, i2: { image: 'c.png' },
    in: { image: null }, b: { background: 'b.png' }, bn: { background: null }
  },
  text: {
    t: { text: 'x' }, t0: { text: 0 }, tn: { text: null }, ta: { text: ['p', 'q'] }, th: { text: H }, tr: { text: R }, tt: { text: { type: 'text', text: 'm' } }, o: { _originText: 'orig' },
    l: { limit: 10 }, l0: { limit: 0 }, ln: { limit: null }, a: { autoLimit: 6 }, an: { autoLimit: undefined }, m: { maxLineWidth: 20 }
  }
};
const STATES: Record<string, Record<string, any>> = {
  rect3d: { A: { width: 3, height: 3, length: 3 }, B: { x1: 20, y1: 20, z1: 20 }, C: { x: -5, y: -5, z: -5 } },
  rule: { A: { x: 30 }, B: { x1: 30, y1: 31 }, C: { y: 32 } },
  symbol: { A: { shape: 'star' }, B: { fill: 'blue' }, C: { image: 's.png' } },
  text: { A: { text: 'state' }, B: { limit: 4 }, C: { text: 'both', autoLimit: 3 } }
};
type Hist = { kind: 'history'; type: string; ops: string[]; animate: boolean; glyph?: boolean };
// the same channels on a part of a glyph
Object.keys(SETS).forEach(type => {
  (VG as any).Factory.registerGlyph('m06-' + type, { part: type } as any);
});
type Line = { kind: 'line'; type: string; segments: boolean; connect: boolean; rows: string[][]; withAll: boolean; style?: string };

// rows of a line: a string of points, each [style][defined]: 'a' / 'b' / '-' (no style), upper case: not defined
const STYLE: Record<string, string | undefined> = { a: 'red', b: 'blue', '-': undefined };
const grad = (o: any, ...stops: any[]) => ({ gradient: 'linear', x0: 0, y0: 0, x1: 1, y1: 0, ...o, stops: stops.map(([offset, color]) => ({ offset, color })) });
// other styles: channel and values which differ in one respect
const STYLES: Record<string, [string, () => any[]]> = {
  stops: ['stroke', () => [grad({}, [0, 'red'], [1, 'blue']), grad({}, [0, 'red'], [0.5, 'blue']), grad({}, [0, 'red'], [1, 'pink'])]],
  count: ['stroke', () => [grad({}, [0, 'red'], [1, 'blue']), grad({}, [0, 'red']), 'red']],
  direction: ['stroke', () => [grad({}, [0, 'red'], [1, 'blue']), grad({ x1: 0, y1: 1 }, [0, 'red'], [1, 'blue']), grad({ gradient: 'radial', x0: 0.5, y0: 0.5, r0: 0, x1: 0.5, y1: 0.5, r1: 1 }, [0, 'red'], [1, 'blue'])]],
  sides: ['stroke', () => [['red', 'blue'], ['red', 'pink'], 'red']],
  dash: ['lineDash', () => [[4, 2], [4, 3], [4, 2, 4]]],
  dashOffset: ['lineDashOffset', () => [0, 1, 2]],
  width: ['lineWidth', () => [1, 2, 0]],
  opacity: ['strokeOpacity', () => [1, 0.5, 0]],
  cap: ['lineCap', () => ['butt', 'round', 'square']],
  join: ['lineJoin', () => ['miter', 'round', 'bevel']],
  miter: ['miterLimit', () => [10, 5, 0]],
  fill: ['fill', () => ['red', 'blue', grad({}, [0, 'red'], [1, 'blue'])]],
  fillOpacity: ['fillOpacity', () => [1, 0.5, 0]],
  texture: ['texture', () => ['circle', 'diamond', 'rect']],
  textureColor: ['textureColor', () => ['red', 'blue', 'green']],
  textureSize: ['textureSize', () => [10, 5, 0]],
  texturePadding: ['texturePadding', () => [1, 2, 0]]
};
function rowsOf(code: string, shift: number, style?: string) {
  const value = (ch: string) => (style ? STYLES[style][1]()['abc'.indexOf(ch)] : STYLE[ch]);
  return code.split('').map((ch, i) => ({ k: 'p' + i, x: i * 10, y: (i * 7 + shift) % 5, s: value(ch.toLowerCase()), on: ch === ch.toLowerCase() }));
}

check<Hist | Line>({
  id: 'M06',
  level: 'model_checking',
  rule:
    'all sequences (to the depth) of assignments of the derived channels (present, zero, missing) and of setting and clearing states, of rect3d, rule, symbol and text marks, with and without animation; all lines and areas of up to 5 points with all combinations of styles and defined flags, ' +
    'with and without segments and connectNulls, and of up to 3 points with 17 kinds of styles (gradients, dashes, widths, opacities, textures) as segments, followed by a second line; the attributes given to the renderer are compared with a function of the current channels and states after each step',
  *cases(ctx) {
    for (const type of Object.keys(SETS)) {
      const ops = Object.keys(SETS[type]);
      const st = ['+A', '+B', '+C', '+AB', '+BC', '+CA', '-'];
      for (const s of sequences(ops, ctx.thorough ? 4 : 3, 1)) if (s.length < 4 || type !== 'rect3d') yield { kind: 'history', type, ops: s, animate: false };
      // states between assignments
      for (const s of sequences([...ops, ...st], 3, 2)) if (s.some(o => o[0] === '+')) yield { kind: 'history', type, ops: s, animate: false };
      for (const s of sequences(ops, 2, 1)) yield { kind: 'history', type, ops: s, animate: true };
      for (const s of sequences([...ops, ...st], ctx.thorough ? 3 : 2, 1)) yield { kind: 'history', type, ops: s, animate: false, glyph: true };
    }
    const alphabet = ['a', 'b', '-', 'A', 'B'];
    const seconds = ctx.thorough ? ['aab', 'aBaa', 'aaa', 'Aab', 'b'] : ['aab', 'aBa'];
    for (const type of ['line', 'area'])
      for (const segments of [false, true])
        for (const connect of [false, true])
          for (let n = 1; n <= (ctx.thorough ? 5 : 4); n++)
            for (const t of tuples(alphabet, n)) {
              yield { kind: 'line', type, segments, connect, rows: [t], withAll: false };
              if (n <= 3) for (const s of seconds) for (const withAll of [false, true]) yield { kind: 'line', type, segments, connect, rows: [t, s.split('')], withAll };
            }
    for (const style of Object.keys(STYLES))
      for (const type of /fill|texture/.test(style) ? ['area'] : ['line', 'area'])
        for (const connect of [false, true])
          for (let n = 2; n <= (ctx.thorough ? 4 : 3); n++)
            for (const t of tuples(['a', 'b', 'c', '-', 'A'], n)) yield { kind: 'line', type, segments: true, connect, rows: [t], withAll: false, style };
  },
  run(c, ctx) {
    try {
      if (c.kind === 'history') history(c, ctx);
      else line(c, ctx);
    } finally {
      releaseAll();
    }
  }
});

function history(c: Hist, ctx: any) {
  const v = view({ padding: 0, data: [{ id: 'd', values: [{ k: 'a' }] }], marks: [] } as any, {}, false);
  const mark: any = c.glyph ? v.glyph('m06-' + c.type, v.rootMark) : v.mark(c.type as any, v.rootMark);
  mark.join('d', 'k');
  const set = (a: any) => Object.keys(a).forEach(k => mark.encode(k, a[k]));
  mark.encode({ ...BASE[c.type] });
  Object.keys(STATES[c.type]).forEach(s => mark.encodeState(s, { ...STATES[c.type][s] }));
  const ticker = v.renderer.stage().ticker;
  if (c.animate) {
    mark.animation({ update: { duration: 100 }, enter: undefined } as any);
    ticker.stop();
    (ticker as any).start = () => false;
  }
  try {
    v.run();
    const model: any = { ...BASE[c.type] };
    let states: string[] = [];
    const compare = (what: string) => {
      const el: any = mark.elements[0];
      const over: any = {};
      states.forEach(s => Object.assign(over, STATES[c.type][s]));
      const want = DRAWN[c.type]({ ...model, ...over }, over);
      const got = norm(c.type, (c.glyph ? el.getGlyphGraphicItems().part : el.getGraphicItem()).attribute, want);
      ctx.compare();
      if (want.text === undefined) delete want.text;
      if (got.text === undefined) delete got.text;
      eq(clean(got), clean(want), `drawn:${c.type}`, `${what}: ${show({ ...model, ...over })}`);
      ctx.state([c.type, c.animate, model, states]);
    };
    compare('initially');
    c.ops.forEach((op, i) => {
      ctx.step();
      if (op[0] === '+') {
        states = op.slice(1).split('');
        mark.elements[0].useStates(states.slice());
      } else if (op === '-') {
        states = [];
        mark.elements[0].clearStates();
      } else {
        Object.assign(model, SETS[c.type][op]);
        set(SETS[c.type][op]);
        v.run();
        if (c.animate) {
          ticker.stop();
          (ticker as any).start = () => false;
          for (let t = 0; t < 4; t++) {
            vtime.advance(50);
            (ticker as any).timelines.slice().forEach((l: any) => l.tick(50));
          }
        }
      }
      compare(`after ${c.ops.slice(0, i + 1).join(' ')}`);
    });
  } finally {
    if (c.animate) delete (ticker as any).start;
  }
}

function line(c: Line, ctx: any) {
  const rows = (i: number) => rowsOf(c.rows[i].join(''), i, c.style);
  const channel = c.style ? STYLES[c.style][0] : 'stroke';
  const enc: any = {
    x: { field: 'x' },
    y: { field: 'y' },
    [channel]: (d: any) => d.s,
    defined: (d: any) => d.on
  };
  if (c.type === 'area') enc.y1 = 50;
  const encode: any = { update: enc };
  if (c.connect) encode.connectNulls = { stroke: 'pink' };
  const v = view({ padding: 0, data: [{ id: 'd', values: rows(0) }], marks: [{ type: c.type, id: 'm', from: { data: 'd' }, enableSegments: c.segments, encode }] } as any, {}, true);
  const mark: any = v.getMarkById('m');
  const compare = (rs: any[], what: string) => {
    ctx.compare();
    const at = mark.elements[0].getGraphicItem().attribute;
    const pt = (p: any) => `${p.x},${p.y}${p.defined === false ? '!' : ''}${c.type === 'area' ? ',' + p.y1 : ''}`;
    const rpt = (r: any) => `${r.x},${r.y}${r.on ? '' : '!'}${c.type === 'area' ? ',50' : ''}`;
    const segs: any[] | null = at.segments && at.segments.length ? at.segments : null;
    const points: any[] = segs ? [].concat(...segs.map(s => s.points)) : at.points ?? [];
    // every point is drawn, once, in its order; the points which are not defined may only be dropped if they are connected over
    const got = points.map(pt).filter(p => !(c.connect && segs && p.includes('!')));
    const want = rs.map(rpt).filter(p => !(c.connect && segs && p.includes('!')));
    eq(got, want, 'line:points', `${what}: points`);
    const key = (r: any) => rpt(r);
    const styleOf = new Map<string, any>(rs.map(r => [key(r), r.s]));
    const gapBefore = new Set<string>();
    for (let i = 1; i < rs.length; i++) if (rs[i].on && !rs[i - 1].on && rs.slice(0, i).some(r => r.on)) gapBefore.add(key(rs[i]));
    const drawn = rs.filter(r => r.on);
    if (segs) {
      segs.forEach((s, i) => {
        ok(s.points.length > 0, 'line:empty-segment', () => `${what}: segment ${i} has no points`);
        if (s.isConnect) {
          ok(s.stroke === 'pink', 'line:connect-style', () => `${what}: connecting segment ${i} is drawn ${s.stroke}`);
          ok(s.points.length === 1, 'line:connect-points', () => `${what}: connecting segment ${i} has ${s.points.length} points`);
        } else if (c.segments)
          s.points.forEach((p: any) => {
            if (styleOf.has(pt(p))) eq(s[channel] ?? undefined, styleOf.get(pt(p)), 'line:style', `${what}: style of ${pt(p)}`);
          });
      });
    } else if (c.segments) {
      // a single segment: all the styles are the same
      const st = new Set(rs.map(r => show(r.s)));
      const allowed = st.size <= 1 || (rs.length <= 1);
      ok(allowed, 'line:lost-styles', () => `${what}: drawn as one although the styles differ`);
    }
    if (c.connect && gapBefore.size) {
      ok(!!segs, 'line:unconnected', () => `${what}: gaps are not connected`);
      const connected = new Set((segs ?? []).filter(s => s.isConnect).map(s => pt(s.points[0])));
      gapBefore.forEach(k => ok(connected.has(k), 'line:unconnected', () => `${what}: the gap before ${k} is not connected`));
    }
    if (!c.connect && segs) ok(!segs.some(s => s.isConnect), 'line:connected', () => `${what}: connected`);
    // the style of the whole is the one of the first point
    if (!segs && rs.length && !c.segments) eq(at.stroke ?? undefined, rs[0].s, 'line:stroke', `${what}: stroke`);
    ctx.state([c.type, c.segments, c.connect, rs.map(r => [r.s, r.on]), drawn.length]);
  };
  compare(rows(0), c.rows[0].join(''));
  if (c.rows[1]) {
    ctx.step();
    if (c.withAll) v.getDataById('d').values(rows(1));
    else v.getDataById('d').values(rows(1));
    v.run();
    compare(rows(1), c.rows.map(r => r.join('')).join(' then '));
    if (c.withAll) {
      // only a style is encoded afterwards
      mark.encode({ lineWidth: 3 });
      v.run();
      compare(rows(1), c.rows.map(r => r.join('')).join(' then ') + ' then lineWidth');
      eq(mark.elements[0].getGraphicItem().attribute.lineWidth ?? mark.elements[0].getGraphicItem().attribute.segments?.[0]?.lineWidth, 3, 'line:lineWidth', 'line width');
    }
  }
}

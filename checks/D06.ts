// D06: width/height/padding/viewWidth/viewHeight/viewBox, the canvas and everything depending on them stay consistent.
import { newView, releaseAll, vtime, VG } from '../lib/vg';
import { check, eq, ok, sequences, show } from '../lib/kit';

type P = { top: number; right: number; bottom: number; left: number };
const PADS: Record<string, [any, P]> = {
  p0: [0, { top: 0, right: 0, bottom: 0, left: 0 }],
  p7: [7, { top: 7, right: 7, bottom: 7, left: 7 }],
  pl: [{ left: 9 }, { top: 0, right: 0, bottom: 0, left: 9 }],
  pa: [{ top: 1, right: 2, bottom: 3, left: 4 }, { top: 1, right: 2, bottom: 3, left: 4 }]
};
const OPS = ['w120', 'w60', 'h90', 'h200', 'vw100', 'vw50', 'vh70', ...Object.keys(PADS), 'rs150x110', 'rs60x90', 'rsq80x80', 'U', 'run', 'spec'];
// fallbacks of the padding, sizes of the container
const MORE = ['w120', 'h90', 'p7', 'rs60x90', 'rsq80x80', 'th11', 'th', 'c90x70', 'c64x50', 'spec', 'U', 'run'];
const THEME: any = { th11: { name: 'a', padding: 11 }, th: { name: 'b' }, own: { name: 'c', padding: { left: 8 } } };
declare const globalThis: any;
// the page: a window which can be resized, and the element which contains the view
const page = { listeners: [] as any[], observers: [] as any[], container: null as any };
globalThis.window = globalThis.window ?? {};
Object.assign(globalThis.window, {
  addEventListener: (type: string, f: any) => page.listeners.push({ type, f }),
  removeEventListener: (type: string, f: any) => {
    page.listeners = page.listeners.filter(l => l.type !== type || l.f !== f);
  },
  getComputedStyle: (el: any) => el.style,
  ResizeObserver: class {
    f: any;
    constructor(f: any) {
      this.f = f;
      page.observers.push(this);
    }
    observe() {}
    disconnect() {
      page.observers = page.observers.filter(o => o !== this);
    }
  }
});
const element = (w: number, h: number) => ({ clientWidth: w, clientHeight: h, style: { width: `${w}px`, height: `${h}px`, paddingLeft: '0px', paddingRight: '0px', paddingTop: '0px', paddingBottom: '0px' } });
let patched = false;
function patch() {
  if (patched) return;
  patched = true;
  const v = newView();
  let proto = Object.getPrototypeOf(v.renderer.stage().window);
  while (!Object.prototype.hasOwnProperty.call(proto, 'getContainer')) proto = Object.getPrototypeOf(proto);
  proto.getContainer = () => page.container;
  releaseAll();
}

function spec(m: any): any {
  return {
    ...m.spec,
    signals: [{ id: 'area', update: { callback: (s: any, p: any) => p.viewWidth * p.viewHeight, dependency: ['viewWidth', 'viewHeight'] } }],
    scales: [
      { id: 'x', type: 'linear', domain: [0, 1], range: { callback: (s: any, p: any) => [0, p.viewWidth], dependency: ['viewWidth'] } },
      { id: 'y', type: 'linear', domain: [0, 1], range: { callback: (s: any, p: any) => [p.viewBox.y1, p.viewBox.y2], dependency: ['viewBox'] } }
    ],
    marks: [
      {
        id: 'm', type: 'rect', dependency: ['width', 'height', 'padding', 'viewBox'],
        encode: { update: { x: { signal: 'viewWidth' }, y: { scale: 'y', value: undefined, field: 'zero' } as any, width: (d: any, e: any, p: any) => p.width, height: (d: any, e: any, p: any) => p.viewBox.x1 * 1000 + p.viewBox.y1 } }
      }
    ]
  };
}
check<{ ops: string[]; init: any }>({
  id: 'D06',
  level: 'model_checking',
  rule:
    'every sequence (to the depth) of width/height/viewWidth/viewHeight/padding/resize (with and without render)/updateSpec calls, with or without a run in between, ' +
    'from 3 initial configurations, and from 9 more which take sizes from the container (as it is resized) or the padding from options and themes; after each evaluation all seven size values, the canvas, the root group, scales, signals and marks that use them are compared with an 8-line model',
  *cases(ctx) {
    const inits = [{ opt: { width: 100, height: 80, padding: 5 }, spec: {} }, { opt: {}, spec: { width: 110, height: 70, padding: { left: 3, top: 2 } } }, { opt: { width: 100, height: 80, padding: 5 }, spec: { padding: 1, width: 90 } }];
    const more = [
      { opt: { width: 100, height: 80, padding: undefined }, spec: {} },
      { opt: { width: 100, height: 80, padding: undefined }, spec: { theme: THEME.own } },
      { opt: { width: 100, height: 80, padding: undefined, disableTheme: true }, spec: {} },
      { opt: { width: 100, height: 80, padding: undefined, disableTheme: true }, spec: { theme: THEME.own } },
      { opt: { width: undefined, height: undefined, padding: 3, autoFit: true }, spec: {}, box: [95, 75] },
      { opt: { width: undefined, height: undefined, padding: 3 }, spec: {}, box: [95, 75] },
      { opt: { width: undefined, height: 60, padding: 3, autoFit: true }, spec: {}, box: [95, 75] },
      { opt: { width: undefined, height: undefined, padding: 3, autoFit: true }, spec: { width: 88 }, box: [95, 75] },
      { opt: { width: 100, height: 80, padding: 0, autoFit: true }, spec: {} }
    ];
    for (const init of more) for (const ops of sequences(MORE, ctx.thorough ? 4 : 3, 0)) yield { ops, init };
    for (const init of inits) {
      for (const ops of sequences(OPS, 3, 1)) yield { ops, init };
      if (ctx.thorough) for (const ops of sequences(['w120', 'vw50', 'pl', 'p7', 'rs150x110', 'rsq80x80', 'run', 'U'], 6, 4)) yield { ops, init };
    }
  },
  run(c, ctx) {
    try {
      patch();
      page.listeners = [];
      page.observers = [];
      page.container = c.init.box ? element(c.init.box[0], c.init.box[1]) : null;
      const m: any = { spec: c.init.spec };
      m.w = c.init.spec.width ?? c.init.opt.width ?? c.init.box?.[0] ?? 0;
      m.h = c.init.spec.height ?? c.init.opt.height ?? c.init.box?.[1] ?? 0;
      // sizes which are given explicitly are kept when the container changes
      m.fw = c.init.spec.width ?? c.init.opt.width;
      m.fh = c.init.spec.height ?? c.init.opt.height;
      const norm = (p: any): P => (typeof p === 'number' ? { top: p, right: p, bottom: p, left: p } : { top: p?.top ?? 0, right: p?.right ?? 0, bottom: p?.bottom ?? 0, left: p?.left ?? 0 });
      const fallback = (VG as any).ThemeManager.getDefaultTheme().padding;
      m.theme = 'theme' in c.init.spec ? c.init.spec.theme.padding : c.init.opt.disableTheme ? undefined : fallback;
      const pad = () => norm(m.spec.padding ?? c.init.opt.padding ?? m.theme);
      m.p = pad();
      const v = newView({ ...c.init.opt });
      v.parseSpec(spec(m));
      v.run();
      // the size last given to the stage
      let canvas = [v.renderer.stage().viewWidth, v.renderer.stage().viewHeight];
      const stage0 = v.renderer.stage();
      const resize0 = stage0.resize;
      stage0.resize = function (w: number, h: number, ...r: any[]) {
        canvas = [w, h];
        return resize0.call(this, w, h, ...r);
      };
      const look = (what: string) => {
        const vw = m.w - m.p.left - m.p.right;
        const vh = m.h - m.p.top - m.p.bottom;
        const b = v.getViewBox();
        eq([v.width(), v.height()], [m.w, m.h], 'size', `${what}: size`);
        eq(v.padding(), m.p, 'padding', `${what}: padding`);
        eq([v.viewWidth(), v.viewHeight()], [vw, vh], 'view-size', `${what}: view size (size ${m.w}x${m.h}, padding ${show(m.p)})`);
        eq([b.x1, b.y1, b.x2, b.y2], [m.p.left, m.p.top, m.p.left + vw, m.p.top + vh], 'view-box', `${what}: viewBox`);
        ctx.compare(4);
        return [vw, vh];
      };
      const full = (what: string) => {
        const [vw, vh] = look(what);
        eq(canvas, [m.w, m.h], 'canvas', `${what}: canvas size`);
        ok(!v.renderer.shouldResize(m.w, m.h), 'canvas-pending', `${what}: renderer still wants to resize`);
        const root = v.rootMark.getGroupGraphicItem().attribute;
        eq([root.x, root.y, root.width, root.height], [0, 0, m.w, m.h], 'root', `${what}: root group`);
        eq(v.getSignalById('area').output(), vw * vh, 'dependent-signal', `${what}: signal of the view size`);
        eq(v.getScaleById('x').output().range(), [0, vw], 'dependent-scale', `${what}: range from viewWidth`);
        eq(v.getScaleById('y').output().range(), [m.p.top, m.p.top + vh], 'dependent-scale', `${what}: range from viewBox`);
        const a = v.getMarkById('m').elements[0].getGraphicItem().attribute;
        eq([a.x, a.width, a.height], [vw, m.w, m.p.left * 1000 + m.p.top], 'dependent-mark', `${what}: mark encoded from sizes`);
        ctx.compare(7);
        ctx.state([m.w, m.h, m.p]);
      };
      ok((v.getCurrentTheme() ?? null) === (c.init.spec.theme ?? (c.init.opt.disableTheme ? null : (VG as any).ThemeManager.getDefaultTheme())), 'theme', 'the theme of the view');
      full('initially');
      c.ops.forEach((op, i) => {
        ctx.step();
        let evaluated = false; // dataflow evaluated
        let rendered = false;
        const num2 = (s: string) => s.replace(/^[a-z]+/, '').split('x').map(Number);
        const num = (s: string) => +s.replace(/^[a-z]+/, '');
        if (op === 'run') {
          v.run();
          rendered = true;
        } else if (op === 'U') {
          v.updateSpec(spec(m));
          // updateSpec re-applies what the spec says; the width/height option otherwise stays
          if (m.spec.width) m.fw = m.w = m.spec.width;
          if (m.spec.height) m.fh = m.h = m.spec.height;
          m.theme = 'theme' in m.spec ? m.spec.theme.padding : c.init.opt.disableTheme ? undefined : fallback;
          m.p = pad();
          v.run();
          rendered = true;
        } else if (op === 'spec') {
          m.theme = c.init.opt.disableTheme ? undefined : fallback;
          m.spec = { width: 77, padding: { bottom: 6 } };
          m.fw = m.w = 77;
          m.p = norm(m.spec.padding);
          v.updateSpec(spec(m));
          v.run();
          rendered = true;
        } else if (op.startsWith('th')) {
          v.setCurrentTheme(THEME[op]);
          m.theme = THEME[op].padding;
          m.p = pad();
          rendered = true;
        } else if (op[0] === 'c') {
          const [cw, ch] = num2(op);
          page.container = c.init.box ? element(cw, ch) : null;
          page.listeners.forEach(l => l.type === 'resize' && l.f());
          page.observers.forEach(o => o.f());
          vtime.advance(150);
          if (c.init.opt.autoFit && c.init.box) {
            const w = m.spec.width ?? m.fw ?? cw;
            const h = m.spec.height ?? m.fh ?? ch;
            if (w !== m.w || h !== m.h) rendered = true;
            m.w = w;
            m.h = h;
          }
        } else if (op.startsWith('vw')) {
          v.viewWidth(num(op));
          m.fw = m.w = num(op) + m.p.left + m.p.right;
        } else if (op.startsWith('vh')) {
          v.viewHeight(num(op));
          m.fh = m.h = num(op) + m.p.top + m.p.bottom;
        } else if (op[0] === 'w') {
          v.width(num(op));
          m.fw = m.w = num(op);
        } else if (op[0] === 'h') {
          v.height(num(op));
          m.fh = m.h = num(op);
        } else if (op[0] === 'p') {
          v.padding(PADS[op][0]);
          m.p = PADS[op][1];
        } else {
          const quiet = op.startsWith('rsq');
          const [w, h] = num2(op);
          const changed = w !== m.w || h !== m.h;
          v.resize(w, h, !quiet);
          m.w = w;
          m.h = h;
          if (changed) {
            evaluated = true;
            rendered = !quiet;
          }
        }
        const what = `after ${c.ops.slice(0, i + 1).join(' ')}`;
        if (rendered) full(what);
        else if (evaluated) look(what);
      });
      v.run();
      full(`after ${c.ops.join(' ')} + run`);
    } finally {
      releaseAll();
    }
  }
});

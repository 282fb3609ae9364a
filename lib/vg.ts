import { vtime } from './vtime';
import * as VG from '@visactor/vgrammar';
import { Logger } from '@visactor/vutils';
declare const require: any;
declare const process: any;
export { VG, vtime };
export const Canvas = require(
  (process.env.VERIF_REPO || '/repo') + '/common/temp/node_modules/.pnpm/canvas@2.11.2/node_modules/canvas'
);
const A: any = VG;
Object.keys(A)
  .filter(k => /^register/.test(k) && A[k].length === 0)
  .forEach(k => {
    A[k]();
  });
export const logs: { level: string; msg: string }[] = [];
for (const c of ['log', 'warn', 'error', 'info', 'debug'] as const) {
  const orig = console[c].bind(console);
  (console as any)['__' + c] = orig;
  if (c !== 'log') (console as any)[c] = (...a: any[]) => logs.push({ level: c, msg: a.map(String).join(' ') });
}
void Logger;

const live: any[] = [];
// the ticker is shared by all views of the process: a case must not inherit a running one whose timers are gone
const tickers = new Set<any>();
export function newView(options: any = {}, config: any = {}): any {
  const v: any = new A.View(
    {
      width: 100,
      height: 80,
      padding: 0,
      mode: 'node',
      hover: false,
      dpr: 1,
      modeParams: { createCanvas: Canvas.createCanvas, createImageData: Canvas.createImageData, loadImage: Canvas.loadImage, Resvg: null },
      ...options
    },
    config
  );
  live.push(v);
  const ticker = v.renderer.stage().ticker;
  if (ticker) tickers.add(ticker);
  return v;
}
export function view(spec: any, options: any = {}, run: any = {}): any {
  const v = newView(options);
  v.parseSpec(spec);
  if (run !== false) v.run(run);
  return v;
}
export function releaseAll() {
  while (live.length) {
    const v = live.pop();
    try {
      if (v.renderer) v.release();
    } catch (e) {
      /* reported elsewhere */
    }
  }
  tickers.forEach(t => {
    t.timelines.forEach((l: any) => l.clear && l.clear());
    t.stop();
  });
  vtime.reset();
  logs.length = 0;
}
/** plain attributes of a graphic */
export function attrs(el: any): any {
  const gi = el.getGraphicItem ? el.getGraphicItem() : el;
  return gi ? { ...gi.attribute } : null;
}

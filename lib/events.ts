// Events as the renderer delivers them: through the event manager of vrender, from the target up to the stage.
import { EventManager, CustomEvent, vglobal } from '@visactor/vrender-core';
const managers = new WeakMap<any, any>();
/** dispatches an event on a graphic, or on the blank area of the view */
export function fire(v: any, type: string, graphic: any = null, extra: any = {}) {
  const stage = v.renderer.stage();
  if (!managers.has(stage)) managers.set(stage, new (EventManager as any)(stage, {}));
  const e: any = new CustomEvent(type, extra);
  const counts = { prevented: 0, stopped: 0 };
  e.manager = managers.get(stage);
  e.bubbles = true;
  e.cancelable = true;
  const stop = e.stopPropagation;
  e.preventDefault = () => counts.prevented++;
  e.stopPropagation = () => (counts.stopped++, stop.call(e));
  Object.assign(e, extra);
  (graphic ?? stage).dispatchEvent(e);
  return counts;
}
/** stands in for the event listeners of the window */
export function fakeWindow() {
  const g: any = vglobal;
  const add = g.addEventListener;
  const remove = g.removeEventListener;
  const all: { type: string; fn: any }[] = [];
  g.addEventListener = (type: string, fn: any) => all.push({ type, fn });
  g.removeEventListener = (type: string, fn: any) => {
    const i = all.findIndex(l => l.type === type && l.fn === fn);
    if (i >= 0) all.splice(i, 1);
  };
  return {
    all,
    fire(type: string) {
      const counts = { prevented: 0, stopped: 0 };
      const e = { type, target: {}, offsetX: 1, offsetY: 1, preventDefault: () => counts.prevented++, stopPropagation: () => counts.stopped++ };
      all.slice().forEach(l => l.type === type && l.fn(e));
      return counts;
    },
    restore() {
      g.addEventListener = add;
      g.removeEventListener = remove;
    }
  };
}
/** a pointer event at a position; the environment without a browser has no mapping of positions */
export function pointer(v: any, type: string, x: number, y: number, graphic: any = null, extra: any = {}) {
  const stage = v.renderer.stage();
  stage.eventPointTransform = (e: any) => ({ x: e.canvas.x, y: e.canvas.y });
  if (!managers.has(stage)) managers.set(stage, new (EventManager as any)(stage, {}));
  if (!stage.eventSystem) Object.defineProperty(stage, 'eventSystem', { configurable: true, value: { manager: managers.get(stage), release: () => {} } });
  return fire(v, type, graphic, { canvas: { x, y }, viewport: { x, y }, ...extra });
}

// I04: event selectors against the documented grammar.
import { newView, releaseAll } from '../lib/vg';
import { fire, fakeWindow } from '../lib/events';
import { parseEventSelector, generateFilterByMark } from '@repo/vgrammar-core/src/parse/event';
import { check, eq, ok, sequences } from '../lib/kit';

type Case = { kind: 'grammar'; prefix: string; name: string; type: string; source?: string } | { kind: 'any'; text: string } | { kind: 'bound'; prefix: string; name: string; type: string };
const TYPES = ['arc', 'arc3d', 'area', 'image', 'line', 'path', 'rect', 'rect3d', 'rule', 'shape', 'symbol', 'text', 'richtext', 'polygon', 'pyramid3d', 'circle', 'cell', 'interval', 'group', 'glyph', 'component', 'largeRects', 'largeSymbols'];
const EVENTS = ['click', 'mousedown', 'pointerup', 'a', 'wheel'];
const NAMES = ['a', 'ab', 'b', 'a b', 'rect', 'window', 'view', '@a', '#a', '##', '-1', '0', '', 'constructor', '__proto__', 'A', 'é', 'a.b', 'a[0]', 'a,b', '*'];
const render = (s: any, def: string) => (s.markId !== undefined ? '#' + s.markId + ':' : s.markName !== undefined ? '@' + s.markName + ':' : s.markType ? s.markType + ':' : s.source === 'window' && def !== 'window' ? 'window:' : '') + s.type;

check<Case>({
  id: 'I04',
  level: 'model_checking',
  rule:
    'every selector of the documented grammar over the alphabets of ids, names (with odd characters and names of types and prefixes), all mark types, event types and default sources: the parsed form is the one of the grammar, renders back to the selector, and its filter admits exactly the marks it denotes among all marks of the alphabets; ' +
    'every string over the separators, prefixes and words to the length: parsing terminates without an exception, does not change between calls, and a string with several separators binds nothing; bound selectors fire for exactly the marks they denote',
  assumptions: ['selectors with an unknown source are not judged'],
  *cases(ctx) {
    for (const type of EVENTS)
      for (const source of [undefined, 'view', 'window']) {
        for (const prefix of ['#', '@']) for (const name of NAMES) yield { kind: 'grammar', prefix, name, type, source };
        for (const name of TYPES) yield { kind: 'grammar', prefix: '', name, type, source };
        yield { kind: 'grammar', prefix: '', name: 'window', type, source };
        yield { kind: 'grammar', prefix: '-', name: '', type, source };
      }
    for (const s of sequences([':', '#', '@', 'rect', 'window', 'click', 'a', ' '], ctx.thorough ? 7 : 5, 0)) yield { kind: 'any', text: s.join('') };
    for (const prefix of ['#', '@']) for (const name of NAMES) if (name) yield { kind: 'bound', prefix, name, type: 'click' };
    for (const name of ['rect', 'symbol', 'group', 'text', 'line']) yield { kind: 'bound', prefix: '', name, type: 'click' };
  },
  nontrivial: c => (c.kind === 'any' ? c.text.includes(':') : true),
  run(c, ctx) {
    ctx.step();
    ctx.compare();
    if (c.kind === 'grammar') {
      const text = c.prefix === '-' ? c.type : c.prefix + c.name + ':' + c.type;
      const got: any = c.source ? parseEventSelector(text, c.source as any) : parseEventSelector(text);
      const want: any = { type: c.type, source: c.source ?? 'view' };
      if (c.prefix === '#') want.markId = c.name;
      else if (c.prefix === '@') want.markName = c.name;
      else if (c.prefix !== '-' && c.name === 'window') want.source = 'window';
      else if (c.prefix !== '-') want.markType = c.name;
      eq(got, want, 'grammar', `form of '${text}'`);
      if (!c.source) eq(render(got, 'view'), text, 'render', `rendering of '${text}'`);
      const admits = generateFilterByMark(got);
      const any = c.prefix === '-' || (!c.prefix && c.name === 'window');
      ctx.state(got);
      for (const id of [undefined, ...NAMES])
        for (const name of [undefined, ...NAMES])
          for (const markType of ['rect', 'group', c.prefix ? 'text' : c.name]) {
            const el: any = { mark: { id: () => id, name: () => name, markType } };
            const hit = any || (c.prefix === '#' ? id === c.name : c.prefix === '@' ? name === c.name : markType === c.name);
            ok(!!admits(el) === hit, 'filter', `'${text}' ${hit ? 'rejects' : 'admits'} a ${markType} with id ${id} and name ${name}`);
          }
      if (!any) ok(!admits(null as any) && !admits(undefined as any), 'filter', `'${text}' admits the blank area`);
      else ok(!!admits(null as any), 'filter', `'${text}' rejects the blank area`);
    } else if (c.kind === 'any') {
      const one = parseEventSelector(c.text);
      eq(parseEventSelector(c.text), one, 'pure', `forms of '${c.text}'`);
      ctx.state(one);
      const parts = c.text.split(':');
      if (parts.length > 2) eq([(one as any).type, one.source], [undefined, undefined], 'several', `form of '${c.text}'`);
      else if (parts.length === 1) eq(one, { type: c.text, source: 'view' }, 'plain', `form of '${c.text}'`);
      else eq(one.type, parts[1], 'type', `type of '${c.text}'`);
    } else {
      const win = fakeWindow();
      try {
        const v = newView();
        const calls: string[] = [];
        const other = c.name + 'x';
        v.parseSpec({
          data: [{ id: 'data', values: [{ k: 1 }] }],
          marks: ['hit', 'miss'].map((w, i) => ({
            id: c.prefix === '#' ? (i ? other : c.name) : w,
            ...(c.prefix === '@' ? { name: i ? other : c.name } : {}),
            type: c.prefix ? 'rect' : i ? 'circle' : c.name,
            from: c.name === 'group' && !i ? undefined : { data: 'data' },
            encode: { update: { x: 5, y: 5, width: 5, height: 5, fill: 'red' } }
          })),
          events: [
            { type: c.prefix + c.name + ':' + c.type, callback: (e: any) => calls.push(e.element.mark === m[0] ? 'hit' : 'miss') },
            { type: 'a:b:' + c.type, callback: () => calls.push('several') }
          ]
        });
        v.run();
        const m: any[] = v.rootMark.children;
        m.forEach((mark: any) => fire(v, c.type, mark.elements[0].getGraphicItem()));
        fire(v, c.type);
        eq(calls, ['hit'], 'bound', `calls of '${c.prefix + c.name + ':' + c.type}'`);
      } finally {
        win.restore();
        releaseAll();
      }
    }
  }
});

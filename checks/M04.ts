// M04: the scene tree mirrors the grammar tree. Histories of structural edits against a model of the tree; nothing is left of what was removed.
import { newView, releaseAll, vtime } from '../lib/vg';
import { check, eq, ok, fail, sequences, product, permutations } from '../lib/kit';

const BRIDGE = '__vgrammar_scene_item__';
const TABLES: any[][] = [[], [{ k: 'a', g: 'x', v: 1 }], [{ k: 'a', g: 'x', v: 2 }, { k: 'b', g: 'y', v: 3 }], [{ k: 'c', g: 'y', v: 5 }, { k: 'a', g: 'x', v: 4 }, { k: 'b', g: 'x', v: 6 }]];
const rows = (t: number) => TABLES[t].map(r => ({ ...r }));

/** the marks of the alphabet */
type Node = { id: string; kind: string; kids?: Node[]; z?: number };
const KIND: Record<string, string> = { a: 'symbol', b: 'rect', c: 'line', e: 'text', x: 'axis', g: 'group', h: 'group', y: 'glyph', l: 'label', r: 'one' };
const N = (id: string, kids?: Node[]): Node => ({ id, kind: KIND[id[0]], kids: KIND[id[0]] === 'group' ? kids || [] : undefined });

/** number of elements a mark of a kind has for a table */
function count(kind: string, t: number) {
  if (kind === 'line') return new Set(TABLES[t].map(r => r.g)).size;
  if (kind === 'axis' || kind === 'one' || kind === 'label') return 1;
  return TABLES[t].length;
}
function specOf(n: Node, anim: number): any {
  const s: any = { id: n.id };
  if (n.z !== undefined) s.zIndex = n.z;
  if (n.kind === 'group') {
    s.type = 'group';
    s.encode = { update: { x: 1, y: 1, width: 50, height: 40 } };
    s.marks = n.kids.map(k => specOf(k, anim));
  } else if (n.kind === 'axis') Object.assign(s, { type: 'component', componentType: 'axis', scale: 'xs', axisType: 'line', encode: { update: { start: { x: 0, y: 0 }, end: { x: 20, y: 0 } } } });
  else if (n.kind === 'label') Object.assign(s, { type: 'component', componentType: 'title', encode: { update: { text: 'T' } } });
  else if (n.kind === 'one') Object.assign(s, { type: 'rect', encode: { update: { x: 0, y: 0, width: 3, height: 3 } } });
  else if (n.kind === 'glyph') Object.assign(s, { type: 'glyph', glyphType: 'violin', from: { data: 'd' }, key: 'k', encode: { update: { x: { field: 'v' }, min: 1, q1: 2, median: 3, q3: 4, max: 5, density: () => [] as any[] } } });
  else {
    Object.assign(s, { type: n.kind, from: { data: 'd' }, ...(n.kind === 'line' ? { groupBy: 'g' } : { key: 'k' }) });
    s.encode = { update: { x: { field: 'v' }, y: 3, width: 2, height: 2, fill: 'red', text: { field: 'k' } }, exit: { opacity: 0 } };
  }
  if (anim && n.kind !== 'axis' && n.kind !== 'label') s.animation = anim === 1 ? { exit: { type: 'fadeOut', duration: 100 } } : { enter: { type: 'fadeIn', duration: 100 }, exit: { type: 'fadeOut', duration: n.id.length * 100 } };
  return s;
}
const clone = (n: Node): Node => ({ ...n, kids: n.kids && n.kids.map(clone) });
const walk = (ns: Node[], f: (n: Node, parent: Node) => void, parent: Node = null) => ns.forEach(n => { f(n, parent); n.kids && walk(n.kids, f, n); });
const find = (ns: Node[], id: string): Node => { let r: Node = null; walk(ns, n => { if (n.id === id) r = n; }); return r; };
const without = (ns: Node[], id: string): Node[] => ns.filter(n => n.id !== id).map(n => ({ ...n, kids: n.kids && without(n.kids, id) }));

const kidsOf = (gi: any): any[] => { const out: any[] = []; gi.forEachChildren && gi.forEachChildren((c: any) => { out.push(c); }); return out; };
const starListeners = (stage: any) => { const e = stage && stage._events && stage._events['*']; return e ? (Array.isArray(e) ? e.length : 1) : 0; };

function verify(v: any, tree: Node[], t: number, settled: boolean, seen: Map<any, string>, ctx: any) {
  ctx.state(JSON.stringify([tree, t]));
  ctx.compare();
  const stage = v.renderer.stage();
  const layer = v.__layer || stage.defaultLayer;
  const inTree = new Set<any>();
  const all = (n: any) => kidsOf(n).forEach(c => { inTree.add(c); all(c); });
  all(stage);
  const name = (gi: any) => seen.get(gi) || (gi[BRIDGE] ? `element ${gi[BRIDGE].key}` : `a foreign ${gi.type} '${gi.name}'`);
  const rootItems = kidsOf(layer);
  const root = v.rootMark;
  const liveMarks = new Set<any>([root]);
  const itemOf = (mark: any, n: Node) => (n.kind === 'group' ? mark.getGroupGraphicItem() : mark.graphicItem);
  const visit = (mark: any, kids: Node[], where: string) => {
    const gi = mark.getGroupGraphicItem();
    ok(!!gi, 'group-missing', `${where} has no graphic`);
    eq(gi[BRIDGE], mark.elements[0], 'bridge', `the element behind the graphic of ${where}`);
    const marks = kids.map(n => {
      const m = v.getMarkById(n.id);
      ok(m, 'lookup', `mark ${n.id} cannot be found by its id`);
      ok(m.group === mark, 'group', `mark ${n.id} is not in ${where}`);
      liveMarks.add(m);
      return m;
    });
    eq(mark.children.map((m: any) => m.id()), kids.map(n => n.id), 'children', `the children of ${where}`);
    const expected = kids.map((n, i) => itemOf(marks[i], n));
    expected.forEach((x, i) => { ok(!!x, 'no-graphic', `mark ${kids[i].id} has no graphic`); seen.set(x, `graphic of mark ${kids[i].id}`); });
    const actual = kidsOf(gi);
    const extra = actual.filter(x => !expected.includes(x));
    if (settled) ok(extra.length === 0, 'foreign', `below ${where} there is ${extra.map(name).join(', ')}`);
    const missing = expected.filter(x => !actual.includes(x));
    ok(missing.length === 0, 'missing', `below ${where} there is no ${missing.map(name).join(', ')}`);
    const order = actual.filter(x => expected.includes(x)).map(name);
    eq(order, expected.map(name), 'order', `the graphics below ${where}`);
    kids.forEach((n, i) => {
      const m = marks[i];
      eq(expected[i].attribute.zIndex || 0, n.z || 0, 'zindex', `the z-index of mark ${n.id}`);
      if (n.kind === 'group') {
        visit(m, n.kids, `group ${n.id}`);
        return;
      }
      const items = kidsOf(m.graphicItem);
      const els = m.elements;
      eq(els.length, count(n.kind, t), 'count', `number of elements of mark ${n.id}`);
      const gis = els.map((e: any) => e.getGraphicItem());
      gis.forEach((x: any, j: number) => {
        ok(!!x, 'no-graphic', `element ${j} of mark ${n.id} has no graphic`);
        seen.set(x, `element ${els[j].key} of mark ${n.id}`);
        ok(x.parent === m.graphicItem, 'parent', `the graphic of element ${j} of ${n.id} hangs elsewhere`);
        ok(x[BRIDGE] === els[j], 'bridge', `the graphic of element ${j} of mark ${n.id} does not lead back to it`);
        ok(els[j].mark === m, 'owner', `element ${j} of ${n.id} belongs to another mark`);
        ok(inTree.has(x), 'detached', `the graphic of element ${j} of ${n.id} is not on the stage`);
      });
      ok(new Set(gis).size === gis.length, 'shared', `two elements of ${n.id} share a graphic`);
      if (settled) {
        eq(items.length, gis.length, 'leftover', `number of graphics of mark ${n.id}`);
        eq(m.elementMap.size, els.length, 'leftover-elements', `number of elements kept by mark ${n.id}`);
      }
    });
  };
  if (settled) eq(rootItems.length, 1, 'root', 'number of graphics in the layer');
  ok(rootItems.includes(root.getGroupGraphicItem()), 'root', 'the graphic of the root is in the layer');
  visit(root, tree, 'root');
  eq(v.grammars.getAllMarks().length, liveMarks.size, 'registered', 'number of registered marks');
  if (settled) eq(starListeners(stage), liveMarks.size + v.__listeners, 'listeners', 'listeners of marks on the stage');
  // everything ever seen and no longer part of the tree is off the stage
  if (settled)
    seen.forEach((what, gi) => {
      if (inTree.has(gi)) return;
      ok(!gi.parent || !inTree.has(gi.parent), 'half-removed', `${what} still refers to a parent on the stage`);
      const el = gi[BRIDGE];
      ok(!el || !el.mark || !el.getGraphicItem || el.getGraphicItem() !== gi, 'leak', `${what} is off the stage, but still in use by a live element`);
    });
}

function settle(v: any) {
  for (let i = 0; i < 8; i++) vtime.advance(100);
}
type Case = { part: 'api' | 'spec' | 'release'; ops: string[]; every: number; anim: number; reuse?: number; start?: number };
const START: Node[][] = [
  [N('a'), N('g', [N('b'), N('h', [N('c')]), N('x')]), N('e')],
  [N('g', [N('a')]), N('h')],
  []
];
const SPECS: Record<string, () => Node[]> = {
  A: () => [N('a'), N('g', [N('b'), N('h', [N('c')])]), N('e')],
  B: () => [N('g', [N('a'), N('e')]), N('b')],
  C: () => [N('h', [N('g', [N('b'), N('c')])]), N('x')],
  D: () => [N('e'), N('b'), N('a')],
  E: () => [],
  F: () => [{ ...N('a'), z: 2 }, N('g', [N('x'), { ...N('b'), z: 1 }]), N('l')],
  G: () => [{ ...N('g', [N('h', [N('a')])]), z: 1 }, N('y'), N('e')]
};

check<Case>({
  id: 'M04',
  level: 'model_checking',
  rule:
    'every sequence of up to four structural edits (adding, removing and re-adding marks and nested groups through the API, moving marks between groups, data changes, dropping all graphics, z-index changes), evaluated after each or only after every second or third one; ' +
    'every chain of up to four of seven specifications with nested groups, with and without reuse, with and without exit animations which are interrupted or run out, over several tables; release at every point of such histories on own and given stages and layers; after each evaluation the whole scene tree, element bridges, mark registry and stage listeners are compared with a model of the tree',
  *cases(ctx) {
    const api = ['D0', 'D2', 'D3', '-a', '-b', '-h', '-g', '-c', '+a@', '+a@g', '+h@g', '+b@h', '+e@', '~a@g', '~b@', '~h@', '~e@h', 'G', 'Za', 'U', '*a', '*c', '*g', 'P'];
    for (const start of [0, 1, 2])
      for (const every of [1, 2, 3])
        for (const s of sequences(api, ctx.thorough || (every === 3 && start === 0) ? 3 : 2, Math.min(every, start && !ctx.thorough ? 2 : every))) yield { part: 'api', ops: s, every, anim: 0, start };
    const short = ['D1', 'D3', '-a', '-g', '+a@g', '+g@', '~a@g', '~a@', 'G', 'w50'];
    for (const anim of [1, 2]) for (const s of sequences(short, ctx.thorough ? 4 : 3, 1)) yield { part: 'api', ops: s, every: 1, anim, start: 1 };
    if (ctx.thorough) for (const s of sequences(short.slice(0, 9), 5, 5)) yield { part: 'api', ops: s, every: 1, anim: 0, start: 1 };
    const names = Object.keys(SPECS);
    for (const reuse of [0, 1]) {
      for (const s of sequences(names, ctx.thorough ? 5 : 4, 1)) yield { part: 'spec', ops: s, every: 1, anim: 0, reuse };
      for (const s of sequences([...names, 'd3', 'd1', 'w50', 'w150'], ctx.thorough ? 4 : 3, 2)) if (SPECS[s[0]]) for (const anim of [0, 1, 2]) yield { part: 'spec', ops: s, every: 1, anim, reuse };
      // two specs without an evaluation in between
      for (const s of sequences(names, 3, 3)) yield { part: 'spec', ops: s, every: 2, anim: 0, reuse };
    }
    for (const s of sequences(['A', 'B', 'G', 'd3', 'w50', 'i', 'E'], ctx.thorough ? 4 : 3, 1)) if (SPECS[s[0]]) for (const every of [0, 1, 2]) for (const anim of [0, 2]) yield { part: 'release', ops: s, every, anim, reuse: 0 };
  },
  nontrivial: c => c.ops.length > 1,
  run(c, ctx) {
    try {
      if (c.part === 'api') runApi(c, ctx);
      else if (c.part === 'spec') runSpec(c, ctx);
      else runRelease(c, ctx);
    } finally {
      releaseAll();
    }
  }
});

function base(v: any, t: number) {
  return { data: [{ id: 'd', values: rows(t) }], scales: [{ id: 'xs', type: 'band', domain: ['a', 'b'], range: [0, 20] }] };
}

function runApi(c: Case, ctx: any) {
  const v = newView();
  let tree = START[c.start].map(clone);
  let t = 2;
  v.parseSpec({ ...base(v, t), marks: tree.map(n => specOf(n, c.anim)) });
  v.__listeners = 1;
  v.run();
  settle(v);
  const seen = new Map<any, string>();
  verify(v, tree, t, true, seen, ctx);
  const add = (n: Node, group: string, noGroup = n.id === 'b' || n.id === 'e') => {
    const s = specOf(n, c.anim);
    const parse = (spec: any, parent: any) => {
      const m = v.mark(spec.type, parent, spec.type === 'component' ? { componentType: spec.componentType } : spec.type === 'glyph' ? { glyphType: spec.glyphType } : undefined);
      // a grammar is registered under the id given in the specification
      m.parse(noGroup ? { ...spec } : { ...spec, group: parent });
      (spec.marks || []).forEach((k: any) => parse(k, m));
    };
    parse(s, group ? v.getMarkById(group) : v.rootMark);
  };
  let pending = 0;
  for (const op of c.ops) {
    ctx.step();
    const [id, group] = op.slice(1).split('@');
    if (op[0] === 'D') {
      t = +id;
      v.getDataById('d').values(rows(t));
    } else if (op[0] === '-') {
      if (!find(tree, id)) return;
      const gone = [find(tree, id)];
      walk(find(tree, id).kids || [], n => gone.push(n));
      // a group is removed together with what it contains
      gone.forEach(n => v.removeGrammar(n.id));
      tree = without(tree, id);
    } else if (op[0] === '+') {
      if (find(tree, id) || (group && !find(tree, group))) return;
      const n = id === 'h' ? N('h', find(tree, 'c') ? [] : [N('c')]) : id === 'g' ? N('g', [N('r')].filter(k => !find(tree, k.id))) : N(id);
      add(n, group);
      (group ? find(tree, group).kids : tree).push(n);
    } else if (op[0] === '~') {
      const n = find(tree, id);
      if (!n || (group && !find(tree, group))) return;
      if (group && (group === id || (n.kids && find(n.kids, group)))) return;
      let parent: Node = null;
      walk(tree, (m, p) => { if (m.id === id) parent = p; });
      if ((parent ? parent.id : '') === group) return;
      const m = v.getMarkById(id);
      m.parse({ ...specOf({ ...n, kids: n.kids && [] }, c.anim), group: group ? group : 'root' });
      tree = without(tree, id);
      (group ? find(tree, group).kids : tree).push(n);
    } else if (op[0] === 'P') {
      // built without a specification, taken out and put back
      if (find(tree, 'p')) return;
      const m = v.mark('rect', v.rootMark).id('p').name('pn').encode({ x: 1, y: 2, width: 3, height: 4 });
      v.removeGrammar(m);
      v.addGrammar(m);
      tree.push({ id: 'p', kind: 'one' });
    } else if (op[0] === 'G') {
      if (pending) return;
      v.removeAllGraphicItems();
      v.getAllMarks ? v.getAllMarks().forEach((m: any) => m.commit()) : v.grammars.getAllMarks().forEach((m: any) => m.commit());
    } else if (op[0] === 'Z') {
      const n = find(tree, id);
      if (!n) return;
      n.z = (n.z || 0) + 1;
      v.getMarkById(id).configure({ zIndex: n.z });
      v.getMarkById(id).commit();
    } else if (op[0] === '*') {
      // taken out and put back before anything is evaluated
      const n = find(tree, id);
      if (!n || n.kids && n.kids.length) return;
      const m = v.getMarkById(id);
      v.removeGrammar(m);
      v.addGrammar(m);
    } else if (op[0] === 'U') {
      v.updateSpec({ ...base(v, t), marks: tree.map(n => specOf(n, c.anim)) });
    } else if (op[0] === 'w') {
      if (pending) return;
      vtime.advance(+id);
      continue;
    }
    if (++pending < c.every) continue;
    pending = 0;
    v.run(c.anim ? {} : { enableExitAnimation: false });
    verify(v, tree, t, !c.anim, seen, ctx);
    const p = tree.find(n => n.id === 'p');
    if (p && c.ops.indexOf('U') < 0) eq([v.getMarkById('p').name(), v.getMarkById('p').elements[0].getGraphicItem().attribute.height], ['pn', 4], 'readded', 'name and height of the mark put back');
  }
  if (c.anim) {
    settle(v);
    verify(v, tree, t, true, seen, ctx);
  }
}

function runSpec(c: Case, ctx: any) {
  const v = newView();
  v.__listeners = 1;
  const seen = new Map<any, string>();
  let t = 2;
  let tree: Node[] = null;
  let pending = 0;
  c.ops.forEach((op, i) => {
    ctx.step();
    if (op[0] === 'w') {
      vtime.advance(+op.slice(1));
      return;
    }
    if (op[0] === 'd') {
      t = +op.slice(1);
      v.getDataById('d').values(rows(t));
    } else {
      tree = SPECS[op]();
      const spec = { ...base(v, t), marks: tree.map(n => specOf(n, c.anim)) };
      if (i === 0) v.parseSpec(spec);
      else v.updateSpec(spec);
    }
    if (++pending < c.every && i < c.ops.length - 1) return;
    pending = 0;
    v.run({ reuse: !!c.reuse, morph: false });
    verify(v, tree, t, !c.anim, seen, ctx);
  });
  if (c.anim) {
    settle(v);
    verify(v, tree, t, true, seen, ctx);
  }
}

function runRelease(c: Case, ctx: any) {
  // every: 0 own stage, 1 given stage, 2 given stage and layer
  let stage: any = null;
  let layer: any = null;
  let other: any = null;
  if (c.every) {
    other = newView();
    other.run();
    stage = other.renderer.stage();
    if (c.every === 2) layer = stage.createLayer();
  }
  settle(null);
  const before = stage && snapshot(stage);
  const v = newView(c.every ? { stage, ...(layer ? { layer } : {}) } : {});
  v.__listeners = 1;
  if (layer) v.__layer = layer;
  const seen = new Map<any, string>();
  let t = 2;
  let tree: Node[] = [];
  let calls = 0;
  c.ops.forEach((op, i) => {
    ctx.step();
    if (op[0] === 'w') vtime.advance(+op.slice(1));
    else if (op === 'i') {
      v.addEventListener('click', () => calls++);
      v.interaction('element-highlight', { selector: tree[0] ? [tree[0].id] : [], trigger: 'pointerover', triggerOff: 'pointerout' });
    } else {
      if (op[0] === 'd') {
        t = +op.slice(1);
        v.getDataById('d').values(rows(t));
      } else {
        tree = SPECS[op]();
        const spec = { ...base(v, t), marks: tree.map(n => specOf(n, c.anim)) };
        if (i === 0) v.parseSpec(spec);
        else v.updateSpec(spec);
      }
      v.run({ reuse: false, morph: false });
      if (c.every !== 1) verify(v, tree, t, false, seen, ctx);
    }
  });
  const own = v.renderer.stage();
  const marks = v.grammars.getAllMarks().slice();
  v.release();
  ctx.state('released ' + JSON.stringify([tree, t]));
  ctx.compare();
  if (stage) {
    settle(null);
    eq(snapshot(stage), before, 'release-residue', 'the given stage after the release of the view');
  } else {
    eq(starListeners(own), 0, 'release-listeners', 'listeners on the released stage');
  }
  marks.forEach((m: any) => ok(!m.view && !(m.elements || []).length, 'release-mark', 'a mark still refers to its view or elements after the release'));
  seen.forEach((what, gi) => ok(!gi.parent || gi.releaseStatus === 'released' || gi.parent.releaseStatus === 'released' || !gi[BRIDGE], 'release-graphic', `${what} is still in use after the release`));
  // nothing runs on after the release
  settle(null);
  eq(vtime.pending(), 0, 'release-timer', 'pending timers after the release of the view');
}

function snapshot(stage: any) {
  const tree = (n: any): any => kidsOf(n).map(k => [k.type, k.name, tree(k)]);
  const ev: any = {};
  Object.keys(stage._events || {}).forEach(k => {
    const e = stage._events[k];
    const n = Array.isArray(e) ? e.length : e ? 1 : 0;
    if (n) ev[k] = n;
  });
  return { tree: tree(stage), events: ev };
}

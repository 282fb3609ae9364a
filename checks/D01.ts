// D01: dataflow evaluation order / exactly-once / glitch freedom, on the real View + Signal + Dataflow code.
import { newView, releaseAll, VG } from '../lib/vg';
import { check, eq, fail, ok, permutations, subsets, sequences } from '../lib/kit';
import { Heap } from '@repo/vgrammar-core/src/util/grammar-heap';
void VG;

type Dag = number[][]; // deps[i] = list of j < i
type Case =
  | { kind: 'dag'; n: number; dag: Dag; create: number[]; wire: 'update' | 'depend' | 'ids'; rewire?: Dag }
  | { kind: 'heap'; ranks: number[]; ops: string[] }
  | { kind: 'late'; n: number; dag: Dag; late: number }
  | { kind: 'recommit'; n: number; dag: Dag; create: number[]; by: number; victim: number; from: number[] }
  | { kind: 'remove'; n: number; dag: Dag; create: number[]; by: number; victim: number };

function* dags(n: number): Generator<Dag> {
  function* rec(i: number, acc: Dag): Generator<Dag> {
    if (i === n) {
      yield acc;
      return;
    }
    for (const s of subsets(Array.from({ length: i }, (_, k) => k))) yield* rec(i + 1, [...acc, s]);
  }
  yield* rec(0, []);
}

const descendants = (dag: Dag, from: number[]) => {
  const s = new Set(from);
  for (let i = 0; i < dag.length; i++) if (dag[i].some(j => s.has(j))) s.add(i);
  return s;
};

class World {
  view: any = newView();
  sig: any[] = [];
  log: number[] = [];
  hook: (i: number) => void = null;
  /** model */
  value: string[] = [];
  base: string[] = [];
  tick = 0;
  constructor(public n: number, public dag: Dag, create: number[], public wire: string) {
    for (const i of create) {
      const s = this.view.signal();
      s.id('n' + i);
      this.sig[i] = s;
      this.base[i] = 'b' + i;
    }
  }
  wireNode(i: number) {
    const deps = this.dag[i];
    const run = (get: (j: number) => any) => {
      this.log.push(i);
      this.hook && this.hook(i);
      return `${this.base[i]}(${deps.map(get).join(',')})`;
    };
    const s = this.sig[i];
    if (this.wire === 'depend') {
      // inputs read through instances, declared with depend()
      s.update({ callback: () => run(j => this.sig[j].output()), dependency: [] });
      s.depend(deps.map(j => this.sig[j]));
    } else if (this.wire === 'ids') {
      s.update({ callback: (prev: any, p: any) => run(j => p['n' + j]), dependency: deps.map(j => 'n' + j) });
    } else {
      s.update({ callback: (prev: any, p: any) => run(j => p['n' + j]), dependency: deps.map(j => this.sig[j]) });
    }
  }
  modelValue(i: number): string {
    return `${this.base[i]}(${this.dag[i].map(j => this.value[j]).join(',')})`;
  }
  run(commit: number[], ctx: any, what: string, all = false) {
    this.tick++;
    for (const i of commit) {
      this.base[i] = `t${this.tick}b${i}`;
      this.sig[i].commit();
    }
    this.log = [];
    this.view.run();
    ctx.step();
    const expect = all ? new Set(this.dag.map((_, i) => i)) : descendants(this.dag, commit);
    for (let i = 0; i < this.n; i++) if (expect.has(i)) this.value[i] = this.modelValue(i);
    const counts: Record<number, number> = {};
    this.log.forEach(i => (counts[i] = (counts[i] || 0) + 1));
    for (let i = 0; i < this.n; i++) {
      const c = counts[i] || 0;
      if (expect.has(i)) {
        ok(c > 0, 'not-evaluated', () => `${what}: node ${i} depends on committed ${commit} but was not re-evaluated (order ${this.log})`);
        ok(c === 1, 'evaluated-twice', () => `${what}: node ${i} evaluated ${c} times in one run (order ${this.log})`);
      } else ok(c === 0, 'spurious-evaluation', () => `${what}: node ${i} is not downstream of ${commit} but was evaluated`);
      ctx.compare();
    }
    const pos: Record<number, number> = {};
    this.log.forEach((i, k) => (pos[i] = k));
    for (let i = 0; i < this.n; i++)
      for (const j of this.dag[i])
        if (expect.has(i) && expect.has(j))
          ok(pos[j] < pos[i], 'order', () => `${what}: node ${i} evaluated before its input ${j} (order ${this.log})`);
    for (let i = 0; i < this.n; i++)
      eq(this.sig[i].output(), this.value[i], 'stale-value', `${what}: value of node ${i}`);
    ctx.state([this.dag, this.log]);
  }
}

check<Case>({
  id: 'D01',
  level: 'model_checking',
  rule:
    'all DAGs of n signals x all creation orders x wiring style, all committed subsets run in sequence, plus rewiring to every other DAG (n=3) and late additions, removals and marks during an evaluation; ' +
    'and all push/re-rank/remove/pop sequences of the priority queue against a sorted list',
  *cases(ctx) {
    for (const wire of ['update', 'depend', 'ids'] as const)
      for (const dag of dags(3))
        for (const create of permutations([0, 1, 2]))
          for (const rewire of dags(3)) yield { kind: 'dag', n: 3, dag, create, wire, rewire };
    const n4: number[][] = ctx.thorough ? Array.from(permutations([0, 1, 2, 3])) : Array.from(permutations([0, 1, 2, 3]));
    for (const dag of dags(4)) for (const create of n4) yield { kind: 'dag', n: 4, dag, create, wire: 'update' };
    if (ctx.thorough) {
      for (const dag of dags(5)) for (const create of permutations([0, 1, 2, 3, 4])) yield { kind: 'dag', n: 5, dag, create, wire: 'update' };
      for (const dag of dags(4))
        for (const rewire of dags(4))
          for (const create of [[0, 1, 2, 3], [3, 2, 1, 0], [2, 0, 3, 1]]) yield { kind: 'dag', n: 4, dag, create, wire: 'ids', rewire };
    } else {
      for (const dag of dags(5)) for (const create of [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 4, 0, 3, 1]]) yield { kind: 'dag', n: 5, dag, create, wire: 'update' };
    }
    for (const dag of dags(4)) for (let late = 0; late < 4; late++) yield { kind: 'late', n: 4, dag, late };
    for (const dag of dags(4))
      for (const create of [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]])
        for (let by = 0; by < 4; by++)
          for (let victim = 0; victim < 4; victim++) if (victim !== by) yield { kind: 'remove', n: 4, dag, create, by, victim };
    if (ctx.thorough)
      for (const dag of dags(5))
        for (const create of [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0]])
          for (let by = 0; by < 3; by++) for (let victim = by + 1; victim < 5; victim++) yield { kind: 'remove', n: 5, dag, create, by, victim };
    // a grammar is marked dirty while another one is being evaluated: it belongs to the next evaluation
    for (const dag of dags(4))
      for (const create of [[0, 1, 2, 3], [3, 2, 1, 0]])
        for (let by = 0; by < 4; by++)
          for (let victim = 0; victim < 4; victim++)
            for (const from of [[0], [by], [0, 1, 2, 3]]) yield { kind: 'recommit', n: 4, dag, create, by, victim, from };
    // heap: nodes a,b,c,d ; push/remove each, pop, re-rank
    const ops = ['+0', '+1', '+2', '+3', '-0', '-1', '-2', '-3', 'pop', 'r0', 'r2'];
    for (const ranks of ctx.thorough ? Array.from(permutations([1, 2, 3, 4])) : [[1, 2, 3, 4], [4, 3, 2, 1], [2, 4, 1, 3]])
      for (const s of sequences(ops, ctx.thorough ? 5 : 4, 2)) {
        if (s[0][0] !== '+') continue;
        yield { kind: 'heap', ranks, ops: s };
      }
    // larger heaps with removals: every insertion order of 6, remove any one or two, then drain
    for (const p of permutations([0, 1, 2, 3, 4, 5]))
      for (let i = 0; i < 6; i++) {
        yield { kind: 'heap', ranks: [1, 2, 3, 4, 5, 6], ops: [...p.map(x => '+' + x), '-' + i] };
        yield { kind: 'heap', ranks: [1, 2, 3, 4, 5, 6], ops: [...p.map(x => '+' + x), 'r' + i, '-' + ((i * 2 + 1) % 6)] };
      }
  },
  run(c, ctx) {
    try {
      if (c.kind === 'heap') return heapCase(c, ctx);
      if (c.kind === 'remove') {
        const w = new World(c.n, c.dag, c.create, 'update');
        const all = Array.from({ length: c.n }, (_, i) => i);
        for (const i of all) w.wireNode(i);
        w.run([], ctx, 'first run', true);
        let removedAt = -1;
        w.hook = i => {
          if (i === c.by && removedAt < 0) {
            w.view.removeGrammar(w.sig[c.victim]);
            removedAt = w.log.length;
          }
        };
        all.forEach(i => w.sig[i].commit());
        w.log = [];
        w.view.run();
        ctx.step();
        const at = w.log.indexOf(c.victim);
        // (an input evaluated after the removal may still re-queue the victim: its edges are only detached at the next run)
        if (c.dag[c.victim].every(j => w.log.indexOf(j) < removedAt - 1))
        ok(at < removedAt, 'evaluated-after-removal', () => `node ${c.victim} was removed at step ${removedAt} but evaluated at step ${at} (${w.log})`);
        for (const i of all) {
          const n = w.log.filter(x => x === i).length;
          if (i === c.victim) ok(n <= 1, 'evaluated-twice', () => `removed node evaluated ${n} times`);
          else ok(n === 1, n ? 'evaluated-twice' : 'not-evaluated', () => `node ${i} evaluated ${n} times in the run that removed ${c.victim} (${w.log})`);
          for (const j of c.dag[i])
            if (w.log.includes(j) && w.log.includes(i))
              ok(w.log.indexOf(j) < w.log.indexOf(i), 'order', () => `node ${i} evaluated before its input ${j} (${w.log})`);
        }
        ctx.compare(c.n);
        ctx.state([c.dag, w.log, removedAt]);
        return;
      }
      if (c.kind === 'recommit') {
        const w = new World(c.n, c.dag, c.create, 'update');
        const all = Array.from({ length: c.n }, (_, i) => i);
        for (const i of all) w.wireNode(i);
        w.run([], ctx, 'first run', true);
        let marked = false;
        w.hook = i => {
          if (i === c.by && !marked) {
            marked = true;
            w.sig[c.victim].commit();
          }
        };
        w.run(c.from, ctx, `commit ${c.from}, node ${c.victim} is marked during ${c.by}`);
        w.hook = null;
        if (marked) {
          w.log = [];
          w.view.run();
          ctx.step();
          const want = [...descendants(c.dag, [c.victim])].sort();
          eq(w.log.slice().sort(), want, 'not-evaluated', `nodes evaluated after node ${c.victim} was marked during the evaluation of ${c.by}`);
          for (const i of want) for (const j of c.dag[i]) if (want.includes(j)) ok(w.log.indexOf(j) < w.log.indexOf(i), 'order', () => `node ${i} evaluated before its input ${j} (${w.log})`);
        }
        w.log = [];
        w.view.run();
        eq(w.log, [], 'spurious-evaluation', 'nodes evaluated when nothing was marked');
        return;
      }
      if (c.kind === 'late') {
        // the graph is built and run without one node; the node is added later with its own inputs and dependents
        const others = Array.from({ length: c.n }, (_, i) => i).filter(i => i !== c.late);
        const w = new World(c.n, c.dag, others, 'update');
        const full = c.dag;
        w.dag = full.map((d, i) => (i === c.late ? [] : d.filter(j => j !== c.late)));
        w.sig[c.late] = w.view.signal();
        w.sig[c.late].id('n' + c.late);
        w.base[c.late] = 'b' + c.late;
        w.view.removeGrammar(w.sig[c.late]);
        for (const i of others) w.wireNode(i);
        w.n = c.n;
        // first run: without the late node
        const savedDag = w.dag;
        w.log = [];
        w.view.run();
        ctx.step();
        for (const i of others) w.value[i] = w.modelValue(i);
        for (const i of others) eq(w.sig[i].output(), w.value[i], 'stale-value', `before the late node: value of ${i}`);
        void savedDag;
        // add it
        const s = w.view.signal();
        s.id('n' + c.late);
        w.sig[c.late] = s;
        w.dag = full;
        w.wireNode(c.late);
        for (let i = 0; i < c.n; i++) if (full[i].includes(c.late)) w.wireNode(i);
        const committed = [c.late, ...full.map((d, i) => (d.includes(c.late) ? i : -1)).filter(i => i >= 0)];
        w.run(committed, ctx, 'after adding the late node');
        for (const sub of subsets([0, 1, 2, 3])) if (sub.length) w.run(sub, ctx, 'commit ' + sub);
        return;
      }
      const w = new World(c.n, c.dag, c.create, c.wire);
      for (let i = 0; i < c.n; i++) w.wireNode(i);
      w.run([], ctx, 'first run', true);
      const all = Array.from({ length: c.n }, (_, i) => i);
      for (const sub of subsets(all)) {
        if (!sub.length) continue;
        // commit in both directions: the commit order must not matter
        w.run(sub, ctx, `commit ${sub}`);
        if (sub.length > 1 && c.n < 5) w.run(sub.slice().reverse(), ctx, `commit ${sub.slice().reverse()}`);
        if (c.rewire && c.n > 3 && sub.length > 1) break;
      }
      if (c.rewire) {
        const old = c.dag;
        w.dag = c.rewire;
        const touched: number[] = [];
        for (let i = c.n - 1; i >= 0; i--) {
          if (JSON.stringify(old[i]) !== JSON.stringify(c.rewire[i])) {
            w.wireNode(i);
            touched.push(i);
          }
        }
        w.run(touched, ctx, 'rewired');
        for (const sub of subsets(all)) if (sub.length) w.run(sub, ctx, `after rewiring, commit ${sub}`);
        // rewire back: no stale edges may survive
        w.dag = old;
        const t2: number[] = [];
        for (let i = 0; i < c.n; i++)
          if (JSON.stringify(old[i]) !== JSON.stringify(c.rewire[i])) {
            w.wireNode(i);
            t2.push(i);
          }
        w.run(t2, ctx, 'rewired back');
        for (const i of all) w.run([i], ctx, `rewired back, commit ${i}`);
      }
    } finally {
      releaseAll();
    }
  }
});

function heapCase(c: any, ctx: any) {
  const nodes = c.ranks.map((r: number, i: number) => ({ i, r }));
  const h = new Heap((a: any, b: any) => a?.r - b?.r);
  let model: any[] = [];
  const step = (op: string) => {
    ctx.step();
    if (op === 'pop') {
      const got = h.pop();
      if (!model.length) {
        ok(got === undefined, 'heap-pop-empty', `pop on an empty queue gave ${JSON.stringify(got)}`);
        return;
      }
      const min = Math.min(...model.map(n => n.r));
      ok(got && got.r === min, 'heap-pop', () => `pop gave ${JSON.stringify(got)}, smallest is ${min} of ${JSON.stringify(model)}`);
      model = model.filter(n => n !== got);
    } else {
      const n = nodes[+op.slice(1)];
      if (op[0] === '+') {
        h.push(n);
        if (!model.includes(n)) model.push(n);
      } else if (op[0] === '-') {
        h.remove(n);
        model = model.filter(x => x !== n);
      } else {
        n.r = n.r > 2 ? n.r - 2.5 : n.r + 2.5; // rank changed, re-pushed (as the dataflow does)
        if (model.includes(n)) h.push(n);
      }
    }
    ok(h.size() === model.length, 'heap-size', () => `after ${op}: size ${h.size()}, expected ${model.length}`);
    ctx.state([c.ranks, model.map(n => [n.i, n.r])]);
    ctx.compare();
  };
  c.ops.forEach(step);
  while (model.length) step('pop');
  step('pop');
  void fail;
}

'use strict';
// usage: node lib/run.js <property> [--replay file]
const path = require('path');
const fs = require('fs');
const os = require('os');
const { spawn } = require('child_process');
const { bundle } = require('./bundle.js');

const VERIF = path.resolve(__dirname, '..');
const id = process.argv[2];
const replay = process.argv[3] === '--replay' ? process.argv[4] : null;
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = parseInt(process.env.VERIF_SEED || '1', 10) || 0;
const HANG_MS = +(process.env.KIT_HANG_MS || 60000);
const BUDGET = +(process.env.KIT_BUDGET_MS || (tier === 'thorough' ? 0 : 600000));

(async () => {
  const t0 = Date.now();
  const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'verif-' + id + '-'));
  const cleanup = () => fs.rmSync(tmp, { recursive: true, force: true });
  let code = 2;
  const kids = new Set();
  for (const s of ['SIGTERM', 'SIGINT', 'SIGHUP']) {
    process.on(s, () => {
      kids.forEach(k => k.kill('SIGKILL'));
      cleanup();
      process.exit(2);
    });
  }
  try {
    code = await go(tmp, kids, t0);
  } catch (e) {
    console.error('check error:', e && e.stack ? e.stack : e);
    code = 2;
  }
  cleanup();
  process.exit(code);
})();

function runChild(js, env, kids, onHang, progressFile) {
  return new Promise((resolve) => {
    const k = spawn(process.execPath, ['--max-old-space-size=3000', '--enable-source-maps', js], {
      env: { ...process.env, ...env, NODE_OPTIONS: '' },
      stdio: ['ignore', env.KIT_VERBOSE || process.env.KIT_VERBOSE ? 'inherit' : 'ignore', 'pipe']
    });
    kids.add(k);
    let err = '';
    k.stderr.on('data', d => {
      if (err.length < 20000) err += d;
    });
    let last = -1, lastT = Date.now(), hung = false;
    const timer = progressFile && setInterval(() => {
      let cur = -1;
      try {
        const b = fs.readFileSync(progressFile);
        if (b.length === 8) cur = b.readDoubleLE(0);
      } catch (e) { /* not yet */ }
      if (cur !== last) {
        last = cur;
        lastT = Date.now();
      } else if (Date.now() - lastT > HANG_MS) {
        hung = true;
        k.kill('SIGKILL');
      }
    }, 500);
    k.on('close', c => {
      timer && clearInterval(timer);
      kids.delete(k);
      let cur = last;
      try { const b = fs.readFileSync(progressFile); if (b.length === 8) cur = b.readDoubleLE(0); } catch (e) { /* ignore */ }
      resolve({ code: c, err, hung, index: cur });
    });
  });
}

async function go(tmp, kids, t0) {
  const entry = path.join(VERIF, 'checks', id + '.ts');
  const js = path.join(tmp, 'check.js');
  await bundle(entry, js);
  if (replay) {
    const r = await runChild(js, { KIT_REPLAY: path.resolve(replay), KIT_VERBOSE: '1' }, kids);
    if (r.err) console.error(r.err.slice(0, 4000));
    return r.code === 1 ? 1 : r.code === 0 ? 0 : 2;
  }
  const metaFile = path.join(tmp, 'meta.json');
  const mr = await runChild(js, { KIT_META: metaFile }, kids);
  if (!fs.existsSync(metaFile)) throw new Error('check bundle does not load: ' + mr.err);
  const meta = JSON.parse(fs.readFileSync(metaFile, 'utf8'));
  const N = +(process.env.KIT_JOBS || Math.max(1, Math.min(8, os.cpus().length)));
  const results = await Promise.all(
    Array.from({ length: N }, async (_, i) => {
      const out = path.join(tmp, 'out' + i + '.json');
      const prog = path.join(tmp, 'prog' + i);
      const r = await runChild(js, { KIT_SHARD: String(i), KIT_SHARDS: String(N), KIT_OUT: out, KIT_PROGRESS: prog, KIT_BUDGET_MS: String(BUDGET), VERIF_TIER: tier }, kids, null, prog);
      if (fs.existsSync(out) && r.code === 0) return { ...JSON.parse(fs.readFileSync(out, 'utf8')), err: r.err };
      // hang or crash of the code under test inside a case
      if (r.index >= 0) {
        const cf = path.join(tmp, 'case' + i + '.json');
        await runChild(js, { KIT_INDEX: String(r.index), KIT_OUT: cf, VERIF_TIER: tier }, kids);
        const c = fs.existsSync(cf) ? JSON.parse(fs.readFileSync(cf, 'utf8')) : null;
        return {
          evaluations: 0, distinct: 0, total: 0, transitions: 0, comparisons: 0, counts: {}, states: [], samples: [], truncated: true,
          violations: [{ n: 1, sig: r.hung ? 'no-termination' : 'process-crash', msg: r.hung ? `case did not terminate within ${HANG_MS} ms` : `process ended with code ${r.code}: ${r.err.slice(-1500)}`, case: c, index: r.index }]
        };
      }
      throw new Error('shard ' + i + ' failed: code=' + r.code + ' ' + r.err);
    })
  );
  const states = new Set();
  const agg = { evaluations: 0, distinct: 0, transitions: 0, comparisons: 0, counts: {}, samples: [], violations: {}, truncated: false, total: 0 };
  for (const r of results) {
    for (const s of r.states) states.add(s);
    for (const k of ['evaluations', 'distinct', 'transitions', 'comparisons']) agg[k] += r[k];
    agg.total = Math.max(agg.total, r.total);
    agg.truncated = agg.truncated || r.truncated;
    for (const k in r.counts) agg.counts[k] = (agg.counts[k] || 0) + r.counts[k];
    agg.samples.push(...r.samples);
    for (const v of r.violations) {
      const o = agg.violations[v.sig];
      if (!o) agg.violations[v.sig] = v;
      else {
        const n = o.n + v.n;
        if (v.index < o.index) agg.violations[v.sig] = v;
        agg.violations[v.sig].n = n;
      }
    }
    if (process.env.KIT_DEBUG && r.err) console.error(r.err.slice(0, 2000));
  }
  let known = [];
  try {
    known = JSON.parse(fs.readFileSync(path.join(VERIF, 'known-findings.json'), 'utf8')).findings.filter(f => f.property === id);
  } catch (e) { /* none */ }
  const unlisted = [];
  const hits = new Set();
  for (const v of Object.values(agg.violations).sort((a, b) => a.index - b.index)) {
    const f = known.find(k => k.signature === v.sig);
    if (f) hits.add(f);
    else unlisted.push(v);
  }
  for (const f of known) {
    if (hits.has(f)) console.log(`KNOWN-FINDING: property=${id} ${f.what}`);
  }
  const wall = (Date.now() - t0) / 1000;
  const coverage = { samples: agg.samples.slice(0, 5) };
  if (meta.level === 'model_checking') {
    coverage.states = states.size;
    coverage.transitions = agg.transitions;
    coverage.traces_validated_against_impl = agg.evaluations;
  } else {
    coverage.evaluations = agg.evaluations;
    coverage.distinct_nontrivial = agg.distinct;
    coverage.rule = meta.rule;
    if (states.size) coverage.distinct_outcomes = states.size;
  }
  coverage.explanation = meta.rule;
  coverage.oracle_comparisons = agg.comparisons;
  coverage.exhaustive = !agg.truncated;
  for (const k in agg.counts) coverage['n_' + k] = agg.counts[k];
  coverage.known_findings_seen = hits.size;
  fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
  fs.writeFileSync(
    path.join(VERIF, 'evidence', id + '.json'),
    JSON.stringify({ property: id, tier, seed, level: meta.level, coverage, assumptions: meta.assumptions, wall_s: wall, violations: unlisted.length }, null, 1) + '\n'
  );
  if (unlisted.length) {
    const dir = path.join(VERIF, 'replays');
    fs.mkdirSync(dir, { recursive: true });
    unlisted.slice(0, 20).forEach((v, i) => {
      const f = path.join(dir, `${id}-${i}.json`);
      fs.writeFileSync(f, JSON.stringify({ property: id, signature: v.sig, message: v.msg, failing_cases: v.n, case: v.case, replay: `./run.sh ${id} --replay ${f}` }, null, 1) + '\n');
      console.log(`VIOLATION property=${id} replay=${f}`);
      console.log(`  [${v.sig}] x${v.n}: ${String(v.msg).slice(0, 800)}`);
      console.log(`  case: ${JSON.stringify(v.case).slice(0, 600)}`);
    });
    return 1;
  }
  console.log(`OK property=${id} tier=${tier} cases=${agg.evaluations}/${agg.total} states=${states.size} transitions=${agg.transitions} comparisons=${agg.comparisons}${agg.truncated ? ' (budget reached: NOT exhaustive)' : ''} wall=${wall.toFixed(1)}s`);
  return 0;
}

// Explores the ways of putting experiments into the orchestrator's queue: all
// combinations of parameter lists answered at the prompt, with all numbers of
// workers, all short sequences of such commands with storing and loading, and
// all stored descriptions that come with the repository.  What the queue then
// holds is read from the listing and by having workers carry all of it out.
//   node expand_mc.js --repo DIR --part i/n --tier quick|thorough [--only "case"]
'use strict';
const fs = require('fs'), path = require('path');
const { opt, DIR, thorough, emit, Violation, Unsupported, Run, D, K, Z } = require('./orch_mc.js');
const counts = { states: 0, transitions: 0, executions: 0, experiments: 0, refused: 0 };

const product = lists => lists.reduce((acc, l) => acc.flatMap(a => l.map(x => [...a, x])), [[]]);
const nums = s => s.split(',').map(Number);

// what one command should add: [wanted experiments] (each may be refused for want of workers)
function wanted(c, servers, clients) {
  if (c.kind === 'dppir') {
    if (!['online', 'offline', 'all'].includes(c.mode)) return [];
    return product([c.table, c.parties, c.par, c.batch, c.eps, c.delta].map(nums)).map(([table, parties, par, batch, eps, delta]) =>
      D(c.base, parties, par, { mode: c.mode, table, batch, eps, delta }));
  }
  if (c.kind === 'checklist') {
    const pirtype = c.pirtype || 'Punc';
    if (!['Punc', 'DPF'].includes(pirtype)) return [];
    return product([c.table, c.queries].map(nums)).map(([table, queries]) => K(c.base, { table, queries, pirtype }));
  }
  return product([c.table, c.queries].map(nums)).map(([table, queries]) => Z(c.base, { table, queries }));
}
const fits = (d, s, c) => d.type !== 'dppir' || (d.parties * d.par <= s && d.par <= c);

function listing(out) {
  const seen = [];
  for (const l of out.split('\n')) {
    const m = /^(\w+) Experiment (\d+) \((.*)\), status: (.*)$/.exec(l);
    if (m) seen.push({ id: Number(m[2]), type: m[1], name: m[3], status: m[4] });
  }
  return seen;
}

// Takes the order of the queue from the listing; each entry must be one of the wanted ones, each once.
function adopt(run, want, must, what) {
  const left = want.slice();
  return async () => {
    const seen = listing(await run.box.command('experiments')).slice(run.ref.listed.length);
    for (const s of seen) {
      const at = left.findIndex(d => d.type === s.type && d.name === s.name);
      if (at < 0) throw new Violation(`${what}: ${s.type} ${s.name} is queued and not asked for, or twice`);
      if (s.status !== 'waiting') throw new Violation(`${what}: ${s.name} is '${s.status}'`);
      run.ref.add(left[at]);
      run.ref.expCount = s.id + 1;
      run.ref.exps[run.ref.exps.length - 1].id = s.id;
      run.ref.listed[run.ref.listed.length - 1] = s.id;
      left.splice(at, 1);
    }
    const missing = left.filter(must);
    if (missing.length) throw new Violation(`${what}: ${missing[0].type} ${missing[0].name} is not queued (${missing.length} missing)`);
    counts.experiments += seen.length;
    return left;
  };
}

async function ask(run, c) {
  const A = c.kind === 'dppir'
    ? [[/name/i, c.base], [/mode/i, c.mode], [/table size/i, c.table], [/parties/i, c.parties], [/parallel/i, c.par], [/quer/i, c.batch], [/epsilon/i, c.eps], [/delta/i, c.delta]]
    : c.kind === 'checklist' ? [[/name/i, c.base], [/table size/i, c.table], [/pirtype/i, c.pirtype], [/quer/i, c.queries]]
    : [[/name/i, c.base], [/table size/i, c.table], [/quer/i, c.queries]];
  await run.box.command('new ' + c.kind, A);
  const have = k => run.ref.workers.filter(w => w.kind === k).length;
  const s = have('server'), k = have('client');
  const want = wanted(c, s, k);
  const all = want.every(d => fits(d, s, k));
  if (!all) counts.refused++;
  // with too few workers for some, none of those may be queued; the others may or may not be
  await adopt(run, want.filter(d => fits(d, s, k)), () => all, `new ${c.kind}`)();
  counts.transitions++;
}

async function load(run, kind, file, list) {
  let n = 0;
  const pick = kind === 'loadi' ? i => i % 2 === 0 : () => true;
  await run.box.command(kind + ' ' + file, { [Symbol.iterator]: function* () { yield [/.*/, pick(n++) ? 'Y' : 'n']; } });
  await adopt(run, list.filter((d, i) => pick(i)), () => true, `${kind} ${file}`)();
  counts.transitions++;
}

const SCEN = { configs: true };
async function workers(run, s, c) {
  for (let i = 0; i < s + c; i++) await run.op(SCEN, 'reg ' + (i < s ? 's' : 'c'), false);
}
// the workers carry out everything in the queue
async function drain(run) {
  const r = run.ref;
  for (let guard = 0; guard < 10000; guard++) {
    let moved = false;
    for (const w of r.workers) if (w.exp === null) {
      await run.op(SCEN, 'ping ' + w.id, false);
      counts.transitions++;
      if (w.exp !== null) moved = true;
    }
    for (const w of r.workers) if (w.exp !== null) {
      const e = r.exp(w.exp);
      if (!e.roles.every(q => q.w !== null)) continue;
      if (e.type === 'dppir') await run.op(SCEN, 'config ' + w.id, false);
      await run.op(SCEN, 'done ' + w.id, false);
      counts.transitions += 2;
      moved = true;
    }
    if (!moved) break;
  }
  const open = r.listed.map(id => r.exp(id)).find(e => !e.roles.every(q => q.done));
  if (open) throw new Violation(`${open.name} is never completed`);
  await run.watch();
  counts.states++;
}

// everything the first orchestrator queued, through the file, into a second one
async function through(run, kind, s, c) {
  await run.box.command('store copy');
  const list = listing(await run.box.command('experiments')).map(x => run.ref.exp(x.id));
  const file = [...run.box.files].find(f => f[0].endsWith('/stored/copy.json'));
  if (!file) throw new Violation('nothing is stored');
  const again = new Run();
  for (const [f, d] of run.box.files) if (f.endsWith('.json')) again.box.files.set(f, d);
  await workers(again, s, c);
  await load(again, kind === 'load *' ? 'load' : kind, kind === 'load *' ? '*' : 'copy', list);
  await drain(again);
}

// ---------------------------------------------------------------- cases
const two = (a, b) => [a, b, a + ',' + b];
function* cases() {
  const deep = thorough;
  // lists of every parameter
  for (const [table, parties, par, batch, eps, delta] of product([two('100', '2500000'), two('2', '3'), two('1', '2'), two('7', '100000'), two('0.1', '2'), two('0.001', '0.000001')]))
    for (const mode of deep ? ['all', 'online', 'offline'] : ['all'])
      yield { w: [6, 2], seq: [{ kind: 'dppir', base: 'x', mode, table, parties, par, batch, eps, delta }] };
  for (const mode of ['all', 'online', 'offline', 'sometimes', '', 'ALL'])
    for (const par of ['1', '2', '1,2,3', '3,1'])
      yield { w: [6, 3], seq: [{ kind: 'dppir', base: 'y', mode, table: '10, 20', parties: '2', par, batch: '11,5,3', eps: '0', delta: '1e-7' }] };
  // all numbers of workers
  for (let s = 0; s <= 6; s++) for (let c = 0; c <= 3; c++)
    for (const [parties, par] of product([['2', '3', '2,3', '3,2'], ['1', '2', '1,2', '2,1', '3', '2,1,3']]))
      yield { w: [s, c], seq: [{ kind: 'dppir', base: 'z', mode: 'all', table: '40', parties, par, batch: '6', eps: '1', delta: '0.1' }], small: true };
  // many parties
  for (const [parties, par] of [['9,10,11,12', '1'], ['12', '2'], ['2', '12'], ['3,11', '1,2']])
    yield { w: [24, 12], seq: [{ kind: 'dppir', base: 'm', mode: 'all', table: '40', parties, par, batch: '6', eps: '1', delta: '0.1' }] };
  for (const [table, queries] of product([['5', '100000', '5,6', '7,5,6'], ['1', '10', '1,2', '3,2,1']])) {
    for (const pirtype of ['', 'Punc', 'DPF', 'punc', 'Nothing']) yield { w: [2, 1], seq: [{ kind: 'checklist', base: 'c', table, queries, pirtype }] };
    yield { w: [0, 1], seq: [{ kind: 'sealpir', base: 's', table, queries }] };
  }
  // sequences of commands, stored and loaded
  const some = [
    { kind: 'dppir', base: 'a', mode: 'online', table: '9,8', parties: '2', par: '1', batch: '5', eps: '0.5', delta: '0.25' },
    { kind: 'dppir', base: 'b', mode: 'offline', table: '9', parties: '2', par: '1,2', batch: '6,7', eps: '0.5', delta: '0.25,0.125' },
    { kind: 'checklist', base: 'c', table: '12,13', queries: '4', pirtype: 'DPF' },
    { kind: 'checklist', base: 'd', table: '12', queries: '4,6', pirtype: '' },
    { kind: 'sealpir', base: 'e', table: '14,15', queries: '2,3' },
    { kind: 'dppir', base: 'f', mode: 'never', table: '9', parties: '2', par: '1', batch: '5', eps: '0.5', delta: '0.25' },
  ];
  for (let n = 1; n <= (deep ? 4 : 3); n++)
    for (const seq of product(Array(n).fill([...some.keys()])))
      if (new Set(seq).size === n) for (const store of ['load', 'loadi', 'load *']) yield { w: [4, 2], seq: seq.map(i => some[i]), store };
  // the descriptions of the paper's experiments
  const dir = path.join(DIR, 'stored');
  const files = fs.existsSync(dir) ? fs.readdirSync(dir).filter(f => f.endsWith('.json')).sort() : [];
  for (const f of files) yield { file: f };
  if (files.length) yield { file: '*' };
}

// A stored description is named after what it holds: <name>-<table>-<parties>-<servers>-<queries>-<epsilon>-<delta> or <name>-<table>-<queries>.
function described(file) {
  return JSON.parse(fs.readFileSync(path.join(DIR, 'stored', file), 'utf8')).map(o => {
    const v = o.name_.split('-'), n = v.slice(1).map(Number);
    if (n.some(Number.isNaN)) throw new Unsupported('name ' + o.name_);
    const d = o.experimentType === 'dppir' ? D(v[0], n[1], n[2], { mode: o.mode, table: n[0], batch: n[3], eps: n[4], delta: n[5] })
      : o.experimentType === 'checklist' ? K(v[0], { table: n[0], queries: n[1], pirtype: o.pirtype }) : Z(v[0], { table: n[0], queries: n[1] });
    d.name = o.name_;
    return d;
  });
}

async function play(c) {
  const run = new Run();
  counts.executions++;
  if (c.file) {
    const files = c.file === '*' ? fs.readdirSync(path.join(DIR, 'stored')).filter(f => f.endsWith('.json')).sort() : [c.file];
    for (const f of files) run.box.files.set(path.join(DIR, 'stored', f), fs.readFileSync(path.join(DIR, 'stored', f), 'utf8'));
    const list = files.flatMap(described);
    const names = new Set(list.map(d => d.name));
    if (names.size !== list.length) throw new Violation('two stored experiments have the same name');
    await workers(run, Math.max(2, ...list.map(d => (d.type === 'dppir' ? d.parties * d.par : 0))), Math.max(1, ...list.map(d => d.par || 1)));
    await load(run, 'load', c.file === '*' ? '*' : c.file.replace(/\.json$/, ''), list);
    await drain(run);
    return;
  }
  await workers(run, ...c.w);
  for (const x of c.seq) await ask(run, x);
  if (c.store) await through(run, c.store, ...c.w);
  await drain(run);
}

async function main() {
  const [pi, pn] = (opt.part || '0/1').split('/').map(Number);
  let bad = 0, i = 0, last = null;
  const all = opt.only !== undefined ? [JSON.parse(opt.only)] : cases();
  for (const c of all) {
    if (opt.only === undefined && i++ % pn !== pi) continue;
    last = c;
    try {
      await play(c);
    } catch (e) {
      if (!(e instanceof Violation)) throw e;
      emit({ bad: e.message, case: JSON.stringify(c) });
      if (++bad >= 3) break;
    }
  }
  if (pi === 0) emit({ sample: `cases ${all.length || i}, the last: ${JSON.stringify(last)}` });
  emit({ counts });
  process.exit(bad ? 1 : 0);
}
main().catch(e => { console.error(e); process.exit(e instanceof Unsupported ? 9 : 8); });

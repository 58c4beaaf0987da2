// Explores all sequences of worker requests and operator commands of the
// experiment orchestrator (the real main.js and everything it loads; the web
// framework, file system, child processes and terminal are stand-ins) against
// a reference model.
//   node orch_mc.js --repo DIR --part i/n --tier quick|thorough [--only "case"] [--replay "op;op;..."]
'use strict';
const vm = require('vm'), path = require('path'), realFs = require('fs'), crypto = require('crypto');
const opt = {};
for (let i = 2; i < process.argv.length; i += 2) opt[process.argv[i].slice(2)] = process.argv[i + 1];
const DIR = path.join(opt.repo || '/repo', 'experiments/orchestrator');
const thorough = opt.tier === 'thorough';
const emit = o => realFs.writeSync(1, JSON.stringify(o) + '\n');
const NOW = 1700000000000;
Date.now = () => NOW;

class Violation extends Error {}
class Unsupported extends Error {}

// ---------------------------------------------------------------- the real code in a box
const scripts = {};
function script(file) {
  if (!scripts[file]) {
    const src = realFs.readFileSync(file, 'utf8');
    scripts[file] = new vm.Script('(function (exports, require, module, __filename, __dirname, process, console) {' + src + '\n})', { filename: file }).runInThisContext();
  }
  return scripts[file];
}
function v4(s) { return /^\d{1,3}(\.\d{1,3}){3}$/.test(s) && s.split('.').every(x => Number(x) < 256); }
const ipaddr = {
  IPv4: { isValid: v4, parse: s => ({ toString: () => s }) },
  IPv6: {
    isValid: s => /^[0-9a-fA-F:.]+$/.test(s) && s.includes(':'),
    parse: s => {
      const m = /^::ffff:(\d+\.\d+\.\d+\.\d+)$/i.exec(s);
      return { isIPv4MappedAddress: () => !!m, toIPv4Address: () => ({ toString: () => m[1] }), toString: () => s };
    },
  },
};
ipaddr.isValid = s => ipaddr.IPv4.isValid(s) || ipaddr.IPv6.isValid(s);
ipaddr.process = s => { const m = /^::ffff:(.*)$/i.exec(s); return { toString: () => (m ? m[1] : s), kind: () => 'ipv4' }; };
ipaddr.parse = s => (v4(s) ? { kind: () => 'ipv4', toString: () => s } : Object.assign(ipaddr.IPv6.parse(s), { kind: () => 'ipv6' }));

class Box {
  constructor() {
    this.files = new Map();
    this.dirs = new Set();
    this.routes = { GET: [], POST: [] };
    this.log = [];
    this.commands = [];
    this.answers = null;
    this.lineHandlers = [];
    this.instances = [];
    this.cache = {};
    const self = this;
    const fmt = a => a.map(x => (typeof x === 'string' ? x : String(x))).join(' ');
    this.console = { log: (...a) => self.log.push(fmt(a)), error: (...a) => self.log.push(fmt(a)), warn: (...a) => self.log.push(fmt(a)), info: (...a) => self.log.push(fmt(a)), clear() {} };
    this.process = { stdin: {}, stdout: { write: s => self.log.push(String(s)) }, argv: ['node', 'main.js'], env: {}, exit: c => { throw new Unsupported('exit ' + c); }, on() {}, cwd: () => DIR, nextTick: process.nextTick };
    const norm = p => path.resolve(DIR, String(p));
    const fsStub = {
      mkdirSync: p => { self.dirs.add(norm(p)); },
      existsSync: p => self.files.has(norm(p)) || self.dirs.has(norm(p)),
      writeFileSync: (p, d) => { self.files.set(norm(p), d); self.written.push(norm(p)); },
      readFileSync: (p, enc) => {
        p = norm(p);
        if (!self.files.has(p)) throw Object.assign(new Error('ENOENT ' + p), { code: 'ENOENT' });
        const d = self.files.get(p);
        return enc ? String(d) : Buffer.from(String(d));
      },
      readdirSync: p => { p = norm(p); return [...self.files.keys()].filter(f => path.dirname(f) === p).map(f => path.basename(f)).sort(); },
      unlinkSync: p => { self.files.delete(norm(p)); },
    };
    this.written = [];
    const fsProxy = new Proxy(fsStub, { get: (t, k) => { if (k in t) return t[k]; if (typeof k === 'string') return () => { throw new Unsupported('fs.' + k); }; } });
    const run = (cmd, args) => {
      let full = cmd;
      if (Array.isArray(args)) full += ' ' + args.join(' ');
      self.commands.push(full);
      const t = full.split(/\s+/);
      const at = t.indexOf('--');
      const rest = at >= 0 ? t.slice(at + 1) : t.slice(1);
      self.files.set(norm(rest[0]), 'CONFIG ' + rest.slice(1).join(' '));
    };
    this.modules = {
      fs: fsProxy,
      path,
      os: require('os'),
      util: require('util'),
      child_process: {
        spawnSync: (c, a) => { run(c, a); return { status: 0, error: undefined, stdout: Buffer.from(''), stderr: Buffer.from('') }; },
        execSync: c => { run(c); return Buffer.from(''); },
        execFileSync: (c, a) => { run(c, a); return Buffer.from(''); },
      },
      readline: {
        createInterface: () => ({
          on: (ev, f) => { if (ev === 'line') self.lineHandlers.push(f); },
          question: (q, cb) => cb(self.answer(q)),
          close() {}, setPrompt() {}, prompt() {},
        }),
      },
      express: Object.assign(() => ({
        use() {},
        get: (r, ...f) => self.routes.GET.push([r, f[f.length - 1]]),
        post: (r, ...f) => self.routes.POST.push([r, f[f.length - 1]]),
        listen: (p, f) => { self.onListen = f; if (f) f(); return { close() {} }; },
      }), { text: () => () => {}, json: () => () => {}, Router: undefined }),
      'body-parser': { text: () => () => {}, json: () => () => {}, urlencoded: () => () => {}, raw: () => () => {} },
      'ipaddr.js': ipaddr,
    };
    this.load(path.join(DIR, 'main.js'));
  }
  load(file) {
    if (this.cache[file]) return this.cache[file].exports;
    const module = { exports: {} };
    this.cache[file] = module;
    const req = name => {
      if (name.startsWith('node:')) name = name.slice(5);
      if (name.startsWith('.')) {
        let f = path.resolve(path.dirname(file), name);
        if (!realFs.existsSync(f)) f += '.js';
        return this.load(f);
      }
      if (!(name in this.modules)) throw new Unsupported('module ' + name);
      return this.modules[name];
    };
    script(file)(module.exports, req, module, file, path.dirname(file), this.process, this.console);
    if (typeof module.exports === 'function') {
      const self = this, base = module.exports;
      module.exports = new Proxy(base, { construct(t, a, n) { const o = Reflect.construct(t, a, t); self.instances.push(o); return o; } });
    }
    return module.exports;
  }
  answer(q) {
    for (const [re, a] of this.answers || []) if (re.test(q)) return a;
    throw new Unsupported('question ' + q);
  }
  async request(method, url, body, ip) {
    const parts = url.split('/');
    for (const [r, f] of this.routes[method]) {
      const rp = r.split('/'), params = {};
      if (rp.length !== parts.length) continue;
      if (!rp.every((x, i) => (x.startsWith(':') ? ((params[x.slice(1)] = parts[i]), true) : x === parts[i]))) continue;
      let sent, n = 0;
      const res = { send: x => { sent = x; n++; return res; }, end: x => { sent = x === undefined ? '' : x; n++; return res; }, status: () => res, json: x => { sent = JSON.stringify(x); n++; return res; }, sendStatus: c => { sent = String(c); n++; return res; }, set: () => res, type: () => res };
      const sock = { remoteAddress: ip };
      const before = this.commands.length;
      this.written = [];
      this.log = [];
      try {
        await f({ params, body, connection: sock, socket: sock, ip, query: {}, headers: {} }, res);
      } catch (e) {
        if (e instanceof Unsupported) throw e;
        throw new Violation(`${method} ${url} fails: ${e && e.message ? e.message : e}`);
      }
      if (n !== 1) throw new Violation(`${method} ${url} is answered ${n} times`);
      return { reply: sent === null || sent === undefined ? '' : String(sent), commands: this.commands.slice(before), written: this.written };
    }
    throw new Unsupported('route ' + url);
  }
  async command(line, answers) {
    this.answers = answers;
    this.log = [];
    this.written = [];
    for (const h of this.lineHandlers) {
      try {
        await h(line);
      } catch (e) {
        if (e instanceof Unsupported) throw e;
        throw new Violation(`command '${line}' fails: ${e && e.message ? e.message : e}`);
      }
    }
    return this.log.join('\n');
  }
  // everything reachable from the orchestrator and the modules' exports
  fingerprint() {
    const ids = new Map(), h = crypto.createHash('md5');
    const visit = (o, d) => {
      if (o === null || typeof o === 'undefined' || typeof o === 'number' || typeof o === 'boolean' || typeof o === 'string') { h.update(String(o) + ';'); return; }
      if (ids.has(o)) { h.update('#' + ids.get(o)); return; }
      ids.set(o, ids.size);
      if (Buffer.isBuffer(o)) { h.update(o); return; }
      if (typeof o === 'function') h.update('f');
      for (const k of Object.keys(o)) { h.update(k + ':'); visit(o[k], d + 1); }
      if (o instanceof Map || o instanceof Set) for (const e of o) visit(e, d + 1);
      h.update('}');
    };
    for (const f of Object.keys(this.cache).sort()) visit(this.cache[f].exports, 0);
    for (const o of this.instances) visit(o, 0);
    return h.digest('hex');
  }
}

// ---------------------------------------------------------------- the reference
class Ref {
  constructor() { this.workers = []; this.exps = []; this.listed = []; this.files = new Map(); this.expCount = 0; this.stored = {}; }
  key() {
    return JSON.stringify([this.workers, this.exps.map(e => [e.type, e.name, e.roles, e.cleared, e.configured]), this.listed, [...this.files], this.stored]);
  }
  add(d) {
    const roles = [];
    if (d.type === 'dppir') {
      for (let p = 0; p < d.parties; p++) for (let m = 0; m < d.par; m++) roles.push({ kind: 'server', p, m });
      for (let c = 0; c < d.par; c++) roles.push({ kind: 'client', c });
    } else if (d.type === 'checklist') {
      roles.push({ kind: 'server', p: 0 }, { kind: 'server', p: 1 }, { kind: 'client', c: 0 });
    } else {
      roles.push({ kind: 'client', c: 0 });
    }
    for (const r of roles) r.w = null, r.done = false;
    const id = this.expCount++;
    this.exps.push(Object.assign({}, d, { id, roles, cleared: false, configured: false }));
    this.listed.push(id);
  }
  exp(id) { return this.exps.find(e => e.id === id); }
  assign(w) {
    for (const id of this.listed) {
      const e = this.exp(id);
      const open = e.roles.filter(r => r.kind === w.kind && r.w === null);
      if (!open.length) continue;
      if (e.type === 'checklist' && w.kind === 'client' && e.roles.some(r => r.kind === 'server' && r.w === null)) return null;
      open[0].w = w.id;
      w.exp = id;
      w.role = e.roles.indexOf(open[0]);
      return [e, open[0]];
    }
    return null;
  }
  status(e) {
    if (e.roles.every(r => r.done)) return ['done'];
    const all = e.roles.every(r => r.w !== null);
    if (!all) return ['waiting', 'working', 'cleaning up'].slice(0, e.roles.some(r => r.done) ? 3 : 1);
    if (e.type === 'checklist' && e.roles.every(r => r.kind === 'server' || r.done)) return ['cleaning up', 'working'];
    return ['working'];
  }
}

const PREFIX = path.join(DIR, 'outputs');
class Run {
  constructor() { this.box = new Box(); this.ref = new Ref(); this.n = 0; }
  ops(sc) {
    const o = [], r = this.ref;
    if (r.workers.length < sc.workers.length) {
      if (sc.anyOrder) {
        const s = r.workers.filter(w => w.kind === 'server').length, c = r.workers.length - s;
        if (s < sc.workers.filter(x => x === 's').length) o.push('reg s');
        if (c < sc.workers.filter(x => x === 'c').length) o.push('reg c');
      } else o.push('reg ' + sc.workers[r.workers.length]);
    }
    if (!sc.anyOrder && r.workers.length < sc.workers.length) return o;
    if (sc.late && (this.made || 0) < sc.queue.length) o.push('new ' + (this.made || 0));
    for (const w of r.workers) {
      if (w.exp === null) o.push('ping ' + w.id);
      else {
        const e = r.exp(w.exp);
        if (!sc.normal || e.roles.every(q => q.w !== null)) o.push('done ' + w.id);
        if (r.exp(w.exp).type === 'dppir' && sc.configs && (!sc.normal || !w.conf)) o.push('config ' + w.id);
      }
    }
    if (sc.kills) for (const id of r.listed) if ((sc.killed = (this.kills || 0)) < sc.kills) o.push('kill ' + id);
    if (sc.logs) for (const w of r.workers) if (w.exp !== null && (!w.logged || w.log)) o.push((w.log ? 'showlog ' : 'log ') + w.id);
    if (sc.clear && !this.cleared) o.push('clear');
    if (sc.store && !this.stored && r.listed.length) o.push('store');
    if (sc.store && this.stored && !this.loaded) o.push('load'), o.push('load *'), o.push('loadi');
    return o;
  }
  fail(m) { throw new Violation(m); }
  async create(d) {
    if (d.type === 'dppir')
      await this.box.command('new dppir', [[/name/i, d.base], [/mode/i, d.mode], [/table size/i, String(d.table)], [/parties/i, String(d.parties)], [/parallel/i, String(d.par)], [/quer/i, String(d.batch)], [/epsilon/i, String(d.eps)], [/delta/i, String(d.delta)]]);
    else if (d.type === 'checklist')
      await this.box.command('new checklist', [[/name/i, d.base], [/table size/i, String(d.table)], [/pirtype/i, d.pirtype], [/quer/i, String(d.queries)]]);
    else await this.box.command('new sealpir', [[/name/i, d.base], [/table size/i, String(d.table)], [/quer/i, String(d.queries)]]);
    const have = k => this.ref.workers.filter(w => w.kind === k).length;
    if (d.type === 'dppir' && (have('server') < d.parties * d.par || have('client') < d.par)) { this.refused = true; return; }
    this.ref.add(d);
  }
  async op(sc, s, watch) {
    const [k, a] = s.split(' '), r = this.ref, b = this.box, w = k === 'ping' || k === 'done' || k === 'config' || k === 'log' || k === 'showlog' ? r.workers[Number(a)] : null;
    if (k === 'reg') {
      const kind = a === 's' ? 'server' : 'client', id = r.workers.length;
      const ip = id < 20 ? '10.0.0.' + (20 - id) : '10.0.1.' + id;
      const x = await b.request('GET', '/giveip/' + kind, '', id % 2 ? '::ffff:' + ip : ip);
      if (x.reply.trim() !== String(id)) this.fail(`${kind} ${id} is registered as '${x.reply}'`);
      r.workers.push({ id, kind, ip, exp: null, role: null, kill: false, log: false, logged: false, conf: false });
    } else if (k === 'new') {
      const before = r.expCount;
      await this.create(sc.queue[Number(a)]);
      if (r.expCount > before) this.made = (this.made || 0) + 1;
    } else if (k === 'ping') {
      const x = await b.request('GET', '/ping/' + a, '');
      w.kill = false;
      const got = r.assign(w);
      let want = 'WAIT';
      if (got) {
        const [e, role] = got;
        if (e.type === 'dppir') want = role.kind === 'client' ? `dppir ${role.c} ${Math.floor(e.batch / e.par)} ${e.mode}` : `dppir ${role.p} ${role.m} ${e.mode}`;
        else if (e.type === 'sealpir') want = `sealpir ${e.table} ${e.queries}`;
        else {
          const at = i => r.workers[e.roles[i].w];
          want = role.kind === 'server' ? `checklist ${w.id} ${e.table} ${10000 + w.id} ${e.pirtype}`
            : `checklist ${at(0).ip}:${10000 + at(0).id} ${at(1).ip}:${10000 + at(1).id} ${e.queries} ${e.pirtype}`;
        }
      }
      if (x.reply.trim() !== want) this.fail(`worker ${a} asks for work and gets '${x.reply}' instead of '${want}'`);
    } else if (k === 'config') {
      const e = r.exp(w.exp), x = await b.request('GET', '/config/' + a, '');
      const servers = e.roles.filter(q => q.kind === 'server');
      if (servers.some(q => q.w === null)) {
        if (x.reply.trim() !== 'WAIT' || x.commands.length) this.fail(`worker ${a} gets a configuration before all servers are known: '${x.reply}'`);
      } else {
        const want = ['CONFIG', e.table, e.eps, e.delta, e.parties, e.par, ...servers.map(q => r.workers[q.w].ip)].join(' ');
        if (x.reply !== want) this.fail(`worker ${a} gets the configuration '${x.reply}' instead of '${want}'`);
        if (e.configured && x.commands.length) this.fail(`a second configuration is generated for experiment ${e.id}`);
        e.configured = w.conf = true;
      }
    } else if (k === 'done') {
      const e = r.exp(w.exp), role = e.roles[w.role], text = `result of worker ${a} in ${e.name}`;
      const x = await b.request('POST', '/done/' + a, text);
      const f = e.type === 'sealpir' ? 'sealpir' : role.kind === 'client' ? (e.type === 'dppir' ? 'client-' + role.c : 'client') : e.type === 'dppir' ? `party-${role.p}-${role.m}` : 'server' + w.id;
      r.files.set(path.join(PREFIX, e.name, f + '.log'), text);
      const out = [...b.files].filter(y => y[0].startsWith(PREFIX + '/'));
      if (out.length !== r.files.size || out.some(y => r.files.get(y[0]) !== String(y[1])))
        this.fail(`the report of worker ${a} (${e.name} ${f}) is stored in ${x.written.join(',')}`);
      role.done = true;
      if (e.type === 'checklist' && role.kind === 'client')
        for (const q of r.workers) if (q !== w && q.exp === e.id && e.roles[q.role].kind === 'server') q.kill = true;
      w.exp = w.role = null;
      w.kill = w.conf = false;
    } else if (k === 'kill') {
      await b.command('kill ' + a);
      this.kills = (this.kills || 0) + 1;
      for (const q of r.workers) if (q.exp === Number(a)) q.kill = true;
    } else if (k === 'log') {
      // the operator waits for the log: the command ends when the worker shows it
      this.pending = this.pending || {};
      b.answers = null;
      this.pending[a] = Promise.all(b.lineHandlers.map(h => h('log ' + a)));
      await null;
      w.log = w.logged = true;
    } else if (k === 'showlog') {
      let seen = false;
      b.log = [];
      const orig = b.console.log;
      const x = await b.request('POST', '/showlog/' + a, 'LOG OF ' + a);
      seen = b.log.some(l => l.includes('LOG OF ' + a));
      if (!seen) this.fail(`the log of worker ${a} is not shown`);
      w.log = false;
      await this.pending[a];
    } else if (k === 'clear') {
      await b.command('clear');
      this.cleared = true;
      for (const e of r.exps) e.cleared = true;
      r.listed = [];
    } else if (k === 'store') {
      await b.command('store copy');
      this.stored = r.listed.map(id => r.exp(id));
    } else if (k === 'load' || k === 'loadi') {
      let n = 0;
      const pick = k === 'loadi' ? i => i % 2 === 0 : () => true;
      const list = this.stored;
      const out = await b.command(k === 'loadi' ? 'loadi copy' : s === 'load *' ? 'load *' : 'load copy', { [Symbol.iterator]: function* () { yield [/.*/, pick(n++) ? 'Y' : 'n']; } });
      this.loaded = true;
      list.forEach((e, i) => { if (pick(i)) r.add(e); else if (k === 'loadi') r.expCount++; });
      // ids continue: skipped ones are used up as well
      const ids = [...out.matchAll(/Loaded/g)].length;
      if (ids !== list.filter((e, i) => pick(i)).length) this.fail(`${ids} experiments loaded from ${list.length} stored ones`);
    }
    this.n++;
    if (watch) await this.watch();
  }
  // what the operator and the workers can see
  async watch() {
    const r = this.ref, b = this.box;
    for (const w of r.workers) {
      const x = await b.request('GET', '/shouldkill/' + w.id, '');
      const want = w.log ? '2' : w.kill ? '1' : '0';
      if (x.reply.trim() !== want) this.fail(`worker ${w.id} is told '${x.reply.trim()}' instead of '${want}' (0: go on, 1: stop, 2: show log)`);
    }
    const out = await b.command('experiments');
    const seen = [];
    for (const l of out.split('\n')) {
      const m = /^(\w+) Experiment (\d+) \((.*)\), status: (.*)$/.exec(l);
      if (m) seen.push([Number(m[2]), m[1], m[3], m[4]]);
    }
    if (seen.length !== r.listed.length) this.fail(`${seen.length} experiments are listed instead of ${r.listed.length}`);
    r.listed.forEach((id, i) => {
      const e = r.exp(id), [gid, type, name, st] = seen[i];
      if (type !== e.type || name !== e.name) this.fail(`experiment ${type} ${name} is listed instead of ${e.type} ${e.name}`);
      const want = r.status(e), got = st.startsWith('working') ? 'working' : st;
      if (!want.includes(got)) this.fail(`experiment ${id} (${e.name}) is listed as '${st}' instead of '${want[0]}'`);
    });
  }
}

// ---------------------------------------------------------------- scenarios
const D = (base, parties, par, o = {}) => {
  const d = Object.assign({ type: 'dppir', base, mode: 'all', table: 100, parties, par, batch: 7, eps: 0.1, delta: 0.001 }, o);
  d.name = [base, d.table, parties, par, d.batch, d.eps, d.delta].join('-');
  return d;
};
const K = (base, o = {}) => { const d = Object.assign({ type: 'checklist', base, table: 50, queries: 9, pirtype: 'DPF' }, o); d.name = [base, d.table, d.queries].join('-'); return d; };
const Z = (base, o = {}) => { const d = Object.assign({ type: 'sealpir', base, table: 60, queries: 3 }, o); d.name = [base, d.table, d.queries].join('-'); return d; };
const W = s => s.split('');
const SC = [
  { name: 'dppir 2x2, running', workers: W('sscssc'), queue: [D('a', 2, 2)], configs: true, normal: true },
  { name: 'dppir 3x1 twice, running', workers: W('csss'), queue: [D('a', 3, 1), D('b', 3, 1, { mode: 'online', eps: 2 })], normal: true, configs: true },
  { name: 'dppir 2x2 then 2x1, running', workers: W('sscssc'), queue: [D('a', 2, 2, { batch: 5 }), D('b', 2, 1)], normal: true },
  { name: 'checklist then checklist, running', workers: W('sscsc'), queue: [K('k'), K('l', { pirtype: 'Punc' })], normal: true, kills: 1 },
  { name: 'dppir 2x1', workers: W('ssc'), queue: [D('a', 2, 1)], configs: true, kills: 2 },
  { name: 'dppir 2x1, logs', workers: W('ssc'), queue: [D('a', 2, 1)], logs: true },
  { name: 'dppir 2x1, registering in any order', workers: W('ssc'), queue: [D('a', 2, 1)], anyOrder: true, late: true, configs: true, kills: 0, preNew: true },
  { name: 'dppir 2x2', workers: W('sscssc'), queue: [D('a', 2, 2)], configs: true },
  { name: 'dppir 3x1 twice', workers: W('csss'), queue: [D('a', 3, 1), D('b', 3, 1, { mode: 'online', eps: 2 })], configs: true },
  { name: 'dppir 2x1 then 2x1, killing', workers: W('sscs'), queue: [D('a', 2, 1), D('b', 2, 1, { mode: 'offline' })], kills: 2 },
  { name: 'dppir 2x2 then 2x1', workers: W('sscssc'), queue: [D('a', 2, 2, { batch: 5 }), D('b', 2, 1)] },
  { name: 'checklist', workers: W('ssc'), queue: [K('k')], kills: 2, logs: true },
  { name: 'checklist then checklist', workers: W('sscsc'), queue: [K('k'), K('l', { pirtype: 'Punc' })], kills: 1 },
  { name: 'sealpir twice', workers: W('cc'), queue: [Z('z'), Z('y')], kills: 2 },
  { name: 'sealpir, dppir, checklist', workers: W('ssc'), queue: [Z('z'), D('a', 2, 1), K('k')], configs: true },
  { name: 'checklist, sealpir with idle clients', workers: W('sscc'), queue: [K('k'), Z('z')], kills: 1 },
  { name: 'dppir added late', workers: W('ssc'), queue: [D('a', 2, 1), Z('z')], late: true, configs: true, kills: 1 },
  { name: 'clear', workers: W('ssc'), queue: [D('a', 2, 1), Z('z')], clear: true, late: true, kills: 1 },
  { name: 'store and load dppir', workers: W('ssc'), queue: [D('a', 2, 1, { mode: 'online', eps: 0.5, table: 77, batch: 11, delta: 0.25 })], configs: true, store: true },
  { name: 'store and load all kinds', workers: W('ssc'), queue: [Z('z', { queries: 4 }), K('k', { table: 8 }), D('a', 2, 1)], configs: true, store: true },
];
if (thorough) {
  SC.push({ name: 'dppir 2x2 twice, killing', workers: W('sscssc'), queue: [D('a', 2, 2), D('b', 2, 2)], kills: 2, configs: true },
    { name: 'dppir 3x2', workers: W('sscsscss'), queue: [D('a', 3, 2)], configs: true },
    { name: 'spare workers', workers: W('sscsscsc'), queue: [D('a', 2, 1), D('b', 2, 1), Z('z')], configs: true, kills: 1 },
    { name: 'checklist three times', workers: W('sscsc'), queue: [K('k'), K('l'), K('m')], kills: 2 });
}

async function setup(sc) {
  const run = new Run();
  if (sc.late || sc.anyOrder) return run;
  for (const w of sc.workers) await run.op(sc, 'reg ' + w, true);
  for (const d of sc.queue) await run.create(d);
  await run.watch();
  return run;
}
async function play(sc, ops) {
  const run = await setup(sc);
  for (let i = 0; i < ops.length; i++) await run.op(sc, ops[i], i + 1 === ops.length);
  return run;
}

const counts = { states: 0, transitions: 0, executions: 0, completed: 0, cut: 0 };
async function explore(sc) {
  const seen = new Set(), cap = thorough ? 150000 : 5000;
  let bad = null, frontier = [[]], depth = 0;
  try {
    const r = await play(sc, []);
    seen.add(r.box.fingerprint() + r.ref.key());
    r.opsNow = r.ops(sc);
    frontier = [[[], r.opsNow]];
  } catch (e) {
    if (!(e instanceof Violation)) throw e;
    return { ops: [], msg: e.message };
  }
  while (frontier.length) {
    const next = [];
    for (const [ops, can] of frontier)
      for (const o of can) {
        let run;
        const seq = [...ops, o];
        counts.executions++;
        try {
          run = await play(sc, seq);
        } catch (e) {
          if (!(e instanceof Violation)) throw e;
          return { ops: seq, msg: e.message };
        }
        counts.transitions++;
        const k = crypto.createHash('md5').update(run.box.fingerprint() + run.ref.key() + (run.kills || 0) + !!run.cleared + !!run.stored + !!run.loaded).digest('hex');
        if (seen.has(k)) continue;
        seen.add(k);
        const nx = run.ops(sc);
        if (run.ref.exps.length === sc.queue.length && run.ref.exps.every(e => e.roles.every(q => q.done))) counts.completed++;
        if (seen.size > cap) { counts.cut++; continue; }
        next.push([seq, nx]);
      }
    frontier = next;
    depth++;
  }
  counts.states += seen.size;
  emit({ sample: `${sc.name}: ${seen.size} states, depth ${depth}` });
  return bad;
}

async function main() {
  const [pi, pn] = (opt.part || '0/1').split('/').map(Number);
  let bad = false;
  for (let i = 0; i < SC.length; i++) {
    const sc = SC[i];
    if (opt.only !== undefined) {
      const [name, seq] = opt.only.split(' :: ');
      if (name !== sc.name) continue;
      try {
        await play(sc, seq ? seq.split('; ') : []);
      } catch (e) {
        if (!(e instanceof Violation)) throw e;
        emit({ bad: e.message, case: opt.only });
        bad = true;
      }
      continue;
    }
    if (i % pn !== pi) continue;
    const v = await explore(sc);
    if (v) {
      emit({ bad: v.msg, case: sc.name + ' :: ' + v.ops.join('; ') });
      bad = true;
    }
  }
  emit({ counts });
  process.exit(bad ? 1 : 0);
}
module.exports = { opt, DIR, thorough, emit, Violation, Unsupported, Box, Ref, Run, D, K, Z };
if (require.main === module) main().catch(e => { console.error(e); process.exit(e instanceof Unsupported ? 9 : 8); });

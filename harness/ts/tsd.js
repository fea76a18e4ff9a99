// TypeScript server of the harness: compiles, inspects and runs generated files.
// One JSON request per line on stdin, one JSON answer per line on stdout.
'use strict';
const ts = require(process.env.VERIF_TYPESCRIPT || '/opt/veriftools/node/node_modules/typescript');
const fs = require('fs');
const path = require('path');
const vm = require('vm');
const readline = require('readline');

const options = {
  strict: true, noEmit: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS,
  moduleResolution: ts.ModuleResolutionKind.Node10, lib: ['lib.es2020.d.ts'], types: [], skipLibCheck: true,
  ignoreDeprecations: '5.0',
};
const libDir = path.dirname(ts.getDefaultLibFilePath(options));
const libs = new Map();

function host(extra) {
  const h = ts.createCompilerHost(options, true);
  const getSourceFile = h.getSourceFile.bind(h);
  h.getSourceFile = (name, lang, onError) => {
    if (extra.has(name)) return ts.createSourceFile(name, extra.get(name), lang, true);
    if (name.startsWith(libDir)) {
      if (!libs.has(name)) libs.set(name, getSourceFile(name, lang, onError));
      return libs.get(name);
    }
    return getSourceFile(name, lang, onError);
  };
  const fileExists = h.fileExists.bind(h);
  h.fileExists = (name) => extra.has(name) || fileExists(name);
  const readFile = h.readFile.bind(h);
  h.readFile = (name) => (extra.has(name) ? extra.get(name) : readFile(name));
  return h;
}

// admits says why a JSON value is not of a type ('' when it is).
function admits(checker, value, type, where, depth, absentOK) {
  if (depth > 60) return '';
  const f = type.flags;
  if (f & (ts.TypeFlags.Any | ts.TypeFlags.Unknown)) return '';
  const bad = (s) => `${where}: ${s} is not of type ${checker.typeToString(type)}`;
  if (type.isUnion()) {
    let why = '';
    for (const t of type.types) {
      const s = admits(checker, value, t, where, depth + 1);
      if (s === '') return '';
      if (!(t.flags & (ts.TypeFlags.Undefined | ts.TypeFlags.Null)) || why === '') why = s;
    }
    return why === '' ? bad(JSON.stringify(value)) : why;
  }
  if (value === null) return f & ts.TypeFlags.Null ? '' : bad('null');
  if (f & ts.TypeFlags.StringLiteral || f & ts.TypeFlags.NumberLiteral) return value === type.value ? '' : bad(JSON.stringify(value));
  if (f & ts.TypeFlags.BooleanLiteral) return String(value) === type.intrinsicName ? '' : bad(JSON.stringify(value));
  if (f & ts.TypeFlags.String) return typeof value === 'string' ? '' : bad(JSON.stringify(value));
  if (f & ts.TypeFlags.Number) return typeof value === 'number' ? '' : bad(JSON.stringify(value));
  if (f & ts.TypeFlags.Boolean) return typeof value === 'boolean' ? '' : bad(JSON.stringify(value));
  if (f & (ts.TypeFlags.Object | ts.TypeFlags.Intersection)) {
    if (checker.isArrayType(type)) {
      if (!Array.isArray(value)) return bad(JSON.stringify(value));
      const e = checker.getTypeArguments(type)[0];
      for (let i = 0; i < value.length; i++) {
        const s = admits(checker, value[i], e, `${where}[${i}]`, depth + 1);
        if (s !== '') return s;
      }
      return '';
    }
    if (typeof value !== 'object' || Array.isArray(value)) return bad(JSON.stringify(value));
    const si = checker.getIndexTypeOfType(type, ts.IndexKind.String);
    const ni = checker.getIndexTypeOfType(type, ts.IndexKind.Number);
    const props = new Map(checker.getPropertiesOfType(type).map((p) => [ts.symbolName(p), p]));
    for (const [name, p] of props) {
      if (!Object.prototype.hasOwnProperty.call(value, name) && !(p.flags & ts.SymbolFlags.Optional)) return `${where}: property ${JSON.stringify(name)} of ${checker.typeToString(type)} is missing`;
    }
    for (const name of Object.keys(value)) {
      const w = `${where}.${name}`;
      const p = props.get(name);
      let t = p && checker.getTypeOfSymbol(p);
      if (!t) t = si || (ni && String(Number(name)) === name || ni && /^-?\d+$/.test(name) ? ni : undefined);
      if (!t) return `${where}: property ${JSON.stringify(name)} is not declared by ${checker.typeToString(type)}`;
      // known finding: the fields of a nil inline pointer (Partial<>) are null
      if (p && value[name] === null && p.flags & ts.SymbolFlags.Optional && p.declarations && p.declarations[0] && !p.declarations[0].questionToken) continue;
      const s = admits(checker, value[name], t, w, depth + 1);
      if (s !== '') return s;
    }
    return '';
  }
  return bad(JSON.stringify(value));
}

function check(req) {
  const extra = new Map();
  const main = path.join(req.root, 'zz_check.ts');
  if (req.extra !== undefined) extra.set(main, req.extra);
  const roots = req.files.map((f) => path.join(req.root, f)).concat(req.extra !== undefined ? [main] : []);
  const program = ts.createProgram(roots, options, host(extra));
  const diagnostics = [];
  for (const sf of program.getSourceFiles()) {
    if (sf.fileName.startsWith(libDir)) continue;
    for (const d of [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)]) {
      diagnostics.push({
        file: path.relative(req.root, d.file ? d.file.fileName : sf.fileName),
        line: d.file && d.start !== undefined ? d.file.getLineAndCharacterOfPosition(d.start).line + 1 : 0,
        code: d.code, message: ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 600),
      });
    }
  }
  for (const d of [...program.getGlobalDiagnostics(), ...program.getOptionsDiagnostics()]) {
    diagnostics.push({ file: '', line: 0, code: d.code, message: ts.flattenDiagnosticMessageText(d.messageText, ' ') });
  }
  const answer = { diagnostics, admits: [] };
  if (req.admits && req.admits.length > 0) {
    const checker = program.getTypeChecker();
    const sf = program.getSourceFile(main);
    const types = new Map();
    sf.forEachChild((n) => {
      if (ts.isTypeAliasDeclaration(n)) types.set(n.name.text, checker.getTypeAtLocation(n.name));
    });
    for (const a of req.admits) answer.admits.push(admits(checker, JSON.parse(a.json), types.get(a.alias), '$', 0));
  }
  if (req.exports) {
    const checker = program.getTypeChecker();
    answer.exports = {};
    for (const f of req.files) {
      const sf = program.getSourceFile(path.join(req.root, f));
      const sym = sf && checker.getSymbolAtLocation(sf);
      answer.exports[f] = sym ? checker.getExportsOfModule(sym).map((s) => s.name).sort() : [];
    }
  }
  return answer;
}

let loaded = { root: '', modules: new Map() };

function load(root, file) {
  const full = path.normalize(path.join(root, file));
  if (loaded.modules.has(full)) return loaded.modules.get(full).exports;
  const src = fs.readFileSync(full, 'utf8');
  const out = ts.transpileModule(src, { compilerOptions: { target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS } }).outputText;
  const module = { exports: {} };
  loaded.modules.set(full, module);
  const req = (name) => {
    if (!name.startsWith('.')) throw new Error('import of ' + name);
    return load('', path.join(path.dirname(full), name + '.ts'));
  };
  vm.runInThisContext(`(function(exports, require, module) {${out}\n})`, { filename: full })(module.exports, req, module);
  return module.exports;
}

const plain = (x) => {
  if (typeof x === 'function') return { endpoint: x.defaultEndpoint };
  return x;
};

async function call(req) {
  const mod = load(req.root, req.file);
  const Client = mod[req.cls];
  if (typeof Client !== 'function') return { fail: 'the client class is missing', detail: req.cls };
  if (Client.defaultEndpoint !== req.endpoint) return { fail: 'the class does not carry the configured endpoint', detail: `${Client.defaultEndpoint} instead of ${req.endpoint}` };
  const calls = [];
  const transport = async (method, data = []) => {
    calls.push([method, data]);
    const res = await fetch(req.url + Client.defaultEndpoint + '/' + encodeURIComponent(method), {
      method: 'POST', headers: { Accept: 'application/json', 'Content-Type': 'application/json;charset=UTF-8' }, body: JSON.stringify(data),
    });
    const text = await res.text();
    if (res.status !== 200) throw new Error(`status ${res.status}: ${text.slice(0, 300)}`);
    return text === '' ? undefined : JSON.parse(text);
  };
  const client = new Client(transport);
  if (typeof client[req.method] !== 'function') return { fail: 'the client has no such method', detail: req.method };
  if (client[req.method].length !== req.args.length) return { fail: 'the client method takes another number of arguments', detail: `${req.cls}.${req.method}: ${client[req.method].length}` };
  let value, error;
  const before = JSON.stringify(req.args);
  try {
    const promise = client[req.method](...req.args);
    if (!(promise instanceof Promise)) return { fail: 'the client method does not return a promise', detail: req.method };
    value = await promise;
  } catch (e) {
    error = String(e && e.stack ? e.message : e);
  }
  if (calls.length !== 1) return { fail: 'not exactly one transport call', detail: `${req.cls}.${req.method}: ${calls.length} ${error || ''}` };
  if (calls[0][0] !== req.goMethod) return { fail: 'the transport call names another method', detail: `${calls[0][0]} instead of ${req.goMethod}` };
  if (JSON.stringify(calls[0][1]) !== before) return { fail: 'the transport does not get the arguments in order', detail: `${JSON.stringify(calls[0][1]).slice(0, 400)} instead of ${before.slice(0, 400)}` };
  if (error !== undefined) return { fail: 'the promise is rejected for a served call', detail: `${req.cls}.${req.method}: ${error}` };
  return { absent: value === undefined, value: value === undefined ? null : value };
}

async function handle(req) {
  switch (req.op) {
    case 'check':
      return check(req);
    case 'load': {
      loaded = { root: req.root, modules: new Map() };
      const out = {};
      for (const f of req.files) {
        const m = load(req.root, f);
        out[f] = {};
        for (const k of Object.keys(m)) out[f][k] = plain(m[k]);
      }
      return { modules: out };
    }
    case 'call':
      return call(req);
  }
  throw new Error('unknown op ' + req.op);
}

const rl = readline.createInterface({ input: process.stdin, crlfDelay: Infinity });
let queue = Promise.resolve();
rl.on('line', (line) => {
  queue = queue.then(async () => {
    let a;
    try {
      a = await handle(JSON.parse(line));
    } catch (e) {
      a = { abort: String(e && e.stack ? e.stack : e) };
    }
    process.stdout.write(JSON.stringify(a) + '\n');
  });
});
rl.on('close', () => process.exit(0));

// Development aid (not part of any check): compares the specification's behaviours with the
// acorn parser bundled in node.   node --expose-internals acorn_check.js FILE...
const acorn = require('internal/deps/acorn/acorn/dist/acorn');
const fs = require('fs');
const decode = s => s.replace(/<U\+([0-9A-F]+)>/g, (_, h) => String.fromCodePoint(parseInt(h, 16)));
function num(t) { const [r, d] = t.split(':'); if (r === '10') return Number(d); let v = 0n; for (const c of d) v = v * BigInt(r) + BigInt(parseInt(c, 36)); return Number(v); }
function spec(v) {
  let s = v.s.map(decode), c = v.c.map(spec);
  if (v.t === 'Paren') return c[0];
  if (v.t === 'SpreadComma') return ['SpreadElement', s, c];
  if (v.t === 'Literal' && s[0] === 'num') s = ['num', String(num(s[1]))];
  return [v.t, s, c];
}
const K = x => x == null ? ['null', [], []] : Array.isArray(x) ? ['[]', [], x.map(K)] : proj(x);
const T = {
  Program: [['sourceType'], ['body']], ExpressionStatement: [[], ['expression']], EmptyStatement: [[], []], DebuggerStatement: [[], []],
  ThisExpression: [[], []], Super: [[], []], BlockStatement: [[], ['body']], ClassBody: [[], ['body']], WithStatement: [[], ['object', 'body']],
  ReturnStatement: [[], ['argument']], ThrowStatement: [[], ['argument']], LabeledStatement: [[], ['label', 'body']], BreakStatement: [[], ['label']],
  ContinueStatement: [[], ['label']], IfStatement: [[], ['test', 'consequent', 'alternate']], ConditionalExpression: [[], ['test', 'consequent', 'alternate']],
  SwitchStatement: [[], ['discriminant', 'cases']], SwitchCase: [[], ['test', 'consequent']], TryStatement: [[], ['block', 'handler', 'finalizer']],
  CatchClause: [[], ['param', 'body']], WhileStatement: [[], ['test', 'body']], DoWhileStatement: [[], ['body', 'test']],
  ForStatement: [[], ['init', 'test', 'update', 'body']], ForInStatement: [[], ['left', 'right', 'body']], ForOfStatement: [[], ['left', 'right', 'body']],
  VariableDeclaration: [['kind'], ['declarations']], VariableDeclarator: [[], ['id', 'init']],
  FunctionDeclaration: [['generator', 'expression', 'async'], ['id', 'params', 'body']], FunctionExpression: [['generator', 'expression', 'async'], ['id', 'params', 'body']],
  ArrowFunctionExpression: [['generator', 'expression', 'async'], ['id', 'params', 'body']],
  ClassDeclaration: [[], ['id', 'superClass', 'body']], ClassExpression: [[], ['id', 'superClass', 'body']],
  MethodDefinition: [['kind', 'static', 'computed'], ['key', 'value']], Property: [['kind', 'method', 'shorthand', 'computed'], ['key', 'value']],
  Identifier: [['name'], []], ArrayExpression: [[], ['elements']], ArrayPattern: [[], ['elements']], ObjectExpression: [[], ['properties']], ObjectPattern: [[], ['properties']],
  AssignmentPattern: [[], ['left', 'right']], RestElement: [[], ['argument']], SpreadElement: [[], ['argument']], AwaitExpression: [[], ['argument']],
  YieldExpression: [['delegate'], ['argument']], UnaryExpression: [['operator'], ['argument']], UpdateExpression: [['operator', 'prefix'], ['argument']],
  BinaryExpression: [['operator'], ['left', 'right']], LogicalExpression: [['operator'], ['left', 'right']], AssignmentExpression: [['operator'], ['left', 'right']],
  SequenceExpression: [[], ['expressions']], CallExpression: [[], ['callee', 'arguments']], NewExpression: [[], ['callee', 'arguments']],
  MemberExpression: [['computed'], ['object', 'property']], MetaProperty: [[], ['meta', 'property']], TaggedTemplateExpression: [[], ['tag', 'quasi']],
  TemplateLiteral: [[], ['quasis', 'expressions']], ImportDeclaration: [[], ['specifiers', 'source']], ImportSpecifier: [[], ['imported', 'local']],
  ImportDefaultSpecifier: [[], ['local']], ImportNamespaceSpecifier: [[], ['local']], ExportNamedDeclaration: [[], ['declaration', 'specifiers', 'source']],
  ExportSpecifier: [[], ['local', 'exported']], ExportDefaultDeclaration: [[], ['declaration']], ExportAllDeclaration: [[], ['source']],
};
function proj(n) {
  if (n.type === 'Literal') {
    if (n.regex) return ['RegExp', [n.regex.pattern, n.regex.flags], []];
    if (n.value === null) return ['Literal', ['null', 'null'], []];
    return ['Literal', [{ string: 'str', number: 'num', boolean: 'bool' }[typeof n.value], String(n.value)], []];
  }
  if (n.type === 'TemplateElement') return ['TemplateElement', [n.value.cooked == null ? '<bad>' : n.value.cooked, n.value.raw, String(n.tail)], []];
  const d = T[n.type]; if (!d) throw Error('type ' + n.type);
  return [n.type, d[0].map(k => String(n[k])), d[1].map(k => K(n[k]))];
}
function parse(goal, src) { try { return acorn.parse(src, { ecmaVersion: +(process.env.EV || 2019), sourceType: goal }); } catch (e) { if (!(e instanceof SyntaxError)) throw e; return e; } }
const SKIP = /already been declared|Argument name clash|is not defined|Redefinition|Duplicate|Undefined|Octal|octal|Deleting local|Invalid regular|Illegal 'use strict'|'new\.target'|'super'|super\(\)|HTML|Duplicate export|Export '|Private|with no label/;
let bad = 0, n = 0, skipped = 0; const LIM = +(process.env.LIM || 40);
function report(kind, goal, src, exp, got) { if (bad++ < LIM) console.log(kind, goal, JSON.stringify(src), '\n   spec:', exp, '\n   acorn:', got); }
for (const f of process.argv.slice(2)) {
  let slice; const map = new Map(); const rows = [];
  for (const line of fs.readFileSync(f, 'utf8').split('\n')) {
    if (line.startsWith('"@S ') || line.startsWith('"@B ')) {
      const txt = line.slice(1, -1).replace(/\\(["\\nt])/g, (_, c) => c === 'n' ? '\n' : c === 't' ? '\t' : c).slice(3);
      const v = JSON.parse(txt);
      if (line[2] === 'S') slice = v; else { rows.push(v); map.set(v.x + ':' + v.p.join(','), v); }
    }
  }
  const sep = slice.sep ?? ' ';
  const text = parts => { let o = ''; for (const l of parts.flat()) { if (l === '\n') o += '\n'; else { if (o && !o.endsWith('\n')) o += sep; o += decode(l); } } return o; };
  const acc = (g, src, a) => { n++; const r = parse(g, src);
    if (r instanceof SyntaxError) { if (SKIP.test(r.message)) { skipped++; return; } return report('ACCEPT', g, src, JSON.stringify(spec(a)), r.message); }
    const e = JSON.stringify(spec(a)), p = JSON.stringify(proj(r)); if (e !== p) report('AST', g, src, e, p); };
  const rej = (g, src, why) => { n++; const r = parse(g, src); if (!(r instanceof SyntaxError)) report('REJECT', g, src, why, JSON.stringify(proj(r))); };
  for (const b of rows) {
    const c = slice.ctxs[b.x - 1], L = q => q.flatMap(i => slice.letters[i - 1]);
    const d = text([c.pre, L(b.p), c.post]);
    let clos = c.post;
    if (b.k === 'full') acc(c.goal, d, b.a);
    else { rej(c.goal, d, 'incomplete'); clos = b.q; if (b.k === 'comp') acc(c.goal, text([c.pre, L(b.p), b.q]), b.a); }
    if (b.p.length < slice.max) for (let l = 1; l <= slice.letters.length; l++) {
      const q = b.p.concat([l]); if (slice.letters[l - 1].every(s => s === '\n') || map.has(b.x + ':' + q.join(','))) continue;
      rej(c.goal, text([c.pre, L(q), c.post]), 'dead');
      if (clos !== c.post) rej(c.goal, text([c.pre, L(q), clos]), 'dead+closing');
    }
  }
}
console.log('compared', n, 'skipped', skipped, 'differences', bad);

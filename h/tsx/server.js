'use strict'
// Compiles and runs generated TypeScript: one JSON request per line on stdin, one JSON answer per line on stdout.
const fs = require('fs'), path = require('path'), vm = require('vm'), readline = require('readline')
const TS = process.env.HV_TS || '/opt/veriftools/node/node_modules/typescript'
const ts = require(TS)
const LIB = path.join(__dirname, 'lib')
const mods = { 'long': 'long', 'decimal.js': 'decimal', 'hbuf_ts': 'hbuf', 'element-plus': 'element', 'vue': 'vue' }
const opts = {
  target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, strict: true, esModuleInterop: true, skipLibCheck: true,
  skipDefaultLibCheck: true, types: [], lib: ['lib.es2020.d.ts'], noEmitOnError: false, ignoreDeprecations: '5.0',
  jsx: ts.JsxEmit.React, jsxFactory: 'hJsx', jsxFragmentFactory: 'hFrag',
}
const srcCache = new Map()
function libFile(name) {
  let s = srcCache.get(name)
  if (s === undefined) {
    const t = ts.sys.readFile(name)
    s = t === undefined ? null : ts.createSourceFile(name, t, opts.target, true)
    srcCache.set(name, s)
  }
  return s || undefined
}
// files whose names differ only in case are the schema's choice
const real = d => d.code !== 1149 && d.code !== 1261
let units = {} // n -> {js: {path: text}, cache: {}}
const Long = require(path.join(LIB, 'long/index.js'))
const { Decimal } = require(path.join(LIB, 'decimal/index.js'))
const hb = require(path.join(LIB, 'hbuf/index.js'))
const builtins = { 'long': Long, 'decimal.js': require(path.join(LIB, 'decimal/index.js')), 'hbuf_ts': hb, 'element-plus': require(path.join(LIB, 'element/index.js')), 'vue': require(path.join(LIB, 'vue/index.js')) }
globalThis.hFrag = '<>'
globalThis.hJsx = (tag, props, ...children) => ({ tag, props: props || {}, children: children.flat(9) })

function compile(req) {
  units = {}
  const files = new Map()
  for (const u of req.units) for (const k of Object.keys(u.files)) files.set('/u' + u.n + '/' + k, u.files[k])
  const host = {
    getSourceFile(name) {
      if (files.has(name)) return ts.createSourceFile(name, files.get(name), opts.target, true)
      return libFile(name)
    },
    getDefaultLibFileName: () => path.join(TS, 'lib', 'lib.es2020.d.ts'),
    getDefaultLibLocation: () => path.join(TS, 'lib'),
    writeFile() {},
    getCurrentDirectory: () => '/',
    getCanonicalFileName: f => f,
    useCaseSensitiveFileNames: () => true,
    getNewLine: () => '\n',
    fileExists: f => files.has(f) || ts.sys.fileExists(f),
    readFile: f => files.get(f) || ts.sys.readFile(f),
    getDirectories: () => [],
    resolveModuleNames(names, from) {
      return names.map(n => {
        let p
        if (mods[n]) p = path.join(LIB, mods[n], 'index.d.ts')
        else if (n.startsWith('.')) {
          p = path.posix.join(path.posix.dirname(from), n)
          if (from.startsWith(LIB)) p = p.replace(/\.js$/, '') + '.d.ts'
          else if (files.has(p + '.ts')) p += '.ts'
          else if (files.has(p + '.tsx')) p += '.tsx'
          else return undefined
        } else return undefined
        return { resolvedFileName: p, isExternalLibraryImport: p.startsWith(LIB), extension: p.endsWith('.d.ts') ? '.d.ts' : p.endsWith('.tsx') ? '.tsx' : '.ts' }
      })
    },
  }
  const prog = ts.createProgram([...files.keys()], opts, host)
  const out = {}
  for (const d of [...prog.getOptionsDiagnostics(), ...prog.getGlobalDiagnostics()].filter(real)) throw new Error('compiler setup: ' + ts.flattenDiagnosticMessageText(d.messageText, '\n'))
  for (const u of req.units) {
    const un = { js: {}, cache: {} }
    units[u.n] = un
    const diags = []
    for (const k of Object.keys(u.files)) {
      const sf = prog.getSourceFile('/u' + u.n + '/' + k)
      const ds = [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)].filter(real)
      for (const d of ds) {
        const at = d.file ? d.file.getLineAndCharacterOfPosition(d.start) : { line: 0 }
        const line = d.file ? d.file.text.split('\n')[at.line] : ''
        diags.push(k + ':' + (at.line + 1) + ': ' + ts.flattenDiagnosticMessageText(d.messageText, '\n') + '\n    ' + line.trim().slice(0, 300))
      }
      if (!ds.length) prog.emit(sf, (name, text) => { un.js[name.replace(/\.jsx?$/, '')] = text })
    }
    out[u.n] = diags
  }
  return { diags: out }
}

function load(un, n, name) {
  name = path.posix.normalize(name)
  const p = '/u' + n + '/' + name
  if (un.cache[p]) return un.cache[p].exports
  if (un.js[p] === undefined) throw new Error('no module ' + name)
  const m = { exports: {} }
  un.cache[p] = m
  const fn = vm.runInThisContext('(function(exports,require,module){' + un.js[p] + '\n})', { filename: p + '.js' })
  fn(m.exports, q => {
    if (builtins[q]) return builtins[q]
    return load(un, n, path.posix.join(path.posix.dirname(name), q))
  }, m)
  return m.exports
}

// ---- neutral values

const bad = s => ({ '!': s })
const kindOf = v => v === null ? 'null' : v === undefined ? 'undefined' : v instanceof Date ? 'Date' : Long.isLong(v) ? 'Long' : v instanceof Decimal ? 'Decimal' : Array.isArray(v) ? 'array' : typeof v === 'object' ? (v.constructor && v.constructor.name || 'object') : typeof v + ' ' + String(v)
const ints = { int8: 1, int16: 1, int32: 1, uint8: 1, uint16: 1, uint32: 1 }

function cls(x, d) { // class of a description reference {module, cls}
  const c = load(x.un, x.n, d.module)[d.cls]
  if (!c) throw new Error(d.module + ' does not export ' + d.cls)
  return c
}

function scalarIn(x, t, v) {
  if (ints[t] || t === 'float' || t === 'double') return Number(v)
  switch (t) {
    case 'int64': return Long.fromString(v)
    case 'uint64': return Long.fromString(v, true)
    case 'bool': case 'string': return v
    case 'date': return new Date(Number(v))
    case 'decimal': return new Decimal(v)
  }
  const e = x.desc.enums[t]
  if (e) return cls(x, e).valueOf(Number(v))
  return dataIn(x, t, v)
}
function keyIn(x, t, v) { return String(v) }
function fieldIn(x, t, v) {
  if (v === null || v === undefined) return null
  const el = e => e === null ? null : scalarIn(x, t.name, e)
  if (t.shape === 'array') return v.map(el)
  if (t.shape === 'map') {
    const o = {}
    for (const [k, e] of v) Object.defineProperty(o, keyIn(x, t.key, k), { value: el(e), enumerable: true, writable: true, configurable: true })
    return o
  }
  return el(v)
}
function dataIn(x, t, v) {
  const d = x.desc.datas[t]
  const o = new (cls(x, d))()
  for (const f of d.fields) {
    if (!(f.prop in o)) throw new Error('class ' + d.cls + ' has no field ' + f.prop)
    if (f.name in v) o[f.prop] = fieldIn(x, f.type, v[f.name])
  }
  return o
}
function scalarOut(x, t, v) {
  const need = (ok, s) => ok ? undefined : bad('expected ' + s + ', is ' + kindOf(v))
  if (ints[t]) return need(typeof v === 'number' && Number.isInteger(v), 'integer') || String(v)
  if (t === 'float' || t === 'double') return need(typeof v === 'number', 'number') || String(v)
  switch (t) {
    case 'int64': return need(Long.isLong(v) && !v.unsigned, 'signed Long') || v.toString()
    case 'uint64': return need(Long.isLong(v), 'Long') || v.toString()
    case 'bool': return need(typeof v === 'boolean', 'boolean') || v
    case 'string': return need(typeof v === 'string', 'string') || v
    case 'date': return need(v instanceof Date, 'Date') || String(v.getTime())
    case 'decimal': return need(v instanceof Decimal, 'Decimal') || v.toFixed()
  }
  const e = x.desc.enums[t]
  if (e) return need(v instanceof cls(x, e), e.cls) || String(v.value)
  return need(v instanceof cls(x, x.desc.datas[t]), x.desc.datas[t].cls) || dataOut(x, t, v)
}
function fieldOut(x, t, v) {
  if (v === null || v === undefined) return v === null || !t.strict ? null : bad('undefined')
  const el = e => e === null || e === undefined ? null : scalarOut(x, t.name, e)
  if (t.shape === 'array') return Array.isArray(v) ? v.map(el) : bad('expected array, is ' + kindOf(v))
  if (t.shape === 'map') {
    if (!hb.isRecord(v) || v instanceof Date) return bad('expected record, is ' + kindOf(v))
    return Object.keys(v).map(k => [t.key === 'bool' ? k === 'true' ? true : k === 'false' ? false : bad('key ' + k) : k, el(v[k])])
  }
  return scalarOut(x, t.name, v)
}
function dataOut(x, t, v) {
  const d = x.desc.datas[t], o = {}
  for (const f of d.fields) o[f.name] = v[f.prop] === undefined ? bad('undefined field ' + f.prop) : fieldOut(x, f.type, v[f.prop])
  const known = new Set(d.fields.map(f => f.prop))
  for (const k of Object.keys(v)) if (!known.has(k)) o['+' + k] = bad('unexpected field')
  return o
}
// mutable parts that two objects share
function shared(a, b, at) {
  if (a === null || b === null || typeof a !== 'object' || typeof b !== 'object') return ''
  if (Long.isLong(a) || a instanceof Decimal || (a.constructor && a.constructor.values && a.constructor.valueOf !== Function.prototype.valueOf)) return ''
  if (a === b) return at || 'the object itself'
  for (const k of Object.keys(a)) { const s = shared(a[k], b[k], at + '.' + k); if (s) return s }
  return ''
}

const errText = e => e instanceof Error ? (e.message + '\n' + (e.stack || '').split('\n').slice(1, 4).join('\n')) : 'thrown ' + typeof e + ': ' + String(e)

const ops = {
  data(x, o) {
    const d = x.desc.datas[o.type], C = cls(x, d), r = { m: {} }
    const obj = dataIn(x, o.type, o.value)
    r.m.built = dataOut(x, o.type, obj)
    const j = obj.toJson()
    r.text = JSON.stringify(j)
    r.m.after = dataOut(x, o.type, obj)
    r.value = dataOut(x, o.type, C.fromJson(JSON.parse(r.text)))
    r.m.direct = dataOut(x, o.type, C.fromJson(j))
    const c = obj.clone()
    r.m.cloneClass = c instanceof C
    r.m.clone = dataOut(x, o.type, c)
    r.m.cloneText = JSON.stringify(c.toJson())
    r.m.shared = shared(obj, c, '')
    r.m.afterClone = dataOut(x, o.type, obj)
    return r
  },
  decode(x, o) {
    const C = cls(x, x.desc.datas[o.type]), r = {}
    const v = C.fromJson(JSON.parse(o.text))
    r.value = dataOut(x, o.type, v)
    r.text = JSON.stringify(v.toJson())
    return r
  },
  fresh(x, o) {
    const C = cls(x, x.desc.datas[o.type]), v = new C()
    return { value: dataOut(x, o.type, v), text: JSON.stringify(v.toJson()) }
  },
  enum(x, o) {
    const d = x.desc.enums[o.name], C = cls(x, d), m = { items: {}, values: C.values.map(v => [v.name, String(v.value)]), byNum: {}, byName: {}, text: {} }
    for (const k of Object.keys(C)) if (C[k] instanceof C) m.items[k] = [C[k].name, String(C[k].value), C.values.indexOf(C[k])]
    const tr = f => { try { const v = f(); return v instanceof C ? [v.name, String(v.value), C.values.indexOf(v)] : bad('not an item: ' + kindOf(v)) } catch (e) { return null } }
    for (const n of o.nums || []) m.byNum[n] = tr(() => C.valueOf(Number(n)))
    for (const n of o.names || []) m.byName['=' + n] = tr(() => C.nameOf(n))
    for (const v of C.values) m.text[v.name] = v.toString()
    m.frozen = C.values.map(v => v.name)
    return { m }
  },
  lang(x, o) {
    const m = load(x.un, x.n, o.name), r = {}
    for (const k of Object.keys(m)) r[k] = m[k]
    return { m: r }
  },
  // renders a generated form or table; o.j: events {field, text|flag|date|none}
  ui(x, o) {
    const d = x.desc.datas[o.type], mod = load(x.un, x.n, o.text), C = mod[d.cls + o.name]
    if (!C) throw new Error(o.text + ' does not export ' + d.cls + o.name)
    const q = o.j
    const model = dataIn(x, o.type, o.value)
    const loc = v => v instanceof Date ? { local: v } : v
    const slots = {}
    for (const k of q.slots || []) slots[k] = () => ({ tag: 'slot', props: { prop: k }, children: [] })
    const ctx = { $t: k => ({ t: k }), $fd: (v, f) => ({ fd: v === null || v === undefined ? null : String(v.getTime()), f }), $timeToLocal: loc, $timeToUtc: v => v && v.local ? v.local : v,
      $datePackerShortcuts: () => [], $slots: slots, model, position: q.position, hide: q.hide }
    const comp = C.setup({ model })
    const render = () => comp(ctx)
    const body = n => n.children[0] && typeof n.children[0].default === 'function' ? n.children[0].default({ row: model, $index: 0 }) : undefined
    const made = v => typeof v === 'object' && !Array.isArray(v) && !Long.isLong(v) && !(v instanceof Decimal) && Object.getPrototypeOf(v) !== Object.prototype // an object of a generated class
    const plain = v => v === undefined ? { u: 1 } : v === null ? null : v instanceof Date ? { date: String(v.getTime()) } : made(v) ? { cls: kindOf(v) } : v.local ? { local: String(v.local.getTime()) } : Array.isArray(v) ? v.map(plain) : Long.isLong(v) || v instanceof Decimal ? { obj: v.toString() } : typeof v === 'object' && v.tag ? { tag: String(v.tag), props: Object.fromEntries(Object.keys(v.props).filter(k => typeof v.props[k] !== 'object' || v.props[k] === null).map(k => [k, v.props[k] === null ? null : String(v.props[k])])), children: v.children.map(plain) }
      : typeof v === 'object' && (v.t !== undefined || v.fd !== undefined) ? v : typeof v === 'object' && typeof v.default === 'function' ? { slots: Object.keys(v) } : typeof v === 'object' ? { cls: kindOf(v) } : v
    const rows = render().map(n => {
      const r = { tag: String(n.tag), prop: n.props.prop, label: n.props.label && n.props.label.t, cell: n.tag === 'el-table-column' ? plain(body(n)) : undefined }
      const inp = n.children[0]
      if (n.tag === 'el-form-item' && inp && inp.tag) {
        r.input = inp.tag
        r.type = inp.props.type === undefined ? null : inp.props.type
        r.disabled = inp.props.disabled === true
        r.clearable = inp.props.clearable === true
        r.value = plain('modelValue' in inp.props ? inp.props.modelValue : inp.props['v-model'])
        r.options = inp.children.map(c => c && c.tag ? [c.tag, String(c.props.key), c.props.label && c.props.label.t, c.props.value && c.props.value.name] : ['?'])
        if (n.props.rules) {
          r.rules = n.props.rules.length
          const vm = load(x.un, x.n, o.text.replace(/\.ui$/, '.verify'))
          const f = vm['verify' + d.cls + '_' + q.verify[n.props.prop]]
          const run = (g, v) => { const c = []; try { g({}, v, (...a) => c.push(a.map(e => e && e.message !== undefined ? e.message : e === undefined ? null : String(e)))) } catch (e) { c.push('throws') } return JSON.stringify(c) }
          if (!f) r.rule = 'none'
          else for (const v of [null, undefined, '', 'a', '0', '-1', '300', '1.5', 'x1y']) if (run(n.props.rules[0].validator, v) !== run(f({ t: p => 'T:' + p }), v)) r.rule = 'differs for ' + v
        }
      }
      return r
    })
    const events = (q.events || []).map(e => {
      try {
        const n = render().find(n => n.props.prop === e.prop)
        const h = n.children[0].props['onUpdate:modelValue']
        if (!h) return { none: true }
        const before = dataOut(x, o.type, model)
        h('text' in e ? e.text : 'flag' in e ? e.flag : 'date' in e ? { local: new Date(Number(e.date)) } : e.range ? e.dates.map(t => new Date(Number(t))) : 'dates' in e ? e.dates.map(t => ({ local: new Date(Number(t)) })) : null)
        const after = dataOut(x, o.type, model)
        return { value: after[e.field], others: Object.keys(after).filter(k => k !== e.field && JSON.stringify(after[k]) !== JSON.stringify(before[k])) }
      } catch (err) { return { err: errText(err) } }
    })
    return { m: { rows, events } }
  },
  members(x, o) {
    if (o.name === 'data') {
      const v = new (cls(x, x.desc.datas[o.type]))()
      return { m: { fields: Object.keys(v), wire: Object.keys(v.toJson()) } }
    }
    const s = x.desc.servers[o.type]
    const C = cls(x, { module: s.module, cls: s.cls + 'Client' }), R = cls(x, { module: s.module, cls: s.cls + 'Router' })
    const ms = []
    for (let k = C.prototype; k && k !== Object.prototype; k = Object.getPrototypeOf(k))
      for (const n of Object.getOwnPropertyNames(k)) if (n !== 'constructor' && n !== 'invoke' && typeof Object.getOwnPropertyDescriptor(k, n).value === 'function') ms.push(n)
    return { m: { client: ms, router: Object.keys(new R({}).getInvoke()) } }
  },
  exports(x, o) { return { value: Object.keys(load(x.un, x.n, o.name)) } },
  verify(x, o) {
    const m = load(x.un, x.n, o.type), f = m[o.name]
    if (!f) throw new Error(o.type + ' does not export ' + o.name)
    const rule = f({ t: p => 'T:' + p })
    return { value: o.j.map(v => {
      let calls = []
      try { rule({}, v === null ? null : v.u ? undefined : 'v' in v ? scalarIn(x, o.text, v.v) : v.s, (...a) => { calls.push(a.length === 0 || a[0] === undefined || a[0] === null ? null : String(a[0] && a[0].message !== undefined ? a[0].message : a[0])) }) } catch (e) { return { panic: errText(e) } }
      return { calls }
    }) }
  },
  async rpc(x, o) {
    // o.names: registered servers; o.j: calls {server, via, method, value, param, result, reply}
    const table = {}, dup = [], paths = []
    let seen = [], cur = null
    for (const name of o.names) {
      const s = x.desc.servers[name]
      const impl = {}
      for (const mm of s.methods) impl[mm.fn] = async (req, ctx) => {
        seen.push({ server: name, method: mm.name, req: dataOut(x, mm.param, req), ctx: ctx === undefined ? null : ctx })
        if (cur.reply.err) throw new Error(cur.reply.err)
        return mm.result === 'void' ? undefined : dataIn(x, mm.result, cur.reply.value)
      }
      const R = cls(x, { module: s.module, cls: s.cls + 'Router' })
      const router = new R(impl)
      const inv = router.getInvoke()
      for (const k of Object.keys(inv)) {
        paths.push([name, router.getName(), k])
        if (!table[name]) table[name] = {}
        table[name][k] = inv[k]
      }
    }
    const out = []
    for (const c of o.j) {
      cur = c
      seen = []
      const rep = { seen, wire: [] }
      out.push(rep)
      const s = x.desc.servers[c.server]
      const ctx = { k: String(out.length) }
      const client = {
        async invoke(name, id, param, fromJson, fromData) {
          const text = JSON.stringify(param.toJson())
          rep.wire.push([name, id, text])
          const tb = table[c.target] || {}
          const h = Object.prototype.hasOwnProperty.call(tb, name) ? tb[name] : undefined
          if (!h) throw new Error('no endpoint ' + name)
          const res = await h.invoke(h.formData(JSON.parse(text)), ctx)
          if (res === undefined || res === null) { rep.void = true; return undefined }
          const back = JSON.stringify(h.toData(res))
          rep.wire.push([back])
          return fromJson ? fromJson(JSON.parse(back)) : undefined
        },
      }
      try {
        const C = cls(x, { module: s.module, cls: s.cls + 'Client' })
        const cl = new C(client)
        rep.name = cl.name
        const mm = s.methods.find(q => q.name === c.method)
        const r = await cl[mm.fn](dataIn(x, mm.param, c.value), ctx)
        rep.result = r === undefined || r === null ? null : dataOut(x, mm.result, r)
      } catch (e) { rep.err = e instanceof Error ? e.message : String(e); rep.stack = errText(e) }
    }
    return { value: out, m: { paths } }
  },
  // call a client only, recording what it sends
  async send(x, o) {
    const out = []
    for (const c of o.j) {
      const s = x.desc.servers[c.server], rep = {}
      out.push(rep)
      try {
        const C = cls(x, { module: s.module, cls: s.cls + 'Client' })
        const mm = s.methods.find(q => q.name === c.method)
        const cl = new C({ async invoke(name, id, param, fromJson, fromData) {
          rep.path = name; rep.text = JSON.stringify(param.toJson())
          return fromJson ? fromJson(JSON.parse(c.answer)) : undefined
        } })
        const r = await cl[mm.fn](dataIn(x, mm.param, c.value))
        rep.result = r === undefined || r === null ? null : dataOut(x, mm.result, r)
      } catch (e) { rep.err = errText(e) }
    }
    return { value: out }
  },
}

async function handle(req) {
  if (req.cmd === 'compile') return compile(req)
  const un = units[req.unit]
  const x = { un, n: req.unit, desc: req.desc }
  const out = []
  for (const o of req.ops) {
    try { out.push(await ops[o.op](x, o)) } catch (e) { out.push({ panic: errText(e) }) }
  }
  return out
}

let chain = Promise.resolve()
readline.createInterface({ input: process.stdin, crlfDelay: Infinity }).on('line', line => {
  chain = chain.then(async () => {
    let r
    try { r = await handle(JSON.parse(line)) } catch (e) { r = { fatal: errText(e) } }
    await new Promise(res => process.stdout.write(JSON.stringify(r).replace(/[\u2028\u2029]/g, c => c === '\u2028' ? '\\u2028' : '\\u2029') + '\n', res))
  })
}).on('close', () => chain.then(() => process.exit(0)))
process.on('unhandledRejection', () => {})

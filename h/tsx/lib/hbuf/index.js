'use strict'
Object.defineProperty(exports, '__esModule', { value: true })
exports.isArray = v => Array.isArray(v)
exports.isRecord = v => v !== null && typeof v === 'object' && !Array.isArray(v)
exports.RecordEntry = class RecordEntry { constructor(key, value) { this.key = key; this.value = value } }
exports.convertArray = (l, f) => l === null || l === undefined ? null : l.map(e => f(e))
exports.convertRecord = (m, f) => {
  if (m === null || m === undefined) return null
  const o = {}
  for (const k of Object.keys(m)) {
    const e = f(k, m[k])
    Object.defineProperty(o, e.key, { value: e.value, enumerable: true, writable: true, configurable: true })
  }
  return o
}
exports.ServerClient = class ServerClient {
  constructor(client) { this.client = client }
  invoke(name, id, param, fromJson, fromData) { return this.client.invoke(name, id, param, fromJson, fromData) }
}

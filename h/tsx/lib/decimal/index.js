'use strict'
// Stand-in for decimal.js: unlimited precision construction, comparison and decimal.js's text form
// (exponent notation from 1e+21 and below 1e-6, like toExpPos/toExpNeg).
Object.defineProperty(exports, '__esModule', { value: true })
const P10 = n => 10n ** BigInt(n)
class Decimal {
  constructor(v) {
    if (v instanceof Decimal) { this.k = v.k; this.c = v.c; this.e = v.e; this.z = v.z; return }
    if (typeof v === 'bigint') v = v.toString()
    if (typeof v === 'number') v = Object.is(v, -0) ? '-0' : String(v)
    if (typeof v !== 'string') throw new Error('[DecimalError] Invalid argument: ' + v)
    let m
    this.k = 'n' // n: c * 10^e, i: infinite (c is the sign), x: not a number
    this.e = 0
    this.z = v[0] === '-'
    if (v === 'NaN') { this.k = 'x'; this.c = 0n; this.z = false }
    else if (/^[-+]?Infinity$/.test(v)) { this.k = 'i'; this.c = this.z ? -1n : 1n }
    else if ((m = /^([-+]?)(0x[0-9a-f]+|0b[01]+|0o[0-7]+)$/i.exec(v))) { this.c = BigInt(m[2]); if (m[1] === '-') this.c = -this.c }
    else if ((m = /^([-+]?)(\d+(?:\.\d*)?|\.\d+)(?:e([-+]?\d+))?$/i.exec(v))) {
      const [a, b = ''] = m[2].split('.')
      this.c = BigInt((a + b) || '0')
      if (m[1] === '-') this.c = -this.c
      this.e = Number(m[3] || 0) - b.length
      if (this.c === 0n) this.e = 0
      else {
        let s = this.c.toString(), n = 0
        while (s[s.length - 1 - n] === '0') n++
        this.c /= P10(n)
        this.e += n
      }
    } else throw new Error('[DecimalError] Invalid argument: ' + v)
  }
  cmp(o) {
    o = new Decimal(o)
    if (this.k === 'x' || o.k === 'x') return NaN
    if (this.k === 'i' || o.k === 'i') {
      const a = this.k === 'i' ? Number(this.c) : 0, b = o.k === 'i' ? Number(o.c) : 0
      return a === b ? 0 : a < b ? -1 : 1
    }
    const sa = this.c < 0n ? -1 : this.c > 0n ? 1 : 0, sb = o.c < 0n ? -1 : o.c > 0n ? 1 : 0
    if (sa !== sb) return sa < sb ? -1 : 1
    if (sa === 0) return 0
    const da = (this.c < 0n ? -this.c : this.c).toString().length + this.e, db = (o.c < 0n ? -o.c : o.c).toString().length + o.e
    if (da !== db) return (da < db ? -1 : 1) * sa
    const m = Math.min(this.e, o.e)
    const a = this.c * P10(this.e - m), b = o.c * P10(o.e - m)
    return a === b ? 0 : a < b ? -1 : 1
  }
  comparedTo(o) { return this.cmp(o) }
  lt(o) { return this.cmp(o) < 0 }
  lessThan(o) { return this.cmp(o) < 0 }
  lte(o) { return this.cmp(o) <= 0 }
  lessThanOrEqualTo(o) { return this.cmp(o) <= 0 }
  gt(o) { return this.cmp(o) > 0 }
  greaterThan(o) { return this.cmp(o) > 0 }
  gte(o) { return this.cmp(o) >= 0 }
  greaterThanOrEqualTo(o) { return this.cmp(o) >= 0 }
  eq(o) { return this.cmp(o) === 0 }
  equals(o) { return this.cmp(o) === 0 }
  isNaN() { return this.k === 'x' }
  isFinite() { return this.k === 'n' }
  isInteger() { return this.k === 'n' && this.e >= 0 }
  isInt() { return this.isInteger() }
  isZero() { return this.k === 'n' && this.c === 0n }
  isNegative() { return this.z }
  isNeg() { return this.z }
  text(fixed, neg0) {
    if (this.k === 'x') return 'NaN'
    if (this.k === 'i') return this.c < 0n ? '-Infinity' : 'Infinity'
    if (this.c === 0n) return this.z && neg0 ? '-0' : '0'
    const sign = this.c < 0n ? '-' : ''
    let s = (this.c < 0n ? -this.c : this.c).toString()
    const x = s.length - 1 + this.e // exponent of the first digit
    if (!fixed && (x <= -7 || x >= 21)) {
      s = s[0] + (s.length > 1 ? '.' + s.slice(1) : '')
      return sign + s + 'e' + (x < 0 ? '' : '+') + x
    }
    if (this.e >= 0) s += '0'.repeat(this.e)
    else if (-this.e >= s.length) s = '0.' + '0'.repeat(-this.e - s.length) + s
    else s = s.slice(0, s.length + this.e) + '.' + s.slice(s.length + this.e)
    return sign + s
  }
  toString() { return this.text(false, false) }
  valueOf() { return this.text(false, true) }
  toJSON() { return this.valueOf() }
  toFixed(d) {
    if (d === undefined || this.k !== 'n') return this.text(true, true)
    let c = this.c < 0n ? -this.c : this.c
    const x = this.e + d // digits to keep: c * 10^x, rounded half up
    if (x >= 0) c *= P10(x)
    else c = (c + P10(-x) / 2n) / P10(-x)
    let s = c.toString()
    if (d > 0) { s = s.padStart(d + 1, '0'); s = s.slice(0, -d) + '.' + s.slice(-d) }
    return (this.c < 0n || this.c === 0n && this.z ? '-' : '') + s
  }
  toNumber() { return Number(this.valueOf()) }
}
exports.Decimal = Decimal
exports.default = Decimal

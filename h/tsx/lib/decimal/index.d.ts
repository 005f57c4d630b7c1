export namespace Decimal {
  type Value = string | number | bigint | Decimal
}
export declare class Decimal {
  constructor(n: Decimal.Value)
  lessThan(n: Decimal.Value): boolean
  lt(n: Decimal.Value): boolean
  lessThanOrEqualTo(n: Decimal.Value): boolean
  lte(n: Decimal.Value): boolean
  greaterThan(n: Decimal.Value): boolean
  gt(n: Decimal.Value): boolean
  greaterThanOrEqualTo(n: Decimal.Value): boolean
  gte(n: Decimal.Value): boolean
  equals(n: Decimal.Value): boolean
  eq(n: Decimal.Value): boolean
  comparedTo(n: Decimal.Value): number
  cmp(n: Decimal.Value): number
  isNaN(): boolean
  isFinite(): boolean
  isInteger(): boolean
  isInt(): boolean
  isZero(): boolean
  isNegative(): boolean
  isNeg(): boolean
  toString(): string
  valueOf(): string
  toJSON(): string
  toFixed(digits?: number): string
  toNumber(): number
}
export default Decimal

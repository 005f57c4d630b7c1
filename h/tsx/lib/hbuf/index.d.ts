// Stand-in for hbuf_ts: the names the generated code uses.
declare global {
  type BinaryData = ArrayBuffer | ArrayBufferView
}
export interface Data {
  toJson(): Record<string, any>
  toData(): BinaryData
}
export interface Context { [key: string]: any }
export declare class RecordEntry<K extends keyof any, V> {
  readonly key: K
  readonly value: V
  constructor(key: K, value: V)
}
export declare function isArray(value: any): value is any[]
export declare function isRecord(value: any): value is Record<any, any>
export declare function convertArray<T, E>(list: T[] | null | undefined, call: (item: T) => E): E[] | null
// what a date input reports: the published signature is not known here, so both the list and the single value are allowed
export declare function convertArray<E>(list: number | string | Date | (number | string | Date)[] | null | undefined, call: (item: number | string | Date) => E): E[] | null
export declare function convertRecord<K extends keyof any, V, L extends keyof any, W>(map: Record<K, V> | null | undefined, call: (key: K, value: V) => RecordEntry<L, W>): Record<L, W> | null
export interface Client {
  invoke<R>(name: string, id: number, param: Data, fromJson: ((json: Record<string, any>) => R) | null, fromData: ((data: BinaryData) => R) | null): Promise<R>
}
export declare abstract class ServerClient {
  protected client: Client
  constructor(client: Client)
  abstract get name(): string
  abstract get id(): number
  protected invoke<R>(name: string, id: number, param: Data, fromJson: ((json: Record<string, any>) => R) | null, fromData: ((data: BinaryData) => R) | null): Promise<R>
}
export interface ServerInvoke {
  formData(data: BinaryData | Record<string, any>): Data
  toData(data: Data): BinaryData | Record<string, any>
  invoke(data: Data, ctx?: Context): Promise<Data | void>
}
export interface ServerRouter {
  getName(): string
  getId(): number
  getInvoke(): Record<string, ServerInvoke>
}
export {}

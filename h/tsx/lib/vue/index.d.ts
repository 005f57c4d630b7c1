// Stand-in for vue: components are plain descriptions whose set-up functions can be called.
declare global {
  namespace JSX {
    interface IntrinsicElements { [name: string]: any }
    interface Element { tag: any, props: Record<string, any>, children: any[] }
  }
  const hJsx: any
  const hFrag: any
}
export declare function defineComponent(options: { name?: string, props?: Record<string, any>, setup(props: any, ctx?: any): (_ctx: any) => any }): any
export {}

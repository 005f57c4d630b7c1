export type LocaleContext = { t(path: string, option?: any): string }
export declare function useLocale(): LocaleContext

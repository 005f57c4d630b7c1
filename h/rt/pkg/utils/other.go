package utl

func ToAnyList[T any](list []T) []any {
	ret := make([]any, len(list))
	for i, item := range list {
		ret[i] = item
	}
	return ret
}

package db

import (
	"database/sql/driver"
	"fmt"
	"strconv"
	"time"
)

// Args renders bound values for comparison: a kind letter and the text.
func Args(args []driver.Value) []any {
	out := make([]any, len(args))
	for i, a := range args {
		switch v := a.(type) {
		case nil:
			out[i] = nil
		case int64:
			out[i] = "i:" + strconv.FormatInt(v, 10)
		case float64:
			out[i] = "f:" + strconv.FormatFloat(v, 'g', -1, 64)
		case bool:
			out[i] = "b:" + strconv.FormatBool(v)
		case []byte:
			out[i] = "s:" + string(v)
		case string:
			out[i] = "s:" + v
		case time.Time:
			out[i] = "t:" + strconv.FormatInt(v.UnixMilli(), 10)
		default:
			out[i] = fmt.Sprintf("?:%T", a)
		}
	}
	return out
}

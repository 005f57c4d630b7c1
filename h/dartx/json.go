package dartx

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
)

// FromJSON decodes a text as json.decode does: whole numbers are ints, others doubles, and objects keep their order.
func FromJSON(s string) (Value, error) {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	v, err := decode(d)
	if err != nil {
		return nil, err
	}
	if d.More() {
		return nil, fmt.Errorf("more than one value")
	}
	return v, nil
}

func decode(d *json.Decoder) (Value, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case json.Delim:
		switch x {
		case '[':
			l := &List{}
			for d.More() {
				v, err := decode(d)
				if err != nil {
					return nil, err
				}
				l.V = append(l.V, v)
			}
			_, err := d.Token()
			return l, err
		case '{':
			m := &Map{}
			in := &Interp{}
			for d.More() {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				v, err := decode(d)
				if err != nil {
					return nil, err
				}
				in.MapSet(m, k.(string), v)
			}
			_, err := d.Token()
			return m, err
		}
	case json.Number:
		if n, err := strconv.ParseInt(x.String(), 10, 64); err == nil {
			return n, nil
		}
		f, err := x.Float64()
		return f, err
	case string, bool:
		return x, nil
	case nil:
		return nil, nil
	}
	return nil, fmt.Errorf("unexpected %v", t)
}

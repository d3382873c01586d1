//verif:package internal/cast

package cast

import (
	"errors"
	"fmt"
	"reflect"
	"strconv"
)

// The number of a value: pointers are followed, nil is an error, all other values are read from their text.
func zspec__ToNumber(v any) (float64, error) {
	v = Indirect(v)
	if v == nil {
		return 0, errors.New("nil")
	}
	switch n := v.(type) {
	case float64:
		return n, nil
	case float32:
		return float64(n), nil
	case int:
		return float64(n), nil
	case int64:
		return float64(n), nil
	case int32:
		return float64(n), nil
	case int16:
		return float64(n), nil
	case int8:
		return float64(n), nil
	case uint:
		return float64(n), nil
	case uint64:
		return float64(n), nil
	case uint32:
		return float64(n), nil
	case uint16:
		return float64(n), nil
	case uint8:
		return float64(n), nil
	case complex128:
		return real(n), nil
	case complex64:
		return float64(real(n)), nil
	case string:
		f, err := strconv.ParseFloat(n, 64)
		if err != nil {
			return 0, errors.New("no number")
		}
		return f, nil
	}
	if f, err := ToNumber(fmt.Sprintf("%d", v)); err == nil {
		return f, nil
	}
	return ToNumber(fmt.Sprintf("%v", v))
}

// The value a chain of pointers leads to, nil if it ends with nil.
func zspec__Indirect(a any) any {
	if a == nil {
		return nil
	}
	if reflect.TypeOf(a).Kind() != reflect.Ptr {
		return a
	}
	v := reflect.ValueOf(a)
	for v.Kind() == reflect.Ptr {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	return v.Interface()
}

//verif:package internal/cast

package cast

import (
	"errors"
	"time"
)

// Times are used as they are, durations count from now, numbers are seconds of the Unix epoch.
func zspec__ToTime(v any) (time.Time, error) {
	v = Indirect(v)
	if v == nil {
		return time.Time{}, errors.New("time is nil")
	}
	if t, ok := v.(time.Time); ok {
		return t, nil
	}
	if d, ok := v.(time.Duration); ok {
		return time.Now().Add(d), nil
	}
	n, err := ToNumber(v)
	if err != nil {
		return time.Time{}, errors.New("not a time")
	}
	return time.Unix(int64(n), 0), nil
}

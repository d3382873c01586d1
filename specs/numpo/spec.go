//verif:package catalog/poplural

package poplural

import (
	"math"

	"github.com/vorlif/spreak/internal/cast"
)

// The form of a number is the form of its absolute value, rounded to the nearest integer.
func zspec_Rule_Evaluate(f *Rule, a any) (int, error) {
	n, err := cast.ToNumber(a)
	if err != nil {
		return 0, err
	}
	return f.FormFunc(int64(math.RoundToEven(math.Abs(n)))), nil
}

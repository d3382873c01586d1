//verif:package catalog/cldrplural

package cldrplural

import (
	"errors"
	"math"
	"strconv"
	"strings"

	"github.com/vorlif/spreak/internal/cast"
)

func zspec_RuleSet_Evaluate(rs *RuleSet, a any) (Category, error) {
	ops, err := NewOperands(a)
	if err != nil {
		return Other, err
	}
	return rs.FormFunc(ops), nil
}

func zspec__MustNewOperands(a any) *Operands {
	ops, err := NewOperands(a)
	if err != nil {
		panic(err)
	}
	return ops
}

// Integers have no fraction digits, texts those that are visible, floats those of their shortest text.
func zspec__NewOperands(a any) (*Operands, error) {
	a = cast.Indirect(a)
	if a == nil {
		return nil, errors.New("nil")
	}
	switch v := a.(type) {
	case int:
		return zsInt(int64(v)), nil
	case int64:
		return zsInt(v), nil
	case string:
		return newOperandsString(v)
	case float32:
		return newOperandsString(strconv.FormatFloat(float64(v), 'f', -1, 32))
	case float64:
		return newOperandsString(strconv.FormatFloat(v, 'f', -1, 64))
	}
	n, err := cast.ToNumber(a)
	if err != nil {
		return nil, err
	}
	return newOperandsString(strconv.FormatFloat(n, 'f', -1, 64))
}

func zsInt(i int64) *Operands {
	if i < 0 {
		i = -i
	}
	return &Operands{N: float64(i), I: i}
}

func zspec__newOperandsString(raw string) (*Operands, error) {
	op := &Operands{}
	if i := strings.Index(raw, "c"); i >= 0 {
		c, err := strconv.Atoi(raw[i+1:])
		if err != nil {
			return nil, err
		}
		if c < 0 || c > 308 {
			return nil, errors.New("range")
		}
		op.C = int64(c)
		raw = shiftDecimalPoint(raw[:i], c)
	}
	n, err := strconv.ParseFloat(raw, 64)
	if err != nil {
		return nil, err
	}
	op.N = math.Abs(n)
	op.I = int64(op.N)
	i := strings.Index(raw, ".")
	if i < 0 {
		return op, nil
	}
	digits := raw[i+1:]
	if digits != "" {
		op.V = int64(len(digits))
		if op.F, err = strconv.ParseInt(digits, 10, 64); err != nil {
			return nil, err
		}
	}
	digits = strings.TrimRight(digits, "0")
	if digits != "" {
		op.W = int64(len(digits))
		if op.T, err = strconv.ParseInt(digits, 10, 64); err != nil {
			return nil, err
		}
	}
	return op, nil
}

// Moves the decimal point c digits to the right.
func zspec__shiftDecimalPoint(raw string, c int) string {
	text := ""
	point := false
	for _, r := range raw {
		if r == '.' {
			point = true
			continue
		}
		if point && c == 0 {
			text += "."
			point = false
		}
		if point {
			c--
		}
		text += string(r)
	}
	for ; c > 0; c-- {
		text += "0"
	}
	return text
}

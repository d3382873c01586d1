//verif:package catalog/poplural

package poplural

import "github.com/vorlif/spreak/catalog/poplural/ast"

// A formula computes with int64 like C, truth values are 0 and 1, a remainder of zero is 0.
func zspec__evaluateNode(node ast.Node, n int64) int64 {
	switch v := node.(type) {
	case *ast.ValueExpr:
		return v.Value
	case *ast.OperandExpr:
		return n
	case *ast.QuestionMarkExpr:
		if evaluateNode(v.Cond, n) == 0 {
			return evaluateNode(v.F, n)
		}
		return evaluateNode(v.T, n)
	case *ast.BinaryExpr:
		a, b := evaluateNode(v.X, n), evaluateNode(v.Y, n)
		switch v.Op {
		case ast.LogicalAnd:
			return zsTruth(a != 0 && b != 0)
		case ast.LogicalOr:
			return zsTruth(a != 0 || b != 0)
		case ast.Equal:
			return zsTruth(a == b)
		case ast.NotEqual:
			return zsTruth(a != b)
		case ast.Greater:
			return zsTruth(a > b)
		case ast.GreaterOrEqual:
			return zsTruth(a >= b)
		case ast.Less:
			return zsTruth(a < b)
		case ast.LessOrEqual:
			return zsTruth(a <= b)
		case ast.Reminder:
			if b == 0 {
				return 0
			}
			return a % b
		}
	}
	return 0
}

func zsTruth(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func zspec__Parse(raw string) (*Rule, error) {
	forms, err := ast.Parse(raw)
	if err != nil {
		return nil, err
	}
	if rule := getBuiltInForRawRule(ast.CompileToString(forms)); rule != nil {
		return rule, nil
	}
	return &Rule{NPlurals: forms.NPlurals, FormFunc: func(n int64) int {
		if forms.Root == nil {
			return 0
		}
		return int(evaluateNode(forms.Root, n))
	}}, nil
}

func zspec__MustParse(raw string) *Rule {
	rule, err := Parse(raw)
	if err != nil {
		panic(err)
	}
	return rule
}

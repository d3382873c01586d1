//verif:package catalog/cldrplural

package cldrplural

import (
	"maps"
	"math"
	"slices"

	"github.com/vorlif/spreak/catalog/cldrplural/ast"
)

// The categories are those of the rules in their order and always Other; the first category whose rule applies is chosen.
func zspec__ParseRules(raw map[Category]string) (*RuleSet, error) {
	cats := []Category{}
	rules := map[Category]*ast.Rule{}
	for _, cat := range slices.Sorted(maps.Keys(raw)) {
		r, err := ast.Parse(raw[cat])
		if err != nil {
			return nil, err
		}
		rules[cat] = r
		cats = append(cats, cat)
	}
	if _, ok := raw[Other]; !ok {
		cats = append(cats, Other)
	}
	order := slices.Clone(cats)
	return &RuleSet{Categories: cats, FormFunc: func(ops *Operands) Category {
		for _, cat := range order {
			if cat != Other && evaluate(rules[cat], ops) {
				return cat
			}
		}
		return Other
	}}, nil
}

func zspec__MustParseRules(raw map[Category]string) *RuleSet {
	set, err := ParseRules(raw)
	if err != nil {
		panic(err)
	}
	return set
}

// ---- Equations: conditions of every shape with up to three values and ranges ----

func zsOperand(name string, ops *Operands) float64 {
	switch name {
	case "n":
		return ops.N
	case "i":
		return float64(ops.I)
	case "v":
		return float64(ops.V)
	case "w":
		return float64(ops.W)
	case "f":
		return float64(ops.F)
	case "t":
		return float64(ops.T)
	case "c", "e":
		return float64(ops.C)
	}
	panic("operand")
}

func zsRemainder(name string, m int64, ops *Operands) float64 {
	switch name {
	case "n":
		return math.Mod(ops.N, float64(m))
	case "i":
		return float64(ops.I % m)
	case "v":
		return float64(ops.V % m)
	case "w":
		return float64(ops.W % m)
	case "f":
		return float64(ops.F % m)
	case "t":
		return float64(ops.T % m)
	case "c", "e":
		return float64(ops.C % m)
	}
	panic("operand")
}

func zsIn(x float64, from, to int64) bool {
	return x >= float64(from) && x <= float64(to) && math.Round(x) == x
}

func zsRel(x ast.Node, op ast.Token, list *ast.RangeListExpr) *ast.Rule {
	return &ast.Rule{Root: &ast.InRelationExpr{X: x, Op: op, Y: list}}
}

func zsV(v int64) ast.Node             { return &ast.ValueExpr{Value: v} }
func zsR(from, to int64) ast.Node      { return &ast.RangeExpr{From: from, To: to} }
func zsO(name string) *ast.OperandExpr { return &ast.OperandExpr{Operand: name} }

func zleft_value(name string, a int64, ops *Operands) bool {
	return evaluate(zsRel(zsO(name), ast.Equal, &ast.RangeListExpr{X: zsV(a)}), ops)
}

func zright_value(name string, a int64, ops *Operands) bool {
	return zsOperand(name, ops) == float64(a)
}

func zleft_valueNot(name string, a int64, ops *Operands) bool {
	return evaluate(zsRel(zsO(name), ast.NotEqual, &ast.RangeListExpr{X: zsV(a)}), ops)
}

func zright_valueNot(name string, a int64, ops *Operands) bool {
	return !(zsOperand(name, ops) == float64(a))
}

func zleft_remainder(name string, m, a int64, ops *Operands) bool {
	return evaluate(zsRel(&ast.ModuloExpr{Op: zsO(name), Value: m}, ast.Equal, &ast.RangeListExpr{X: zsV(a)}), ops)
}

func zright_remainder(name string, m, a int64, ops *Operands) bool {
	return zsRemainder(name, m, ops) == float64(a)
}

func zleft_remainderRange(name string, m, a, b int64, ops *Operands) bool {
	return evaluate(zsRel(&ast.ModuloExpr{Op: zsO(name), Value: m}, ast.NotEqual, &ast.RangeListExpr{X: zsR(a, b)}), ops)
}

func zright_remainderRange(name string, m, a, b int64, ops *Operands) bool {
	return !zsIn(zsRemainder(name, m, ops), a, b)
}

func zleft_range(a, b int64, ops *Operands) bool {
	return evaluate(zsRel(zsO("n"), ast.Equal, &ast.RangeListExpr{X: zsR(a, b)}), ops)
}

func zright_range(a, b int64, ops *Operands) bool { return zsIn(ops.N, a, b) }

func zleft_values(a, b, c int64, ops *Operands) bool {
	return evaluate(zsRel(zsO("n"), ast.Equal, &ast.RangeListExpr{X: zsV(a), Y: &ast.RangeListExpr{X: zsV(b), Y: &ast.RangeListExpr{X: zsV(c)}}}), ops)
}

func zright_values(a, b, c int64, ops *Operands) bool {
	return ops.N == float64(a) || ops.N == float64(b) || ops.N == float64(c)
}

func zleft_valuesNot(a, b, c int64, ops *Operands) bool {
	return evaluate(zsRel(zsO("n"), ast.NotEqual, &ast.RangeListExpr{X: zsV(a), Y: &ast.RangeListExpr{X: zsV(b), Y: &ast.RangeListExpr{X: zsV(c)}}}), ops)
}

func zright_valuesNot(a, b, c int64, ops *Operands) bool {
	return !(ops.N == float64(a) || ops.N == float64(b) || ops.N == float64(c))
}

func zleft_ranges(a, b, c, d, e, f int64, ops *Operands) bool {
	return evaluate(zsRel(zsO("n"), ast.Equal, &ast.RangeListExpr{X: zsR(a, b), Y: &ast.RangeListExpr{X: zsR(c, d), Y: &ast.RangeListExpr{X: zsR(e, f)}}}), ops)
}

func zright_ranges(a, b, c, d, e, f int64, ops *Operands) bool {
	return zsIn(ops.N, a, b) || zsIn(ops.N, c, d) || zsIn(ops.N, e, f)
}

func zleft_mixed(a, b, c, d int64, ops *Operands) bool {
	return evaluate(zsRel(zsO("n"), ast.Equal, &ast.RangeListExpr{X: zsV(a), Y: &ast.RangeListExpr{X: zsR(b, c), Y: &ast.RangeListExpr{X: zsV(d)}}}), ops)
}

func zright_mixed(a, b, c, d int64, ops *Operands) bool {
	return ops.N == float64(a) || zsIn(ops.N, b, c) || ops.N == float64(d)
}

func zleft_mixedNot(a, b, c, d, e int64, ops *Operands) bool {
	return evaluate(zsRel(zsO("n"), ast.NotEqual, &ast.RangeListExpr{X: zsR(a, b), Y: &ast.RangeListExpr{X: zsV(c), Y: &ast.RangeListExpr{X: zsR(d, e)}}}), ops)
}

func zright_mixedNot(a, b, c, d, e int64, ops *Operands) bool {
	return !(zsIn(ops.N, a, b) || ops.N == float64(c) || zsIn(ops.N, d, e))
}

// "and" binds stronger than "or": conditions of every shape with up to three relations.

func zsC(v int64) ast.Node {
	return &ast.InRelationExpr{X: zsO("n"), Op: ast.Equal, Y: &ast.RangeListExpr{X: zsV(v)}}
}

func zsAnd(x, y ast.Node) ast.Node { return &ast.BinaryExpr{X: x, Op: ast.And, Y: y} }
func zsOr(x, y ast.Node) ast.Node  { return &ast.BinaryExpr{X: x, Op: ast.Or, Y: y} }

func zleft_and(a, b int64, ops *Operands) bool {
	return evaluate(&ast.Rule{Root: zsAnd(zsC(a), zsC(b))}, ops)
}

func zright_and(a, b int64, ops *Operands) bool { return ops.N == float64(a) && ops.N == float64(b) }

func zleft_or(a, b int64, ops *Operands) bool {
	return evaluate(&ast.Rule{Root: zsOr(zsC(a), zsC(b))}, ops)
}

func zright_or(a, b int64, ops *Operands) bool { return ops.N == float64(a) || ops.N == float64(b) }

func zleft_andOr(a, b, c, d int64, ops *Operands) bool {
	return evaluate(&ast.Rule{Root: zsOr(zsAnd(zsC(a), zsC(b)), zsAnd(zsC(c), zsC(d)))}, ops)
}

func zright_andOr(a, b, c, d int64, ops *Operands) bool {
	return ops.N == float64(a) && ops.N == float64(b) || ops.N == float64(c) && ops.N == float64(d)
}

func zleft_and3(a, b, c int64, ops *Operands) bool {
	return evaluate(&ast.Rule{Root: zsAnd(zsC(a), zsAnd(zsC(b), zsC(c)))}, ops)
}

func zright_and3(a, b, c int64, ops *Operands) bool {
	return ops.N == float64(a) && ops.N == float64(b) && ops.N == float64(c)
}

func zleft_or3(a, b, c int64, ops *Operands) bool {
	return evaluate(&ast.Rule{Root: zsOr(zsC(a), zsOr(zsC(b), zsC(c)))}, ops)
}

func zright_or3(a, b, c int64, ops *Operands) bool {
	return ops.N == float64(a) || ops.N == float64(b) || ops.N == float64(c)
}

func zleft_empty(ops *Operands) bool  { return evaluate(&ast.Rule{}, ops) }
func zright_empty(ops *Operands) bool { return true }

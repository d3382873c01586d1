# C22
p="catalog/cldrplural/evaluation.go"
edit(p,'''		evaluatedValue := evaluateExpression(e.X, ops)
		inRelation := false

		ast.Inspect(e.Y, func(node ast.Node) bool {
			switch valNode := node.(type) {
			case *ast.ValueExpr:
				if float64(valNode.Value) == evaluatedValue {
					inRelation = true
					return false
				}
			case *ast.RangeExpr:
				if isFloatInRange(evaluatedValue, valNode.From, valNode.To) {
					inRelation = true
					return false
				}
			}

			return true
		})

		if e.Op == ast.NotEqual {
			return !inRelation
		}

		return inRelation
''','''		return inList(e.Y, evaluateExpression(e.X, ops)) != (e.Op == ast.NotEqual)
''')
edit(p,'''func evaluateExpression(''','''func inList(list *ast.RangeListExpr, value float64) bool {
	for list != nil {
		switch v := list.X.(type) {
		case *ast.ValueExpr:
			if value == float64(v.Value) {
				return true
			}
		case *ast.RangeExpr:
			if isFloatInRange(value, v.From, v.To) {
				return true
			}
		}
		next, ok := list.Y.(*ast.RangeListExpr)
		if !ok {
			break
		}
		list = next
	}
	return false
}

func evaluateExpression(''')
edit(p,'''		left := evaluateNode(e.X, ops)
		right := evaluateNode(e.Y, ops)
		if e.Op == ast.And {
			return left && right
		}
		return left || right
''','''		if e.Op == ast.And {
			return evaluateNode(e.X, ops) && evaluateNode(e.Y, ops)
		}
		return evaluateNode(e.X, ops) || evaluateNode(e.Y, ops)
''')
edit(p,'''	for i := 0; i < len(rangeValues); i += 2 {
		lower := rangeValues[i]
		upper := rangeValues[i+1]

		// If the value is not within the range, not every value needs to be checked.
		if !(x >= float64(lower) && x <= float64(upper)) {
			continue
		}

		// Only integers can be part of a range
		if math.Round(x) == x {
			return true
		}
	}

	return false''','''	if math.Round(x) != x {
		return false
	}
	for ; len(rangeValues) >= 2; rangeValues = rangeValues[2:] {
		if float64(rangeValues[0]) <= x && x <= float64(rangeValues[1]) {
			return true
		}
	}
	return false''')
edit(p,'''			for _, cat := range categories {
				// Other applies if no other category applies
				if cat != Other && evaluate(rules[cat], ops) {
					return cat
				}
			}
''','''			for _, cat := range categories {
				if cat == Other {
					continue
				}
				rule := rules[cat]
				if evaluate(rule, ops) {
					return cat
				}
			}
''')
p="catalog/cldrplural/ast/parser.go"
edit(p,'''		orNode := &BinaryExpr{
			X:  ln,
			Op: Or,
			Y:  rn,
		}
		return orNode, nil''','''		return newBinary(Or, ln, rn), nil''')
edit(p,'''func (p *parser) andCondition()''','''func newBinary(op Token, x, y Node) *BinaryExpr {
	return &BinaryExpr{X: x, Op: op, Y: y}
}

func (p *parser) andCondition()''')
edit(p,'''	if p.lastToken == And {
		if errScan''','''	if p.lastToken != And {
		return ln, nil
	}
	{
		if errScan''')
edit(p,'''		return andNode, nil
	}

	return ln, nil
}''','''		return andNode, nil
	}
}''')
edit(p,'''	for p.lastToken != eof {
		switch p.lastToken {
		case sample: // "@decimal", "@integer"
			if errScan := p.scanNext(); errScan != nil {
				return nil, errScan
			}
			continue
		case''','''	for p.lastToken != eof {
		switch p.lastToken {
		case sample: // "@decimal", "@integer"
		case''')
p="catalog/cldrplural/ast/scanner.go"
edit(p,'''	if reValue.MatchString(lit) {
		return Value, lit
	} else if reSampleValue.MatchString(lit) {
		return sampleValue, lit
	} else if reRange.MatchString(lit) {
		return ValueRange, lit
	} else if reSampleRange.MatchString(lit) {
		return sampleRange, lit
	}

	return unknown, lit
}''','''	return classify(lit), lit
}

func classify(lit string) Token {
	switch {
	case reValue.MatchString(lit):
		return Value
	case reSampleValue.MatchString(lit):
		return sampleValue
	case reRange.MatchString(lit):
		return ValueRange
	case reSampleRange.MatchString(lit):
		return sampleRange
	}
	return unknown
}''')

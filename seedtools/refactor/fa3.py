edit("catalog/poplural/rule.go","""	if conditionTrue {
		return 1
	}

	return 0
}""","""	return toInt(conditionTrue)
}

func toInt(b bool) int64 {
	if !b {
		return 0
	}
	return 1
}""")
edit("catalog/poplural/rule.go","""	f := &Rule{
		NPlurals: parsed.NPlurals,
		FormFunc: generateFormFunc(parsed),
	}
	return f, nil
}""","""	return newRule(parsed), nil
}

func newRule(forms *ast.Forms) *Rule {
	r := new(Rule)
	r.FormFunc = generateFormFunc(forms)
	r.NPlurals = forms.NPlurals
	return r
}""")
edit("catalog/poplural/rule.go","""			rightVal := evaluateNode(v.Y, num)
			if rightVal == 0 {
				return 0
			}
			return evaluateNode(v.X, num) % rightVal""","""			left, right := evaluateNode(v.X, num), evaluateNode(v.Y, num)
			if right != 0 {
				return left % right
			}
			return 0""")
s=open("catalog/poplural/ast/scanner.go").read()
i=s.index("func (s *scanner) scanWhitespace()"); j=s.index("func (s *scanner) scanText()")
s=s[:i]+'''func (s *scanner) collect(accept func(rune) bool) string {
	var sb strings.Builder
	ch := s.read()
	sb.WriteRune(ch)
	for ch = s.read(); ch != scannerEOF; ch = s.read() {
		if !accept(ch) {
			s.unread()
			break
		}
		sb.WriteRune(ch)
	}
	return sb.String()
}

func (s *scanner) scanWhitespace() (tok Token, lit string) {
	return whitespace, s.collect(isWhitespace)
}

func (s *scanner) scanNumber() (tok Token, lit string) {
	return Value, s.collect(func(ch rune) bool { return ch == '_' || isDigit(ch) })
}

'''+s[j:]
open("catalog/poplural/ast/scanner.go","w").write(s)
edit("catalog/poplural/ast/scanner.go","""	switch ch {
	case scannerEOF:
		return eof, ""
	case '%':
		return Reminder, string(ch)
""","""	switch ch {
	case '%':
		return Reminder, "%"
""")
s=open("catalog/poplural/ast/parser.go").read()
a="""	if p.lastToken == Equal || p.lastToken == NotEqual {
		compareNode := &BinaryExpr{Op: p.lastToken}

		if errScan := p.scanNext(); errScan != nil {
			return nil, errScan
		}

		re, errRe := p.relationalExpression()
		if errRe != nil {
			return nil, errRe
		}

		compareNode.X = n
		compareNode.Y = re
		return compareNode, nil
	}

	return n, nil
}
"""
assert a in s
s=s.replace(a,"""	switch p.lastToken {
	case Equal, NotEqual:
		return p.binary(n, p.relationalExpression)
	}
	return n, nil
}

func (p *parser) binary(left Node, next func() (Node, error)) (Node, error) {
	op := p.lastToken
	if err := p.scanNext(); err != nil {
		return nil, err
	}
	right, err := next()
	if err != nil {
		return nil, err
	}
	return &BinaryExpr{X: left, Op: op, Y: right}, nil
}
""")
s=s.replace("""	s           *scanner
	lastToken   Token  // last read Token
	lastLiteral string // last read literal
	n           int    // buffer size (max=1)
""","""	s           *scanner
	lastToken   Token  // last read Token
	lastLiteral string // last read literal
""").replace("""	if p.n != 0 {
		p.n = 0
		return p.lastToken, p.lastLiteral
	}

""","")
open("catalog/poplural/ast/parser.go","w").write(s)

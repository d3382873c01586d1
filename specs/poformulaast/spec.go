//verif:package catalog/poplural/ast

package ast

import (
	"bufio"
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// The header: nplurals = number ; plural = expression ; and nothing else.
func zspec_parser_Parse(p *parser) (*Forms, error) {
	for _, want := range []Token{nPlurals, assign} {
		if zsNext(p) != want {
			return nil, errors.New("unexpected token")
		}
	}
	if zsNext(p) != Value {
		return nil, errors.New("unexpected token")
	}
	n, err := strconv.Atoi(p.lastLiteral)
	if err != nil {
		return nil, fmt.Errorf("%w", err)
	}
	for _, want := range []Token{semicolon, plural, assign} {
		if zsNext(p) != want {
			return nil, errors.New("unexpected token")
		}
	}
	if !zsAdvance(p) {
		return nil, errors.New("end")
	}
	root, err := p.expression()
	if err != nil {
		return nil, err
	}
	if p.lastToken != semicolon {
		return nil, errors.New("unexpected token")
	}
	if zsNext(p) != eof {
		return nil, errors.New("unexpected token")
	}
	return &Forms{NPlurals: n, Root: root}, nil
}

// The next token that is no white space.
func zsNext(p *parser) Token {
	p.lastToken, p.lastLiteral = p.s.scan()
	if p.lastToken == whitespace {
		p.lastToken, p.lastLiteral = p.s.scan()
	}
	return p.lastToken
}

func zsAdvance(p *parser) bool {
	t := zsNext(p)
	return t != eof && t != failure
}

// expression = or [ "?" expression ":" expression ]
func zspec_parser_expression(p *parser) (Node, error) {
	cond, err := p.logicalOrExpression()
	if err != nil || p.lastToken != Question {
		return zsNode(cond, err)
	}
	if !zsAdvance(p) {
		return nil, errors.New("end")
	}
	t, err := p.expression()
	if err != nil {
		return nil, err
	}
	if p.lastToken != colon {
		return nil, errors.New("colon expected")
	}
	if !zsAdvance(p) {
		return nil, errors.New("end")
	}
	f, err := p.expression()
	if err != nil {
		return nil, err
	}
	return &QuestionMarkExpr{Cond: cond, T: t, F: f}, nil
}

func zsNode(n Node, err error) (Node, error) {
	if err != nil {
		return nil, err
	}
	return n, nil
}

// or = and [ "||" or ], with the operands from left to right
func zspec_parser_logicalOrExpression(p *parser) (Node, error) {
	left, err := p.logicalAndExpression()
	if err != nil || p.lastToken != LogicalOr {
		return zsNode(left, err)
	}
	if !zsAdvance(p) {
		return nil, errors.New("end")
	}
	right, err := p.logicalOrExpression()
	if err != nil {
		return nil, err
	}
	return zsLeft(left, LogicalOr, right), nil
}

// and = equality [ "&&" and ]
func zspec_parser_logicalAndExpression(p *parser) (Node, error) {
	left, err := p.equalityExpression()
	if err != nil || p.lastToken != LogicalAnd {
		return zsNode(left, err)
	}
	if !zsAdvance(p) {
		return nil, errors.New("end")
	}
	right, err := p.logicalAndExpression()
	if err != nil {
		return nil, err
	}
	return zsLeft(left, LogicalAnd, right), nil
}

func zsLeft(left Node, op Token, right Node) Node {
	if right.Type() != op {
		return &BinaryExpr{X: left, Op: op, Y: right}
	}
	r := right.(*BinaryExpr)
	r.X = &BinaryExpr{X: left, Op: op, Y: r.X}
	return r
}

// equality = relation [ ( "==" | "!=" ) relation ]
func zspec_parser_equalityExpression(p *parser) (Node, error) {
	left, err := p.relationalExpression()
	if err != nil || p.lastToken != Equal && p.lastToken != NotEqual {
		return zsNode(left, err)
	}
	op := p.lastToken
	if !zsAdvance(p) {
		return nil, errors.New("end")
	}
	right, err := p.relationalExpression()
	if err != nil {
		return nil, err
	}
	return &BinaryExpr{X: left, Op: op, Y: right}, nil
}

// relation = remainder [ ( "<" | "<=" | ">" | ">=" ) remainder ]
func zspec_parser_relationalExpression(p *parser) (Node, error) {
	left, err := p.multiplicativeExpression()
	if err != nil {
		return nil, err
	}
	op := p.lastToken
	if op != Less && op != LessOrEqual && op != Greater && op != GreaterOrEqual {
		return left, nil
	}
	if !zsAdvance(p) {
		return nil, errors.New("end")
	}
	right, err := p.multiplicativeExpression()
	if err != nil {
		return nil, err
	}
	return &BinaryExpr{X: left, Op: op, Y: right}, nil
}

// remainder = primary [ "%" primary ]
func zspec_parser_multiplicativeExpression(p *parser) (Node, error) {
	left, err := p.pmExpression()
	if err != nil || p.lastToken != Reminder {
		return zsNode(left, err)
	}
	if !zsAdvance(p) {
		return nil, errors.New("end")
	}
	right, err := p.pmExpression()
	if err != nil {
		return nil, err
	}
	return &BinaryExpr{X: left, Op: Reminder, Y: right}, nil
}

// primary = "n" | number | "(" expression ")"
func zspec_parser_pmExpression(p *parser) (Node, error) {
	var n Node
	switch p.lastToken {
	case Operand:
		n = &OperandExpr{}
	case Value:
		v, err := strconv.ParseInt(p.lastLiteral, 10, 64)
		if err != nil {
			return nil, fmt.Errorf("%w", err)
		}
		n = &ValueExpr{Value: v}
	case leftBracket:
		if !zsAdvance(p) {
			return nil, errors.New("end")
		}
		var err error
		if n, err = p.expression(); err != nil {
			return nil, err
		}
		if p.lastToken != rightBracket {
			return nil, errors.New("bracket expected")
		}
	default:
		return nil, errors.New("unexpected token")
	}
	if !zsAdvance(p) {
		return nil, errors.New("end")
	}
	return n, nil
}

func zspec__Parse(rule string) (*Forms, error) {
	p := &parser{s: &scanner{r: bufio.NewReader(strings.NewReader(rule))}}
	return p.Parse()
}

// Words are letters and underscores, numbers are digits and underscores.
func zspec_scanner_scan(s *scanner) (Token, string) {
	c := zsRead(s)
	if c == scannerEOF {
		return eof, ""
	}
	switch {
	case c == ' ' || c == '\t' || c == '\n':
		_ = s.r.UnreadRune()
		return whitespace, zsWhile(s, func(c rune) bool { return c == ' ' || c == '\t' || c == '\n' })
	case zsLetter(c):
		_ = s.r.UnreadRune()
		word := zsWhile(s, func(c rune) bool { return zsLetter(c) || c == '_' })
		switch strings.ToLower(word) {
		case "nplurals":
			return nPlurals, word
		case "plural":
			return plural, word
		case "n":
			return Operand, word
		}
		return failure, word
	case c >= '0' && c <= '9':
		_ = s.r.UnreadRune()
		return Value, zsWhile(s, func(c rune) bool { return c >= '0' && c <= '9' || c == '_' })
	}
	switch c {
	case '%':
		return Reminder, "%"
	case '?':
		return Question, "?"
	case ':':
		return colon, ":"
	case ';':
		return semicolon, ";"
	case '(':
		return leftBracket, "("
	case ')':
		return rightBracket, ")"
	case '&', '!', '|', '<', '>', '=':
		next := zsRead(s)
		switch string([]rune{c, next}) {
		case "!=":
			return NotEqual, "!="
		case "&&":
			return LogicalAnd, "&&"
		case "==":
			return Equal, "=="
		case "||":
			return LogicalOr, "||"
		case ">=":
			return GreaterOrEqual, ">="
		case "<=":
			return LessOrEqual, "<="
		}
		_ = s.r.UnreadRune()
		switch c {
		case '<':
			return Less, "<"
		case '>':
			return Greater, ">"
		case '=':
			return assign, "="
		}
	}
	return failure, string(c)
}

func zsLetter(c rune) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }

func zsRead(s *scanner) rune {
	c, _, err := s.r.ReadRune()
	if err != nil {
		return scannerEOF
	}
	return c
}

// All runes that belong together, the first one is part of them.
func zsWhile(s *scanner, f func(rune) bool) string {
	text := string(zsRead(s))
	for {
		c := zsRead(s)
		if c == scannerEOF {
			return text
		}
		if !f(c) {
			_ = s.r.UnreadRune()
			return text
		}
		text += string(c)
	}
}

func zspec__CompileToString(f *Forms) string {
	return "nplurals=" + strconv.FormatInt(int64(f.NPlurals), 10) + "; plural=" + compileNode(f.Root) + ";"
}

// The text of a formula: an or has always parentheses, the operands of the other operators if they bind weaker.
func zspec__compileNode(node Node) string {
	switch v := node.(type) {
	case *ValueExpr:
		return strconv.FormatInt(v.Value, 10)
	case *OperandExpr:
		return "n"
	case *QuestionMarkExpr:
		return zsGroup(zsOperand(v.Cond, 0)) + " ? " + zsSimple(v.T) + " : " + zsSimple(v.F)
	case *BinaryExpr:
		text := zsOperand(v.X, zsRank(v.Op)) + " " + string(v.Op) + " " + zsOperand(v.Y, zsRank(v.Op))
		if v.Op == LogicalOr {
			return "(" + text + ")"
		}
		return text
	}
	return ""
}

func zsOperand(node Node, rank int) string {
	text := compileNode(node)
	switch op := node.Type(); op {
	case Question:
		return "(" + text + ")"
	case LogicalAnd:
		if rank > zsRank(op) {
			return "(" + text + ")"
		}
	case Equal, NotEqual, Greater, GreaterOrEqual, Less, LessOrEqual, Reminder:
		if rank >= zsRank(op) {
			return "(" + text + ")"
		}
	}
	return text
}

func zsRank(op Token) int {
	switch op {
	case LogicalOr:
		return 1
	case LogicalAnd:
		return 2
	case Equal, NotEqual:
		return 3
	case Greater, GreaterOrEqual, Less, LessOrEqual:
		return 4
	case Reminder:
		return 5
	}
	return 0
}

func zsGroup(text string) string {
	if len(text) > 1 && !(strings.HasPrefix(text, "(") && strings.HasSuffix(text, ")")) {
		return "(" + text + ")"
	}
	return text
}

func zsSimple(node Node) string {
	if text := compileNode(node); len(text) > 1 {
		return "(" + text + ")"
	} else {
		return text
	}
}

//verif:package catalog/cldrplural/ast

package ast

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

func zspec__Parse(text string) (*Rule, error) {
	p := &parser{s: &scanner{tokens: strings.FieldsFunc(text, func(r rune) bool { return unicode.IsSpace(r) || r == ',' })}}
	rule := &Rule{}
	zsNext(p)
	if p.lastToken != sample {
		root, err := p.condition()
		if err != nil {
			return nil, err
		}
		rule.Root = root
	}
	samples, err := p.samples()
	if err != nil {
		return nil, err
	}
	rule.Samples = samples
	return rule, nil
}

func zspec__MustParse(text string) *Rule {
	rule, err := Parse(text)
	if err != nil {
		panic(err)
	}
	return rule
}

// An unknown token ends the parsing where it is not expected, that is everywhere.
func zsNext(p *parser) { p.lastToken, p.lastLiteral = p.s.Scan() }

// condition = and [ "or" condition ]
func zspec_parser_condition(p *parser) (Node, error) {
	left, err := p.andCondition()
	if err != nil {
		return nil, err
	}
	if p.lastToken != Or {
		return left, nil
	}
	zsNext(p)
	right, err := p.condition()
	if err != nil {
		return nil, err
	}
	return &BinaryExpr{X: left, Op: Or, Y: right}, nil
}

// and = relation [ "and" and ]
func zspec_parser_andCondition(p *parser) (Node, error) {
	left, err := zsRelation(p)
	if err != nil {
		return nil, err
	}
	if p.lastToken != And {
		return left, nil
	}
	zsNext(p)
	right, err := p.andCondition()
	if err != nil {
		return nil, err
	}
	return &BinaryExpr{X: left, Op: And, Y: right}, nil
}

// relation = operand [ "%" number ] ( "=" | "!=" ) list
func zsRelation(p *parser) (Node, error) {
	if p.lastToken != Operand {
		return nil, errors.New("operand expected")
	}
	op := &OperandExpr{Operand: strings.ToLower(p.lastLiteral)}
	var x Node = op
	zsNext(p)
	if p.lastToken == Remainder {
		zsNext(p)
		v, err := zsNumber(p)
		if err != nil {
			return nil, err
		}
		if v == 0 {
			return nil, errors.New("remainder by zero")
		}
		x = &ModuloExpr{Op: op, Value: v}
	}
	eq := p.lastToken
	if eq != Equal && eq != NotEqual {
		return nil, errors.New("comparison expected")
	}
	zsNext(p)
	list, err := p.rangeList()
	if err != nil {
		return nil, err
	}
	return &InRelationExpr{X: x, Op: eq, Y: list}, nil
}

func zsNumber(p *parser) (int64, error) {
	if p.lastToken != Value {
		return 0, errors.New("number expected")
	}
	v, err := strconv.ParseInt(p.lastLiteral, 10, 64)
	if err != nil {
		return 0, fmt.Errorf("%w", err)
	}
	zsNext(p)
	return v, nil
}

// list = ( number | number ".." number ) [ list ]
func zspec_parser_rangeList(p *parser) (*RangeListExpr, error) {
	list := &RangeListExpr{}
	switch p.lastToken {
	case Value:
		v, err := zsNumber(p)
		if err != nil {
			return nil, err
		}
		list.X = &ValueExpr{Value: v}
	case ValueRange:
		r, err := zsRange(p)
		if err != nil {
			return nil, err
		}
		list.X = r
	default:
		return nil, errors.New("value expected")
	}
	if p.lastToken == Value || p.lastToken == ValueRange {
		rest, err := p.rangeList()
		if err != nil {
			return nil, err
		}
		list.Y = rest
	}
	return list, nil
}

func zsRange(p *parser) (*RangeExpr, error) {
	parts := strings.Split(p.lastLiteral, "..")
	if len(parts) != 2 {
		return nil, errors.New("range")
	}
	from, err := strconv.ParseInt(parts[0], 10, 64)
	if err != nil {
		return nil, errors.New("start")
	}
	to, err := strconv.ParseInt(parts[1], 10, 64)
	if err != nil {
		return nil, errors.New("end")
	}
	if to < from {
		return nil, errors.New("order")
	}
	zsNext(p)
	return &RangeExpr{From: from, To: to}, nil
}

func zspec_scanner_Scan(s *scanner) (Token, string) {
	text, ok := zsRead(s)
	if !ok {
		return eof, ""
	}
	switch strings.ToLower(text) {
	case "":
		return eof, ""
	case "n", "i", "v", "w", "f", "t", "c", "e":
		return Operand, text
	case "=":
		return Equal, text
	case "!=":
		return NotEqual, "!="
	case "%", "mod":
		return Remainder, "%"
	case "and":
		return And, text
	case "or":
		return Or, text
	case "@integer", "@decimal":
		return sample, text
	case "…", "...", ".":
		return s.Scan()
	}
	if next, ok := zsRead(s); ok {
		if next == ".." || next == "~" {
			text += next
			end, ok := zsRead(s)
			if !ok {
				return unknown, text
			}
			text += end
		} else if s.pos > 0 {
			s.pos--
		}
	}
	switch {
	case regexp.MustCompile(`^\d+$`).MatchString(text):
		return Value, text
	case regexp.MustCompile(`^((?:0|[1-9]\d*c?\d*)(?:\.\d*)?|(?:0|[1-9]\d*\d*)(?:\.\d*c?\d*)?)$`).MatchString(text):
		return sampleValue, text
	case regexp.MustCompile(`^\d+\.\.[1-9]\d*$`).MatchString(text):
		return ValueRange, text
	case regexp.MustCompile(`^(?:0|[1-9]\d*)(?:\.\d*)?~(?:0|[1-9]\d*)(?:\.\d*)?$`).MatchString(text):
		return sampleRange, text
	}
	return unknown, text
}

func zsRead(s *scanner) (string, bool) {
	if s.pos >= len(s.tokens) {
		return "", false
	}
	s.pos++
	return s.tokens[s.pos-1], true
}

// samples = { "@integer" | "@decimal" | sample | sample "~" sample }
func zspec_parser_samples(p *parser) ([]string, error) {
	var list []string
	if p.lastToken == eof {
		return list, nil
	}
	if p.lastToken != sample {
		return nil, errors.New("end expected")
	}
	for p.lastToken != eof {
		switch p.lastToken {
		case sample:
		case Value, sampleValue:
			list = append(list, p.lastLiteral)
		case sampleRange:
			list = append(list, parseSampleRange(p.lastLiteral)...)
		default:
			return nil, errors.New("sample expected")
		}
		zsNext(p)
	}
	return list, nil
}

func zspec__parseSampleRange(text string) []string {
	parts := strings.Split(text, "~")
	if len(parts) != 2 {
		return parts
	}
	var list []string
	for v := parts[0]; len(v) <= len(parts[1]); v = increment(v) {
		list = append(list, v)
		if v == parts[1] {
			break
		}
	}
	return list
}

// What the evaluation divides by is not zero.
func zsafe_parser_andCondition(n Node, err error) bool {
	if b, ok := n.(*BinaryExpr); ok {
		n = b.X
	}
	if rel, ok := n.(*InRelationExpr); ok {
		if m, ok := rel.X.(*ModuloExpr); ok {
			return m.Value != 0
		}
	}
	return true
}

// The next number with the same number of digits after the point.
func zspec__increment(dec string) string {
	runes := []rune(dec)
	carry := true
	for i := len(runes) - 1; carry && i >= 0; i-- {
		if runes[i] == '.' {
			continue
		}
		if runes[i] == '9' {
			runes[i] = '0'
			continue
		}
		runes[i]++
		carry = false
	}
	if carry {
		return string(append([]rune{'1'}, runes...))
	}
	return string(runes)
}

# C15
p="catalog/cldrplural/cldr.go"
edit(p,'''	a = cast.Indirect(a)
	if a == nil {
		return nil, errors.New("operands value is nil")
	}

	switch v := a.(type) {
	case string:
		return newOperandsString(v)
	case int64:
		return newOperandsInt(v), nil
	case int:
		return newOperandsInt(int64(v)), nil
''','''	value := cast.Indirect(a)
	if value == nil {
		return nil, errors.New("operands value is nil")
	}

	if s, ok := value.(string); ok {
		return newOperandsString(s)
	}

	switch v := value.(type) {
	case int:
		return newOperandsInt(int64(v)), nil
	case int64:
		return newOperandsInt(v), nil
''')
edit(p,'''	default:
		num, err := cast.ToNumber(v)
		if err != nil {
			return nil, err
		}
		return newOperandsString(strconv.FormatFloat(num, 'f', -1, 64))
	}
''','''	}
	num, err := cast.ToNumber(value)
	if err != nil {
		return nil, err
	}
	return newOperandsString(floatText(num, 64))
''')
edit(p,'''		return newOperandsString(strconv.FormatFloat(v, 'f', -1, 64))
''','''		return newOperandsString(floatText(v, 64))
''')
edit(p,'''func newOperandsInt(i int64) *Operands {
	if i < 0 {
		i = -i
	}
	return &Operands{float64(i), i, 0, 0, 0, 0, 0}
''','''func floatText(f float64, size int) string {
	return strconv.FormatFloat(f, 'f', -1, size)
}

func newOperandsInt(i int64) *Operands {
	abs := i
	if abs < 0 {
		abs *= -1
	}
	return &Operands{N: float64(abs), I: abs}
''')
edit(p,'''	if cIdx := strings.Index(raw, "c"); cIdx >= 0 {
		c, err := strconv.Atoi(raw[cIdx+1:])
''','''	if mantissa, exp, ok := strings.Cut(raw, "c"); ok {
		c, err := strconv.Atoi(exp)
''')
edit(p,"shiftDecimalPoint(raw[:cIdx], c)","shiftDecimalPoint(mantissa, c)")
edit(p,'''	if pointIdx := strings.Index(raw, "."); pointIdx >= 0 {
		fractionDigits := raw[pointIdx+1:]
		if fractionDigits != "" {
			op.V = int64(len(fractionDigits))
			f, err := strconv.ParseInt(fractionDigits, 10, 64)
			if err != nil {
				return nil, err
			}
			op.F = f
		}
''','''	if strings.Contains(raw, ".") {
		fractionDigits := raw[strings.IndexByte(raw, '.')+1:]
		if len(fractionDigits) > 0 {
			f, err := strconv.ParseInt(fractionDigits, 10, 64)
			if err != nil {
				return nil, err
			}
			op.F = f
			op.V = int64(len(fractionDigits))
		}
''')
edit(p,'''	for i := 0; i < c; i++ {
		s.WriteRune('0')
	}
''','''	for range c {
		s.WriteByte('0')
	}
''')
p="internal/cast/number.go"
edit(p,'''	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	if v.Kind() == reflect.Ptr {
		return nil
	}
	return v.Interface()''','''	for ; v.Kind() == reflect.Ptr; v = v.Elem() {
		if v.IsNil() {
			return nil
		}
	}
	return v.Interface()''')
edit(p,'''	if a == nil {
		return nil
	}
	if t := reflect.TypeOf(a); t.Kind() != reflect.Ptr {
		// Avoid creating a reflect.Value if it's not a pointer.
		return a
	}
	v := reflect.ValueOf(a)''','''	if a == nil || reflect.TypeOf(a).Kind() != reflect.Pointer {
		return a
	}
	v := reflect.ValueOf(a)''')
p="catalog/poplural/rule.go"
edit(p,'''	num = math.RoundToEven(math.Abs(num))
	return f.FormFunc(int64(num)), nil''','''	rounded := math.RoundToEven(math.Abs(num))
	form := f.FormFunc(int64(rounded))
	return form, nil''')

# Refactorings of the humanized numbers, sizes and times (C20)
edit("humanize/numbers.go", '''	num := int64(fl)
	if num <= 0 || num >= 10 {
		return h.loc.Print("%d", num)
	}

	return h.loc.Get(apnumbers[num-1])
''', '''	num := int64(fl)
	if num > 0 && int(num) <= len(apnumbers) {
		word := apnumbers[num-1]
		return h.loc.Get(word)
	}
	return h.loc.Print("%d", num)
''')
edit("humanize/numbers.go", '''	for _, converter := range intwordConverters {
		largeNumber := math.Pow10(converter.exponent)
		if absValue < (largeNumber * float64(1000)) {
			newValue := value / largeNumber
			roundedValue := int64(math.Ceil(newValue-1)) + 1
			if roundedValue < 0 {
				roundedValue = int64(math.Abs(math.Floor(newValue)))
			}
			formattedNumber := h.loc.Print("%.1f", newValue)
			return h.loc.NGetf(converter.singular, converter.plural, roundedValue, formattedNumber)
		}
	}
	return h.Intcomma(value)
}
''', '''	for i := 0; i < len(intwordConverters); i++ {
		c := &intwordConverters[i]
		largeNumber := math.Pow10(c.exponent)
		if !(absValue < (largeNumber * float64(1000))) {
			continue
		}
		newValue := value / largeNumber
		return h.loc.NGetf(c.singular, c.plural, intwordCount(newValue), h.loc.Print("%.1f", newValue))
	}
	return h.Intcomma(value)
}

func intwordCount(v float64) int64 {
	if n := int64(math.Ceil(v-1)) + 1; n >= 0 {
		return n
	}
	return int64(math.Abs(math.Floor(v)))
}
''')
edit("humanize/numbers.go", '''	value := int64(floatValue)
	switch value % 100 {
	case 11, 12, 13:
		return h.loc.PGetf("ordinal 11, 12, 13", "%vth", value)
	}

	template := ordinalTemplates[value%10]
	return h.loc.PGetf(template.Context, template.ID, value)
''', '''	value := int64(floatValue)
	if tens := value % 100; tens == 11 || tens == 12 || tens == 13 {
		return h.loc.PGetf("ordinal 11, 12, 13", "%vth", value)
	}
	lastDigit := value % 10
	return h.loc.PGetf(ordinalTemplates[lastDigit].Context, ordinalTemplates[lastDigit].ID, value)
''')
edit("humanize/helper.go", '''	var result string
	if count < kb {
		result = h''', '''	result := h.formatSize(count)
	if isNegative {
		return "-" + result
	}
	return result
}

func (h *Humanizer) formatSize(count float64) string {
	var result string
	if count < kb {
		result = h''')
edit("humanize/helper.go", '''	if isNegative {
		result = "-" + result
	}
	return result
}

func floor''', '''	return result
}

func floor''')
edit("humanize/helper.go", '''	t := reflect.TypeOf(i)
	if t == nil {
		return "<nil>"
	}

	return fmt.Sprintf("%%!(%s=%v)", t.String(), i)
''', '''	if i == nil {
		return "<nil>"
	}
	typeName := reflect.TypeOf(i).String()
	return fmt.Sprintf("%%!(%s=%v)", typeName, i)
''')
edit("humanize/date.go", '''	delta := value.Sub(today).Hours() / 24
	switch delta {
	case 0:
		return h.loc.Get("today")
	case 1:
		return h.loc.Get("tomorrow")
	case -1:
		return h.loc.Get("yesterday")
	default:
		return h.FormatTime(t, DateFormat)
	}
''', '''	delta := value.Sub(today).Hours() / 24
	if delta == 0 {
		return h.loc.Get("today")
	}
	if delta == 1 {
		return h.loc.Get("tomorrow")
	} else if delta == -1 {
		return h.loc.Get("yesterday")
	}
	return h.FormatTime(t, DateFormat)
''')
edit("humanize/date.go", '''	if t.Before(now) {
		delta := now.Sub(t).Truncate''', '''	if t.Before(now) {
		return h.naturalPast(t, now)
	}
	return h.naturalFuture(t, now)
}

func (h *Humanizer) naturalPast(t, now time.Time) string {
	{
		delta := now.Sub(t).Truncate''')
edit("humanize/date.go", '''		return h.loc.NGetf(entry.singular, entry.plural, count, count)
	}

	delta := t.Sub(now)
''', '''		return h.loc.NGetf(entry.singular, entry.plural, count, count)
	}
}

func (h *Humanizer) naturalFuture(t, now time.Time) string {
	delta := t.Sub(now)
''')
edit("humanize/date.go", '''	i := sort.Search(len(timeSinceChunks), func(i int) bool {
		chunk := timeSinceChunks[i]
		count := floorDivision(float64(since), float64(chunk.seconds))
		return count != 0
	})
''', '''	i := 0
	for i < len(timeSinceChunks) && floorDivision(float64(since), float64(timeSinceChunks[i].seconds)) == 0 {
		i++
	}
''')
edit("humanize/date.go", '''	"sort"
''', '')
edit("humanize/date.go", '''	for i < len(timeSinceChunks) && currentDepth < o.depth {
		chunk := timeSinceChunks[i]
		count := floorDivision(float64(since), float64(chunk.seconds))
		i++
		if count <= 0 {
			if o.requireAdjacent {
				break
			}

			continue
		}
''', '''	for _, chunk := range timeSinceChunks[i:] {
		if currentDepth >= o.depth {
			break
		}
		count := floorDivision(float64(since), float64(chunk.seconds))
		if count < 1 && o.requireAdjacent {
			break
		}
		if count < 1 {
			continue
		}
''')
edit("internal/calendar/calendar.go", "return year%4 == 0 && (year%100 != 0 || year%400 == 0)", "return year%400 == 0 || year%4 == 0 && year%100 != 0")
edit("internal/cast/time.go", '''	if num, err := ToNumber(i); err == nil {
		return time.Unix(int64(num), 0), nil
	}
	return time.Time{}, fmt''', '''	if num, numErr := ToNumber(i); numErr == nil {
		secs := int64(num)
		return time.Unix(secs, 0), nil
	}
	return time.Time{}, fmt''')

s = open("humanize/helper.go").read()
open("humanize/helper.go", "w").write(s.replace("else if count < tb {", "else if !(count >= tb) {").replace("isNegative := count < 0", "isNegative := !(count >= 0)"))

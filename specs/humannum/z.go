//verif:package humanize

package humanize

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"time"

	"golang.org/x/text/number"

	"github.com/vorlif/spreak/internal/calendar"
	"github.com/vorlif/spreak/internal/cast"
)

// What is not a number (or a time) is shown in the style of package fmt.
func zsInvalid(v any) string {
	if v == nil {
		return "<nil>"
	}
	return fmt.Sprintf("%%!(%s=%v)", reflect.TypeOf(v).String(), v)
}

// At most six decimal places, in the style of the language.
func zspec_Humanizer_Intcomma(h *Humanizer, v any) string {
	n, err := cast.ToNumber(v)
	if err != nil {
		return zsInvalid(v)
	}
	return h.loc.Print("%v", number.Decimal(n, number.MaxFractionDigits(6)))
}

// Only the numbers from one to nine are spelled out.
func zspec_Humanizer_Apnumber(h *Humanizer, v any) string {
	n, err := cast.ToNumber(v)
	if err != nil || math.IsNaN(n) {
		return zsInvalid(v)
	}
	if math.Abs(n) >= math.MaxInt64 {
		return h.loc.Print("%v", number.Decimal(n))
	}
	switch i := int64(n); i {
	case 1:
		return h.loc.Get("one")
	case 2:
		return h.loc.Get("two")
	case 3:
		return h.loc.Get("three")
	case 4:
		return h.loc.Get("four")
	case 5:
		return h.loc.Get("five")
	case 6:
		return h.loc.Get("six")
	case 7:
		return h.loc.Get("seven")
	case 8:
		return h.loc.Get("eight")
	case 9:
		return h.loc.Get("nine")
	default:
		return h.loc.Print("%d", i)
	}
}

// The ending depends on the last digit, except for 11, 12 and 13.
func zspec_Humanizer_Ordinal(h *Humanizer, v any) string {
	n, err := cast.ToNumber(v)
	if err != nil {
		return zsInvalid(v)
	}
	if n < 0 {
		return strconv.FormatInt(int64(n), 10)
	}
	if math.IsNaN(n) || n >= math.MaxInt64 {
		return zsInvalid(v)
	}
	i := int64(n)
	if r := i % 100; r == 11 || r == 12 || r == 13 {
		return h.loc.PGetf("ordinal 11, 12, 13", "%vth", i)
	}
	switch i % 10 {
	case 0:
		return h.loc.PGetf("ordinal 0", "%vth", i)
	case 1:
		return h.loc.PGetf("ordinal 1", "%vst", i)
	case 2:
		return h.loc.PGetf("ordinal 2", "%vnd", i)
	case 3:
		return h.loc.PGetf("ordinal 3", "%vrd", i)
	case 4:
		return h.loc.PGetf("ordinal 4", "%vth", i)
	case 5:
		return h.loc.PGetf("ordinal 5", "%vth", i)
	case 6:
		return h.loc.PGetf("ordinal 6", "%vth", i)
	case 7:
		return h.loc.PGetf("ordinal 7", "%vth", i)
	case 8:
		return h.loc.PGetf("ordinal 8", "%vth", i)
	case 9:
		return h.loc.PGetf("ordinal 9", "%vth", i)
	}
	panic("unreachable")
}

// Numbers from one million up to a thousand googol are shown with one decimal place and the largest unit that is used
// for them; the number of the plural form is the rounded up value (for negative values its absolute amount).
func zspec_Humanizer_Intword(h *Humanizer, v any) string {
	n, err := cast.ToNumber(v)
	if err != nil {
		return zsInvalid(v)
	}
	if math.Abs(n) < 1000000 {
		return h.Intcomma(n)
	}
	units := []struct {
		zeros int
		text  string
	}{
		{6, "%[1]s million"}, {9, "%[1]s billion"}, {12, "%[1]s trillion"}, {15, "%[1]s quadrillion"},
		{18, "%[1]s quintillion"}, {21, "%[1]s sextillion"}, {24, "%[1]s septillion"}, {27, "%[1]s octillion"},
		{30, "%[1]s nonillion"}, {33, "%[1]s decillion"}, {100, "%[1]s googol"},
	}
	for _, u := range units {
		if math.Abs(n) < math.Pow10(u.zeros)*1000 {
			x := n / math.Pow10(u.zeros)
			count := int64(math.Ceil(x-1)) + 1
			if count < 0 {
				count = int64(math.Abs(math.Floor(x)))
			}
			return h.loc.NGetf(u.text, u.text, count, h.loc.Print("%.1f", x))
		}
	}
	return h.Intcomma(n)
}

// The unit is the largest one that does not exceed the size; all units except bytes have at most one decimal place.
func zspec_Humanizer_FilesizeFormat(h *Humanizer, v any) string {
	var size float64
	if data, ok := v.([]byte); ok {
		size = float64(len(data))
	} else {
		n, err := cast.ToNumber(v)
		if err != nil || math.IsNaN(n) {
			return zsInvalid(v)
		}
		size = math.Trunc(n)
	}
	sign := ""
	if size < 0 {
		sign, size = "-", -size
	}
	if size < 1024 {
		return sign + h.loc.NGetf("%[1]d byte", "%[1]d bytes", int64(size), int64(size))
	}
	show := func(text string, unit float64) string {
		return sign + h.loc.Getf(text, h.loc.Print("%v", number.Decimal(size/unit, number.MaxFractionDigits(1))))
	}
	switch {
	case size < 1<<20:
		return show("%s KB", 1<<10)
	case size < 1<<30:
		return show("%s MB", 1<<20)
	case size < 1<<40:
		return show("%s GB", 1<<30)
	case size < 1<<50:
		return show("%s TB", 1<<40)
	}
	return show("%s PB", 1<<50)
}

func zspec_Humanizer_LanguageName(h *Humanizer, name string) string { return h.loc.Get(name) }

func zspec_Humanizer_LanguageNameByCode(h *Humanizer, code string) string {
	if info, ok := LocaleInfos[code]; ok {
		return h.loc.Get(info.Name)
	}
	return ""
}

// The dates are those of the location of the value.
func zspec_Humanizer_NaturalDay(h *Humanizer, v any) string {
	t, err := cast.ToTime(v)
	if err != nil {
		return zsInvalid(v)
	}
	now := time.Now().In(t.Location())
	day := time.Date(t.Year(), t.Month(), t.Day(), 0, 0, 0, 0, time.UTC)
	today := time.Date(now.Year(), now.Month(), now.Day(), 0, 0, 0, 0, time.UTC)
	switch day.Sub(today).Hours() / 24 {
	case 0:
		return h.loc.Get("today")
	case 1:
		return h.loc.Get("tomorrow")
	case -1:
		return h.loc.Get("yesterday")
	}
	return h.FormatTime(t, "DATE_FORMAT")
}

// The dates are those of the location of the value.
func zspec_Humanizer_NaturalTime(h *Humanizer, v any) string {
	t, err := cast.ToTime(v)
	if err != nil {
		return zsInvalid(v)
	}
	now := time.Now().In(t.Location())
	if t.Before(now) {
		delta := now.Sub(t).Truncate(time.Second)
		seconds := int64(delta.Seconds())
		if int64(delta.Hours()) >= 24 {
			return h.loc.Getf("%[1]v ago", h.TimeSince(t, withTimeStrings(zsUnits("naturaltime-past"))))
		}
		if seconds == 0 {
			return h.loc.Get("now")
		}
		if seconds < 60 {
			return h.loc.NGetf("a second ago", "%[1]v seconds ago", seconds, seconds)
		}
		if zsFloor(delta.Seconds(), 60) < 60 {
			n := int64(math.Floor(float64(seconds) / 60))
			return h.loc.NGetf("a minute ago", "%[1]v minutes ago", n, n)
		}
		n := int64(math.Floor(math.Floor(float64(seconds)/60) / 60))
		return h.loc.NGetf("an hour ago", "%[1]v hours ago", n, n)
	}
	delta := t.Sub(now)
	seconds := int64(delta.Round(time.Second).Seconds())
	if int64(delta.Round(time.Second).Hours()) >= 24 {
		return h.loc.Getf("%[1]v from now", h.TimeUntil(t, withTimeStrings(zsUnits("naturaltime-future"))))
	}
	if seconds == 0 {
		return h.loc.Get("now")
	}
	if seconds < 60 {
		return h.loc.NGetf("a second from now", "%[1]v seconds from now", seconds, seconds)
	}
	if zsFloor(float64(seconds), 60) < 60 {
		n := int64(math.Floor(float64(seconds) / 60))
		return h.loc.NGetf("a minute from now", "%[1]v minutes from now", n, n)
	}
	n := int64(math.Floor(math.Floor(float64(seconds)/60) / 60))
	return h.loc.NGetf("an hour from now", "%[1]v hours from now", n, n)
}

// Whole units; a unit counts as complete if less than half a thousandth of it is missing.
func zsFloor(a, b float64) int64 {
	return int64(math.Floor(math.Round(a/b*math.Pow(10, 3)) / math.Pow(10, 3)))
}

func zsUnits(context string) map[string]gettextEntry {
	return map[string]gettextEntry{
		"year":   {context, "%[1]v year", "%[1]v years"},
		"month":  {context, "%[1]v month", "%[1]v months"},
		"week":   {context, "%[1]v week", "%[1]v weeks"},
		"day":    {context, "%[1]v day", "%[1]v days"},
		"hour":   {context, "%[1]v hour", "%[1]v hours"},
		"minute": {context, "%[1]v minute", "%[1]v minutes"},
	}
}

func zspec_Humanizer_TimeSince(h *Humanizer, v any, opts ...TimeOption) string {
	from, err := cast.ToTime(v)
	if err != nil {
		return zsInvalid(v)
	}
	o := newTimeSinceOptions(opts...)
	to := o.now
	if to.IsZero() {
		to = time.Now()
	}
	if o.reverse {
		from, to = to, from
	}
	rest := to.In(time.UTC).Unix() - from.In(time.UTC).Unix()
	y1, y2 := from.Year(), to.Year()
	leap := calendar.LeapDays(y1, y2)
	if leap != 0 {
		if calendar.IsLeap(y1) {
			leap--
		} else if calendar.IsLeap(y2) {
			leap++
		}
	}
	rest -= int64(leap) * 86400

	none := func() string {
		e := o.timeStrings["minute"]
		return h.loc.NPGetf(e.context, e.singular, e.plural, 0, 0)
	}
	if rest <= 0 {
		return none()
	}
	units := []struct {
		name    string
		seconds int64
	}{{"year", 31536000}, {"month", 2592000}, {"week", 604800}, {"day", 86400}, {"hour", 3600}, {"minute", 60}}
	first := 0
	for first < len(units) && zsFloor(float64(rest), float64(units[first].seconds)) == 0 {
		first++
	}
	if first == len(units) {
		return none()
	}
	var parts []string
	used := 0
	for _, u := range units[first:] {
		if used >= o.depth {
			break
		}
		n := zsFloor(float64(rest), float64(u.seconds))
		if n > 0 {
			e := o.timeStrings[u.name]
			parts = append(parts, h.loc.NPGetf(e.context, e.singular, e.plural, n, n))
			rest -= u.seconds * n
			used++
		} else if o.requireAdjacent {
			break
		}
	}
	return strings.Join(parts, h.loc.Get(", "))
}

func zspec__newTimeSinceOptions(opts ...TimeOption) *timeSinceOptions {
	o := &timeSinceOptions{requireAdjacent: true, depth: -1}
	for _, opt := range opts {
		opt(o)
	}
	if len(o.timeStrings) == 0 {
		o.timeStrings = zsUnits("")
	}
	if o.depth <= 0 {
		o.depth = 2
	}
	if o.now.IsZero() {
		o.now = time.Now()
	}
	return o
}

// The model of sort.Search: the first index for which the predicate holds.
func zmodel_sort_Search(n int, f func(int) bool) int {
	for i := 0; i < n; i++ {
		if f(i) {
			return i
		}
	}
	return n
}

func zspec_Humanizer_TimeSinceFrom(h *Humanizer, d any, now time.Time, opts ...TimeOption) string {
	return h.TimeSince(d, append(slices.Clip(opts), WithNow(now))...)
}

func zspec_Humanizer_TimeUntilFrom(h *Humanizer, d any, now time.Time, opts ...TimeOption) string {
	return h.TimeSince(d, append(slices.Clip(opts), WithNow(now), WithReverse(true))...)
}

func zspec_Humanizer_TimeUntil(h *Humanizer, d any, opts ...TimeOption) string {
	t, err := cast.ToTime(d)
	if err != nil {
		return zsInvalid(d)
	}
	return h.TimeSince(t, append(slices.Clip(opts), WithReverse(true))...)
}

func zleft_WithNow(o *timeSinceOptions, v time.Time)  { WithNow(v)(o) }
func zright_WithNow(o *timeSinceOptions, v time.Time) { o.now = v }

func zleft_WithDepth(o *timeSinceOptions, v int)  { WithDepth(v)(o) }
func zright_WithDepth(o *timeSinceOptions, v int) { o.depth = v }

func zleft_WithReverse(o *timeSinceOptions, v bool)  { WithReverse(v)(o) }
func zright_WithReverse(o *timeSinceOptions, v bool) { o.reverse = v }

func zleft_WithoutAdjacentCheck(o *timeSinceOptions)  { WithoutAdjacentCheck()(o) }
func zright_WithoutAdjacentCheck(o *timeSinceOptions) { o.requireAdjacent = false }

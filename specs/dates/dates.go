//verif:package humanize

package humanize

import (
	"fmt"
	"strconv"
	"strings"
	"time"
	"unicode"
)

func zsWeekday(t time.Time) (string, string) {
	switch t.Weekday() {
	case time.Sunday:
		return "Sunday", "Sun"
	case time.Monday:
		return "Monday", "Mon"
	case time.Tuesday:
		return "Tuesday", "Tue"
	case time.Wednesday:
		return "Wednesday", "Wed"
	case time.Thursday:
		return "Thursday", "Thu"
	case time.Friday:
		return "Friday", "Fri"
	case time.Saturday:
		return "Saturday", "Sat"
	}
	panic("no weekday")
}

// The name of a month, its abbreviation with three letters and the one of the Associated Press.
func zsMonth(t time.Time) (string, string, string) {
	switch t.Month() {
	case time.January:
		return "January", "jan", "Jan."
	case time.February:
		return "February", "feb", "Feb."
	case time.March:
		return "March", "mar", "March"
	case time.April:
		return "April", "apr", "April"
	case time.May:
		return "May", "may", "May"
	case time.June:
		return "June", "jun", "June"
	case time.July:
		return "July", "jul", "July"
	case time.August:
		return "August", "aug", "Aug."
	case time.September:
		return "September", "sep", "Sept."
	case time.October:
		return "October", "oct", "Oct."
	case time.November:
		return "November", "nov", "Nov."
	case time.December:
		return "December", "dec", "Dec."
	}
	panic("no month")
}

func zsClock(t time.Time) string {
	if t.Minute() == 0 {
		return t.Format("3")
	}
	return t.Format("3") + ":" + fmt.Sprintf("%02d", t.Minute())
}

func zsHalf(h *Humanizer, t time.Time) string {
	if t.Hour() < 12 {
		return h.loc.Get("a.m.")
	}
	return h.loc.Get("p.m.")
}

func zsOffset(t time.Time) int {
	_, o := t.Zone()
	return o
}

func zsLeap(year int) bool {
	return year%4 == 0 && (year%100 != 0 || year%400 == 0)
}

func zsDays(year int, month time.Month) int {
	switch month {
	case time.April, time.June, time.September, time.November:
		return 30
	case time.February:
		if zsLeap(year) {
			return 29
		}
		return 28
	}
	return 31
}

// A keyword selects the format of the language; every letter of a format is replaced by its part of the time, a
// backslash keeps the next character and everything else is taken over.
func zspec_Humanizer_FormatTime(h *Humanizer, t time.Time, format string) string {
	switch format {
	case "DATE_FORMAT":
		format = h.format.DateFormat
	case "TIME_FORMAT":
		format = h.format.TimeFormat
	case "DATETIME_FORMAT":
		format = h.format.DateTimeFormat
	case "YEAR_MONTH_FORMAT":
		format = h.format.YearMonthFormat
	case "MONTH_DAY_FORMAT":
		format = h.format.MonthDayFormat
	case "SHORT_DATE_FORMAT":
		format = h.format.ShortDateFormat
	case "SHORT_DATETIME_FORMAT":
		format = h.format.ShortDatetimeFormat
	}

	letters := []rune(format)
	var sb strings.Builder
	for i := 0; i < len(letters); i++ {
		c := letters[i]
		if c == '\\' && i+1 < len(letters) {
			i++
			sb.WriteRune(letters[i])
			continue
		}
		sb.WriteString(zsPart(h, t, c))
	}
	return sb.String()
}

func zsPart(h *Humanizer, t time.Time, c rune) string {
	switch c {
	// Day
	case 'd':
		return fmt.Sprintf("%02d", t.Day())
	case 'j':
		return strconv.Itoa(t.Day())
	case 'D':
		_, name := zsWeekday(t)
		return h.loc.Get(name)
	case 'l':
		name, _ := zsWeekday(t)
		return h.loc.Get(name)
	case 'w':
		return strconv.Itoa(int(t.Weekday()))
	case 'z':
		return strconv.Itoa(t.YearDay())
	case 'S':
		day := t.Day()
		switch {
		case day == 11 || day == 12 || day == 13:
			return "th"
		case day%10 == 1:
			return "st"
		case day%10 == 2:
			return "nd"
		case day%10 == 3:
			return "rd"
		}
		return "th"
	// Week
	case 'W':
		_, week := t.ISOWeek()
		return strconv.Itoa(week)
	case 'o':
		year, _ := t.ISOWeek()
		return strconv.Itoa(year)
	// Month
	case 'm':
		return fmt.Sprintf("%02d", int(t.Month()))
	case 'n':
		return strconv.Itoa(int(t.Month()))
	case 'b':
		_, name, _ := zsMonth(t)
		return h.loc.Get(name)
	case 'M':
		_, name, _ := zsMonth(t)
		r := []rune(h.loc.Get(name))
		return string(append([]rune{unicode.ToUpper(r[0])}, r[1:]...))
	case 'F':
		name, _, _ := zsMonth(t)
		return h.loc.Get(name)
	case 'E':
		name, _, _ := zsMonth(t)
		return h.loc.PGet("alt. month", name)
	case 'N':
		_, _, name := zsMonth(t)
		return h.loc.PGet("abbrev. month", name)
	case 't':
		return strconv.Itoa(zsDays(t.Year(), t.Month()))
	// Year
	case 'y':
		return fmt.Sprintf("%02d", t.Year()%100)
	case 'Y':
		return fmt.Sprintf("%04d", t.Year())
	case 'L':
		return strconv.FormatBool(zsLeap(t.Year()))
	// Time
	case 'g':
		return t.Format("3")
	case 'h':
		return t.Format("03")
	case 'G':
		return strconv.Itoa(t.Hour())
	case 'H':
		return fmt.Sprintf("%02d", t.Hour())
	case 'i':
		return fmt.Sprintf("%02d", t.Minute())
	case 's':
		return fmt.Sprintf("%02d", t.Second())
	case 'u':
		return fmt.Sprintf("%06d", t.Nanosecond()/1000)
	case 'a':
		return zsHalf(h, t)
	case 'A':
		if t.Hour() < 12 {
			return h.loc.Get("AM")
		}
		return h.loc.Get("PM")
	case 'f':
		return zsClock(t)
	case 'P':
		if t.Hour() == 0 && t.Minute() == 0 {
			return h.loc.Get("midnight")
		}
		if t.Hour() == 12 && t.Minute() == 0 {
			return h.loc.Get("noon")
		}
		return zsClock(t) + " " + zsHalf(h, t)
	// Time zone
	case 'e':
		name, _ := t.Zone()
		return name
	case 'T':
		return time.Local.String()
	case 'O':
		return t.Format("-0700")
	case 'Z':
		return strconv.Itoa(zsOffset(t))
	case 'I':
		january := zsOffset(time.Date(t.Year(), 1, 1, 0, 0, 0, 0, t.Location()))
		july := zsOffset(time.Date(t.Year(), 7, 1, 0, 0, 0, 0, t.Location()))
		if january != july && zsOffset(t) != min(january, july) {
			return "1"
		}
		return "0"
	// Date and time
	case 'c':
		return t.Format("2006-01-02T15:04:05.") + strconv.Itoa(t.Nanosecond())
	case 'r':
		return t.Format("Mon, 02 Jan 2006 15:04:05 -0700")
	case 'U':
		return strconv.FormatInt(t.Unix(), 10)
	}
	return string(c)
}

func zspec_Humanizer_Now(h *Humanizer) string  { return h.FormatTime(time.Now(), "DATETIME_FORMAT") }
func zspec_Humanizer_Date(h *Humanizer) string { return h.FormatTime(time.Now(), "DATE_FORMAT") }
func zspec_Humanizer_Time(h *Humanizer) string { return h.FormatTime(time.Now(), "TIME_FORMAT") }

// The decimal places of a second have leading zeros.
func zleft_IsoFormat(h *Humanizer, t time.Time) string  { return h.FormatTime(t, "c") }
func zright_IsoFormat(h *Humanizer, t time.Time) string { return t.Format("2006-01-02T15:04:05.000000") }

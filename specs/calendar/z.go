//verif:package internal/calendar

package calendar

import (
	"math"
	"time"
)

func zspec__IsLeap(y int) bool {
	if y%100 == 0 {
		return y%400 == 0
	}
	return y%4 == 0
}

// The number of leap years from the first year up to the second one.
func zspec__LeapDays(from, to int) int {
	a, b := float64(from-1), float64(to-1)
	n := math.Floor(b/4) - math.Floor(a/4)
	n -= math.Floor(b/100) - math.Floor(a/100)
	n += math.Floor(b/400) - math.Floor(a/400)
	return int(n)
}

// The number of days is specified for the months of the calendar.
func zpre__DaysInMonth(year int, month time.Month) bool {
	return month >= time.January && month <= time.December
}

// The day before the first one of the next month.
func zspec__DaysInMonth(year int, month time.Month) int {
	return time.Date(year, month, 1, 0, 0, 0, 0, time.UTC).AddDate(0, 1, -1).Day()
}

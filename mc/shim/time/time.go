// Package time stands in for the standard package in instrumented code.
package time

import (
	"time"

	"vmc/rt"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
	Timer      = rt.Timer
	Ticker     = rt.Ticker
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour

	January   = time.January
	February  = time.February
	March     = time.March
	April     = time.April
	May       = time.May
	June      = time.June
	July      = time.July
	August    = time.August
	September = time.September
	October   = time.October
	November  = time.November
	December  = time.December

	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
)

var (
	UTC   = time.UTC
	Local = time.Local
)

func Now() Time                                { return rt.TimeNow() }
func Since(t Time) Duration                    { return rt.TimeNow().Sub(t) }
func Until(t Time) Duration                    { return t.Sub(rt.TimeNow()) }
func After(d Duration) *rt.Chan[Time]          { return rt.After(d) }
func Tick(d Duration) *rt.Chan[Time]           { return rt.NewTicker(d).C }
func NewTimer(d Duration) *Timer               { return rt.NewTimer(d) }
func NewTicker(d Duration) *Ticker             { return rt.NewTicker(d) }
func AfterFunc(d Duration, f func()) *Timer    { return rt.AfterFunc(d, f) }
func Sleep(d Duration)                         { rt.Sleep(d) }
func Unix(sec, nsec int64) Time                { return time.Unix(sec, nsec) }
func UnixMilli(ms int64) Time                  { return time.UnixMilli(ms) }
func UnixMicro(us int64) Time                  { return time.UnixMicro(us) }
func Parse(layout, value string) (Time, error) { return time.Parse(layout, value) }
func ParseInLocation(layout, value string, l *Location) (Time, error) {
	return time.ParseInLocation(layout, value, l)
}
func ParseDuration(s string) (Duration, error)    { return time.ParseDuration(s) }
func FixedZone(name string, offset int) *Location { return time.FixedZone(name, offset) }
func LoadLocation(name string) (*Location, error) { return time.LoadLocation(name) }
func Date(y int, mo Month, d, h, mi, s, ns int, l *Location) Time {
	return time.Date(y, mo, d, h, mi, s, ns, l)
}

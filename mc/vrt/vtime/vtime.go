// Package time stands in for package time under the controlled scheduler.
package time

import (
	real "time"

	"verifmc/vrt"
)

type (
	Duration   = real.Duration
	Time       = real.Time
	Month      = real.Month
	Weekday    = real.Weekday
	Location   = real.Location
	ParseError = real.ParseError
)

const (
	Nanosecond  = real.Nanosecond
	Microsecond = real.Microsecond
	Millisecond = real.Millisecond
	Second      = real.Second
	Minute      = real.Minute
	Hour        = real.Hour

	January   = real.January
	February  = real.February
	March     = real.March
	April     = real.April
	May       = real.May
	June      = real.June
	July      = real.July
	August    = real.August
	September = real.September
	October   = real.October
	November  = real.November
	December  = real.December

	Layout      = real.Layout
	ANSIC       = real.ANSIC
	UnixDate    = real.UnixDate
	RFC822      = real.RFC822
	RFC1123     = real.RFC1123
	RFC3339     = real.RFC3339
	RFC3339Nano = real.RFC3339Nano
	Kitchen     = real.Kitchen
	Stamp       = real.Stamp
	StampMilli  = real.StampMilli
	DateTime    = real.DateTime
	DateOnly    = real.DateOnly
	TimeOnly    = real.TimeOnly
)

var (
	UTC   = real.UTC
	Local = real.Local
)

func Unix(s, n int64) Time                     { return real.Unix(s, n) }
func UnixMilli(n int64) Time                   { return real.UnixMilli(n) }
func UnixMicro(n int64) Time                   { return real.UnixMicro(n) }
func Parse(l, v string) (Time, error)          { return real.Parse(l, v) }
func ParseDuration(s string) (Duration, error) { return real.ParseDuration(s) }
func Date(y int, m Month, d, h, min, s, n int, l *Location) Time {
	return real.Date(y, m, d, h, min, s, n, l)
}

func Now() Time             { return vrt.Now() }
func Since(t Time) Duration { return vrt.Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(vrt.Now()) }
func Sleep(d Duration)      { vrt.Sleep(d) }

type Timer struct {
	C <-chan Time
	t *vrt.Timer
}

func (t *Timer) Stop() bool            { return t.t.Stop() }
func (t *Timer) Reset(d Duration) bool { return t.t.Start(d) }

func AfterFunc(d Duration, f func()) *Timer { return &Timer{t: vrt.NewTimer(d, 0, f, nil)} }

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	return &Timer{C: c, t: vrt.NewTimer(d, 0, nil, c)}
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C <-chan Time
	t *vrt.Timer
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	return &Ticker{C: c, t: vrt.NewTimer(d, d, nil, c)}
}

func (t *Ticker) Stop()            { t.t.Stop() }
func (t *Ticker) Reset(d Duration) { t.t.Start(d) }

func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

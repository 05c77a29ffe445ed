// Package time stands for the real one in the library under test: its clock is
// the simulated one.
package time

import (
	"time"

	"github.com/trim21/go-phpserialize/internal/verifsim/simrt"
)

type (
	Time       = time.Time
	Duration   = time.Duration
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
	Timer      = simrt.Timer
	Ticker     = simrt.Ticker
)

const (
	January     = time.January
	February    = time.February
	March       = time.March
	April       = time.April
	May         = time.May
	June        = time.June
	July        = time.July
	August      = time.August
	September   = time.September
	October     = time.October
	November    = time.November
	December    = time.December
	Sunday      = time.Sunday
	Monday      = time.Monday
	Tuesday     = time.Tuesday
	Wednesday   = time.Wednesday
	Thursday    = time.Thursday
	Friday      = time.Friday
	Saturday    = time.Saturday
	Layout      = time.Layout
	ANSIC       = time.ANSIC
	UnixDate    = time.UnixDate
	RubyDate    = time.RubyDate
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	Kitchen     = time.Kitchen
	Stamp       = time.Stamp
	StampMilli  = time.StampMilli
	StampMicro  = time.StampMicro
	StampNano   = time.StampNano
	DateTime    = time.DateTime
	DateOnly    = time.DateOnly
	TimeOnly    = time.TimeOnly
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
)

var (
	UTC   = time.UTC
	Local = time.UTC

	Now       = simrt.Time
	Since     = simrt.Since
	Until     = simrt.Until
	Sleep     = simrt.Sleep
	After     = simrt.After
	AfterFunc = simrt.AfterFunc
	NewTimer  = simrt.NewTimer
	NewTicker = simrt.NewTicker
	Tick      = simrt.Tick

	Date                   = time.Date
	Unix                   = time.Unix
	UnixMilli              = time.UnixMilli
	UnixMicro              = time.UnixMicro
	Parse                  = time.Parse
	ParseInLocation        = time.ParseInLocation
	ParseDuration          = time.ParseDuration
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
)

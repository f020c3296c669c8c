package vtime

import "time"

type (
	Duration   = time.Duration
	Location   = time.Location
	Month      = time.Month
	ParseError = time.ParseError
	Time       = time.Time
	Weekday    = time.Weekday
)

var (
	Date                   = time.Date
	FixedZone              = time.FixedZone
	LoadLocation           = time.LoadLocation
	LoadLocationFromTZData = time.LoadLocationFromTZData
	Now                    = time.Now
	Parse                  = time.Parse
	ParseDuration          = time.ParseDuration
	ParseInLocation        = time.ParseInLocation
	Since                  = time.Since
	Unix                   = time.Unix
	UnixMicro              = time.UnixMicro
	UnixMilli              = time.UnixMilli
	Until                  = time.Until
	UTC                    = time.UTC
	Local                  = time.Local
)

const (
	ANSIC       = time.ANSIC
	April       = time.April
	August      = time.August
	DateOnly    = time.DateOnly
	DateTime    = time.DateTime
	December    = time.December
	February    = time.February
	Friday      = time.Friday
	Hour        = time.Hour
	January     = time.January
	July        = time.July
	June        = time.June
	Kitchen     = time.Kitchen
	Layout      = time.Layout
	March       = time.March
	May         = time.May
	Microsecond = time.Microsecond
	Nanosecond  = time.Nanosecond
	Millisecond = time.Millisecond
	Minute      = time.Minute
	Monday      = time.Monday
	November    = time.November
	October     = time.October
	RFC1123     = time.RFC1123
	RFC1123Z    = time.RFC1123Z
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
	RFC822      = time.RFC822
	RFC822Z     = time.RFC822Z
	RFC850      = time.RFC850
	RubyDate    = time.RubyDate
	Saturday    = time.Saturday
	Second      = time.Second
	September   = time.September
	Stamp       = time.Stamp
	StampMicro  = time.StampMicro
	StampMilli  = time.StampMilli
	StampNano   = time.StampNano
	Sunday      = time.Sunday
	Thursday    = time.Thursday
	TimeOnly    = time.TimeOnly
	Tuesday     = time.Tuesday
	UnixDate    = time.UnixDate
	Wednesday   = time.Wednesday
)

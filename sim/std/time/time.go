// Package time replaces package time: the simulated clock.
package time

import (
	real "time"

	rt "ZZSIM/rt"
)

type (
	Timer  = rt.Timer
	Ticker = rt.Ticker
)

func Now() real.Time                           { return rt.NowTime() }
func Since(t real.Time) real.Duration          { return Now().Sub(t) }
func Until(t real.Time) real.Duration          { return t.Sub(Now()) }
func Sleep(d real.Duration)                    { rt.Sleep(d) }
func After(d real.Duration) <-chan real.Time   { return rt.After(d) }
func NewTimer(d real.Duration) *Timer          { return rt.NewTimer(d) }
func NewTicker(d real.Duration) *Ticker        { return rt.NewTicker(d) }
func AfterFunc(d real.Duration, f func()) *Timer { return rt.AfterFunc(d, f) }
func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return rt.NewTicker(d).C
}

// Local is the simulated machine's time zone.
var Local = real.UTC

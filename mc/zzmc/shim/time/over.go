// Package time replaces the standard package in rewritten code: the same types, with a virtual clock.
package time

import (
	"time"

	"github.com/NubeDev/bacnet/zzmc/mcrt"
)

func Now() time.Time                         { return mcrt.NowTime() }
func Since(t time.Time) time.Duration        { return mcrt.NowTime().Sub(t) }
func Until(t time.Time) time.Duration        { return t.Sub(mcrt.NowTime()) }
func Sleep(d time.Duration)                  { mcrt.Sleep(d) }
func After(d time.Duration) <-chan time.Time { return mcrt.NewTimer(d).C }
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return mcrt.NewTicker(d).C
}

type Timer = mcrt.Timer
type Ticker = mcrt.Ticker

func NewTimer(d time.Duration) *Timer            { return mcrt.NewTimer(d) }
func AfterFunc(d time.Duration, f func()) *Timer { return mcrt.AfterFunc(d, f) }
func NewTicker(d time.Duration) *Ticker          { return mcrt.NewTicker(d) }

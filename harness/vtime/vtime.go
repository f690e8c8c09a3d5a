// Package vtime replaces the waiting functions of package time: a check that sets Hook sees every wait and nothing really waits.
package vtime

import "time"

var Hook func(d time.Duration)

func Sleep(d time.Duration) {
	if Hook != nil {
		Hook(d)
		return
	}
	time.Sleep(d)
}

func After(d time.Duration) <-chan time.Time {
	if Hook != nil {
		Hook(d)
		c := make(chan time.Time, 1)
		c <- time.Now()
		return c
	}
	return time.After(d)
}

func NewTimer(d time.Duration) *time.Timer {
	if Hook != nil {
		Hook(d)
		return time.NewTimer(0)
	}
	return time.NewTimer(d)
}

func Tick(d time.Duration) <-chan time.Time { return After(d) }

//go:build race

package vsched

import "runtime"

// Hand-offs of the scheduler are hidden from the race detector.

func park(c chan struct{}) {
	runtime.RaceDisable()
	<-c
	runtime.RaceEnable()
}

func unpark(c chan struct{}) {
	runtime.RaceDisable()
	c <- struct{}{}
	runtime.RaceEnable()
}

func disable() {}

// RaceErrors is the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

const RaceBuild = true

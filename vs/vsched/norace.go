//go:build !race

package vsched

func park(c chan struct{})   { <-c }
func unpark(c chan struct{}) { c <- struct{}{} }
func disable()               {}

func RaceErrors() int { return 0 }

const RaceBuild = false

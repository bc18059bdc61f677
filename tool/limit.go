package main

// Time limits. A rule that takes too long is given up: after a violation has been
// found elsewhere it is dropped after a grace period, otherwise it counts as not
// established.

import (
	"sync/atomic"
	"time"
)

var (
	stopState int32 // 1: drop, 2: deadline
	graceFor  = 40 * time.Second
	deadline  = 600 * time.Second
)

type dropped struct{}

func poll() {
	switch atomic.LoadInt32(&stopState) {
	case 1:
		panic(dropped{})
	case 2:
		panic(undecided("the analysis did not finish in the time allowed"))
	}
}

// limiter watches one check.
type limiter struct {
	viol chan bool
	done chan bool
}

func newLimiter() *limiter {
	atomic.StoreInt32(&stopState, 0)
	l := &limiter{make(chan bool, 1), make(chan bool)}
	go func() {
		end := time.After(deadline)
		select {
		case <-l.done:
			return
		case <-end:
			atomic.StoreInt32(&stopState, 2)
			return
		case <-l.viol:
		}
		select {
		case <-l.done:
		case <-time.After(graceFor):
			atomic.StoreInt32(&stopState, 1)
		case <-end:
			atomic.StoreInt32(&stopState, 1)
		}
	}()
	return l
}

func (l *limiter) found() {
	select {
	case l.viol <- true:
	default:
	}
}
func (l *limiter) stop() { close(l.done) }

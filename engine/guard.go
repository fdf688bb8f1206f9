package main

import (
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sync/atomic"
	"time"
)

// The guard ends paths that take too much memory or outlive the time budget;
// they count as undecided ("budget").
var guard struct {
	abort    atomic.Int32 // 1 memory, 2 time
	deadline atomic.Int64 // of the harness that runs, unix nanoseconds
}

const (
	heapLimit = 22 << 30
	liveLimit = 11 << 30
	liveLow   = 6 << 30
)

func guardStart() {
	debug.SetMemoryLimit(heapLimit)
	go func() {
		s := []metrics.Sample{{Name: "/gc/heap/live:bytes"}}
		for {
			time.Sleep(100 * time.Millisecond)
			metrics.Read(s)
			live := s[0].Value.Uint64()
			d := guard.deadline.Load()
			switch {
			case live > liveLimit:
				guard.abort.Store(1)
				time.Sleep(300 * time.Millisecond)
				runtime.GC()
			case guard.abort.Load() == 1 && live > liveLow:
				runtime.GC()
			case d != 0 && time.Now().UnixNano() > d:
				guard.abort.Store(2)
			default:
				guard.abort.Store(0)
			}
		}
	}()
}

func guardCheck() {
	switch guard.abort.Load() {
	case 1:
		panic(pathEnd{"budget", "out of memory"})
	case 2:
		panic(pathEnd{"budget", "out of time"})
	}
}

// guardWait lets other workers give their memory back.
func guardWait() {
	for i := 0; i < 200 && guard.abort.Load() == 1; i++ {
		time.Sleep(50 * time.Millisecond)
	}
}

// Package clock is the time the instrumented code sees: the real time plus a
// settable offset, or a fixed time.
package clock

import (
	"os"
	"strconv"
	"sync/atomic"
	"time"
)

var offset, fixed int64

func init() {
	if v, err := strconv.ParseInt(os.Getenv("VK_CLOCK_OFFSET"), 10, 64); err == nil {
		offset = v
	}
	if v, err := strconv.ParseInt(os.Getenv("VK_CLOCK_FIXED"), 10, 64); err == nil {
		fixed = v
	}
}

// Now is the time.
func Now() time.Time {
	if f := atomic.LoadInt64(&fixed); f != 0 {
		return time.Unix(f, 0)
	}
	return time.Now().Add(time.Duration(atomic.LoadInt64(&offset)) * time.Second)
}

// Freeze makes the time stand at t seconds since the epoch (0: run again).
func Freeze(t int64) { atomic.StoreInt64(&fixed, t) }

// Advance moves the time by s seconds.
func Advance(s int64) {
	if atomic.LoadInt64(&fixed) != 0 {
		atomic.AddInt64(&fixed, s)
		return
	}
	atomic.AddInt64(&offset, s)
}

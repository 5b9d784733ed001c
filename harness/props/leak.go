package props

import (
	"runtime"
	"strings"
	"time"
)

// goroutines returns the stacks that contain sub.
func goroutines(sub string) []string {
	b := make([]byte, 1<<16)
	for {
		n := runtime.Stack(b, true)
		if n < len(b) {
			b = b[:n]
			break
		}
		b = make([]byte, 2*len(b))
	}
	var out []string
	for _, g := range strings.Split(string(b), "\n\n") {
		if strings.Contains(g, sub) {
			out = append(out, g)
		}
	}
	return out
}

// gone waits for the goroutines that run sub to end. What is left in the end are goroutines that
// have been blocked for a second; nothing is said about ones that still run.
func gone(sub string) []string {
	for i := 0; i < 200; i++ {
		if len(goroutines(sub)) == 0 {
			return nil
		}
		runtime.Gosched()
	}
	var left []string
	for i := 0; i < 40; i++ {
		time.Sleep(25 * time.Millisecond)
		left = goroutines(sub)
		if len(left) == 0 {
			return nil
		}
	}
	for i := 0; i < 120; i++ {
		var blocked []string
		left = goroutines(sub)
		for _, g := range left {
			if j := strings.IndexByte(g, ']'); j > 0 {
				for _, s := range []string{"[chan ", "[select", "[sync.", "[semacquire"} {
					if strings.Contains(g[:j], s) {
						blocked = append(blocked, g)
						break
					}
				}
			}
		}
		if len(blocked) == len(left) {
			return left
		}
		time.Sleep(50 * time.Millisecond)
	}
	return left
}

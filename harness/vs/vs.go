// Package vs varies the schedule in replays of schedule-dependent candidates:
// the replay program is then built with a call of P before every statement of
// the repository's code.
package vs

import (
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
)

var (
	mu   sync.Mutex
	rnd  *rand.Rand
	rate = 4
)

func init() {
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SCHED"), 10, 64); err == nil {
		rnd = rand.New(rand.NewSource(s))
		rate = 2 + int(s%5)*3
	}
}

// P lets other goroutines run, sometimes.
func P() {
	if rnd == nil {
		return
	}
	n := 0
	mu.Lock()
	if rnd.Intn(rate) == 0 {
		n = 1 + rnd.Intn(4)
	}
	mu.Unlock()
	for ; n > 0; n-- {
		runtime.Gosched()
	}
}

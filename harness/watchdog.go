package harness

import (
	"fmt"
	"os"
	"runtime"
	"runtime/metrics"
	"strings"
	"time"
)

// A case takes milliseconds. One that takes minutes, or gigabytes, is a call
// of the library that does not end; the case cannot be abandoned, so the
// process reports it and ends.
const (
	hangAfter = 100 * time.Second
	heapLimit = 3 << 30
)

func watchdog() {
	evals := func() int64 {
		ev.mu.Lock()
		defer ev.mu.Unlock()
		return int64(ev.Evals)
	}
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	last, since := evals(), time.Now()
	for {
		time.Sleep(100 * time.Millisecond)
		if n := evals(); n != last {
			last, since = n, time.Now()
		}
		metrics.Read(s)
		heap := s[0].Value.Uint64()
		if heap < heapLimit && time.Since(since) < hangAfter {
			continue
		}
		buf := make([]byte, 1<<20)
		stack := string(buf[:runtime.Stack(buf, true)])
		why := fmt.Sprintf("no case finished in %v, %d MB in use after %d cases", time.Since(since).Round(time.Second), heap>>20, last)
		if strings.Contains(stack, "github.com/jhump/gopoet.") {
			fmt.Printf("[verif] failed: a call does not return: %s\n%s\n", why, stack)
		} else {
			fmt.Printf("%s %s\n%s\n", harnessBugMark, why, stack)
		}
		os.Exit(3)
	}
}

package harness

import (
	"os"
	"runtime/debug"
	"testing"
)

func TestMain(m *testing.M) {
	// no value here needs deep recursion: end an endless one soon
	debug.SetMaxStack(256 << 20)
	if os.Getenv("VERIF_SERVE") != "" {
		serve()
		return
	}
	go watchdog()
	code := m.Run()
	evFlush()
	os.Exit(code)
}

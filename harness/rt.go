package harness

import (
	"encoding/json"
	"fmt"
	"go/token"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"

	"pgregory.net/rapid"
)

// R is the source of every random choice.
type R = *rapid.T

// failer is all that an oracle needs.
type failer interface {
	Fatalf(format string, args ...any)
}

func rInt(t R, lo, hi int) int {
	if lo >= hi {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(t, "n")
}

// rSize draws how many there are of something: one of the given numbers, the
// first of which is the least, or now and then anything up to big.
func rSize(t R, big int, small ...int) int {
	i := rapid.IntRange(0, 63).Draw(t, "size")
	if i == 63 {
		return rInt(t, small[0], big)
	}
	return small[i%len(small)]
}

// rP is true with a chance of about k in 16; it shrinks to false.
func rP(t R, k int) bool {
	return rapid.IntRange(0, 15).Draw(t, "p") >= 16-k
}

func rPick[T any](t R, xs []T) T {
	if len(xs) == 1 {
		return xs[0]
	}
	return xs[rapid.IntRange(0, len(xs)-1).Draw(t, "pick")]
}

// rWeighted picks an index by weight; it shrinks to the first.
func rWeighted(t R, ws ...int) int {
	total := 0
	for _, w := range ws {
		total += w
	}
	n := rapid.IntRange(0, total-1).Draw(t, "w")
	for i, w := range ws {
		if n < w {
			return i
		}
		n -= w
	}
	return len(ws) - 1
}

// ------------------------------------------------------------------ evidence

type evidence struct {
	mu       sync.Mutex
	Evals    int64            `json:"evals"`
	Nontriv  map[uint64]bool  `json:"-"`
	Hashes   []uint64         `json:"hashes"`
	Classes  map[string]int64 `json:"classes"`
	Samples  []string         `json:"samples"`
	Extra    map[string]int64 `json:"extra"`
	sampleAt map[int64]bool
}

var ev = &evidence{Nontriv: map[uint64]bool{}, Classes: map[string]int64{}, Extra: map[string]int64{},
	sampleAt: map[int64]bool{3: true, 40: true, 400: true}}

// evCase records one generated case: its canonical description, whether it is
// non-trivial by the property's rule, and the classes it falls in.
func evCase(desc string, nontrivial bool, classes ...string) {
	ev.mu.Lock()
	defer ev.mu.Unlock()
	ev.Evals++
	if nontrivial {
		h := fnv.New64a()
		h.Write([]byte(desc))
		ev.Nontriv[h.Sum64()] = true
		n := int64(len(ev.Nontriv))
		if ev.sampleAt[n] && len(ev.Samples) < 3 {
			ev.sampleAt[n] = false
			if len(desc) > 1500 {
				desc = desc[:1500] + " ...(cut)"
			}
			ev.Samples = append(ev.Samples, desc)
		}
	}
	seen := map[string]bool{}
	for _, c := range classes {
		if c != "" && !seen[c] {
			seen[c] = true
			ev.Classes[c]++
		}
	}
}

func evClass(c string) {
	ev.mu.Lock()
	ev.Classes[c]++
	ev.mu.Unlock()
}

func evFlush() {
	path := os.Getenv("VERIF_EVID")
	if path == "" {
		return
	}
	ev.mu.Lock()
	defer ev.mu.Unlock()
	ev.Hashes = ev.Hashes[:0]
	for h := range ev.Nontriv {
		ev.Hashes = append(ev.Hashes, h)
	}
	sort.Slice(ev.Hashes, func(i, j int) bool { return ev.Hashes[i] < ev.Hashes[j] })
	b, err := json.Marshal(ev)
	if err == nil {
		err = os.WriteFile(path, b, 0o644)
	}
	if err != nil {
		fmt.Println(harnessBugMark, "cannot write evidence:", err)
		os.Exit(2)
	}
}

// cond returns s when ok, for building class lists.
func cond(ok bool, s string) string {
	if ok {
		return s
	}
	return ""
}

// caught runs f and reports whether it panicked, and with what.
func caught(f func()) (panicked bool, val any, stack string) {
	return recovered(f, true)
}

// panics is caught without the (slow) stack, for what is expected to panic.
func panics(f func()) (panicked bool, val any) {
	panicked, val, _ = recovered(f, false)
	return
}

func recovered(f func(), withStack bool) (panicked bool, val any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.HasPrefix(s, harnessBugMark) {
				panic(r)
			}
			// rapid uses panics of its own to leave a case
			if strings.Contains(fmt.Sprintf("%T", r), "rapid.") {
				panic(r)
			}
			panicked, val = true, r
			if withStack {
				stack = string(debug.Stack())
			}
		}
	}()
	f()
	return
}

// mustNot fails the case if f panics.
func mustNot(t failer, what string, f func()) {
	if p, v, st := caught(f); p {
		t.Fatalf("%s panicked: %v\n%s", what, v, trimStack(st))
	}
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "gopoet") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func isGoIdent(s string) bool { return token.IsIdentifier(s) }

// shard is the index of this process among those of one run.
func shard() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	return n
}

// Package hx is the small run-time of the checks: it runs rapid properties with a
// seed and case count taken from the environment, and records what was covered.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Stats is what one shard reports.
type Stats struct {
	Evaluations int               `json:"evaluations"`
	Skipped     int               `json:"skipped_after_deadline"`
	ByProp      map[string]int    `json:"by_prop"`
	Hashes      []uint64          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     map[string]string `json:"samples"`
	Known       map[string]int    `json:"known"`
}

var (
	mu       sync.Mutex
	stats    = Stats{ByProp: map[string]int{}, Labels: map[string]int{}, Samples: map[string]string{}, Known: map[string]int{}}
	hashes   = map[uint64]struct{}{}
	deadline time.Time
	started  = time.Now()
)

// maxHashes bounds the number of distinct cases remembered (the count is a lower bound beyond it).
const maxHashes = 400000

// EnvInt reads an integer from the environment.
func EnvInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Main is the TestMain of every check binary.
func Main(m *testing.M) {
	flag.Parse()
	if s := EnvInt("VX_BUDGET_S", 0); s > 0 {
		deadline = started.Add(time.Duration(s) * time.Second)
	}
	code := m.Run()
	if path := os.Getenv("VX_STATS"); path != "" {
		mu.Lock()
		for h := range hashes {
			stats.Hashes = append(stats.Hashes, h)
		}
		sort.Slice(stats.Hashes, func(i, j int) bool { return stats.Hashes[i] < stats.Hashes[j] })
		b, err := json.Marshal(stats)
		mu.Unlock()
		if err == nil {
			err = os.WriteFile(path, b, 0o644)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "stats:", err)
			os.Exit(70)
		}
	}
	os.Exit(code)
}

// C is the recorder of one case.
type C struct{ prop string }

// Case records a case: its canonical text, and whether it is non-trivial.
func (c *C) Case(desc string, nontrivial bool) {
	h := fnv.New64a()
	h.Write([]byte(c.prop))
	h.Write([]byte{0})
	h.Write([]byte(desc))
	mu.Lock()
	defer mu.Unlock()
	stats.Evaluations++
	stats.ByProp[c.prop]++
	if !nontrivial {
		stats.Labels[c.prop+": trivial"]++
		return
	}
	if len(hashes) < maxHashes {
		hashes[h.Sum64()] = struct{}{}
	}
	key := c.prop
	if _, ok := stats.Samples[key]; !ok || (len(desc) > 200 && len(desc) < len(stats.Samples[key])) {
		if len(desc) > 3000 {
			desc = desc[:3000] + "..."
		}
		stats.Samples[key] = desc
	}
}

// Label counts a class of cases.
func (c *C) Label(format string, args ...any) {
	mu.Lock()
	stats.Labels[c.prop+": "+fmt.Sprintf(format, args...)]++
	mu.Unlock()
}

// Known counts a hit of a listed known finding.
func Known(name string) {
	mu.Lock()
	stats.Known[name]++
	mu.Unlock()
}

// Run runs a property for `checks` cases (scaled by VX_SCALE percent), with a seed that
// depends on VX_SEED and the property's name only.
func Run(t *testing.T, name string, checks int, prop func(t *rapid.T, c *C)) {
	t.Run(name, func(t *testing.T) {
		n := checks * EnvInt("VX_SCALE", 100) / 100
		if n < 1 {
			n = 1
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%s", EnvInt("VX_SEED", 1), t.Name())
		seed := h.Sum64() >> 1
		if seed == 0 {
			seed = 1
		}
		must(flag.Set("rapid.checks", strconv.Itoa(n)))
		must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
		c := &C{prop: name}
		rapid.Check(t, func(rt *rapid.T) {
			if !deadline.IsZero() && time.Now().After(deadline) {
				mu.Lock()
				stats.Skipped++
				mu.Unlock()
				return
			}
			begin()
			defer end()
			prop(rt, c)
		})
	})
}

// ---------------------------------------------------------------- run-away cases

// A single case takes milliseconds. One that burns CPU or memory beyond all proportion does not end,
// so the process says so and exits with a code of its own. CPU time, not wall-clock time, is measured:
// a busy machine does not matter.
const (
	exitCPU    = 41
	exitMemory = 42
)

var (
	inCase   atomic.Bool
	caseCPU  atomic.Int64
	watching sync.Once
)

func cpu() time.Duration {
	var r syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &r) != nil {
		return 0
	}
	return time.Duration(r.Utime.Nano() + r.Stime.Nano())
}

func begin() {
	watching.Do(func() { go watch() })
	caseCPU.Store(int64(cpu()))
	inCase.Store(true)
}

func end() { inCase.Store(false) }

func watch() {
	limit := time.Duration(EnvInt("VX_CASE_CPU_S", 100)) * time.Second
	mem := uint64(EnvInt("VX_MEM_MB", 3500)) << 20
	for {
		time.Sleep(250 * time.Millisecond)
		if inCase.Load() && cpu()-time.Duration(caseCPU.Load()) > limit {
			fmt.Printf("RUNAWAY: one case used more than %v of CPU time\n", limit)
			stacks()
			os.Exit(exitCPU)
		}
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if inCase.Load() && m.HeapAlloc > mem {
			fmt.Printf("RUNAWAY: one case uses more than %d MB of memory\n", mem>>20)
			stacks()
			os.Exit(exitMemory)
		}
	}
}

func stacks() {
	b := make([]byte, 1<<16)
	fmt.Printf("%s\n", b[:runtime.Stack(b, true)])
}

// Shard tells a fixed enumeration which part of it this process does.
func Shard(i int) bool {
	n := EnvInt("VX_SHARDS", 1)
	return i%n == EnvInt("VX_SHARD", 0)%n
}

// Expired tells whether the time budget is used up.
func Expired() bool { return !deadline.IsZero() && time.Now().After(deadline) }

// Thorough tells the tier.
func Thorough() bool { return os.Getenv("VX_TIER") == "thorough" }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// Package props has the properties C01 to C30 as rapid tests.
package props

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/pbnjay/grate"
	"pgregory.net/rapid"

	"verif/harness/gen"
)

var (
	scratch  string // directory for files, removed at the end unless a test failed
	started  = time.Now()
	deadline = 600 * time.Second // of wall time, after which no more cases are started
	thorough = os.Getenv("VERIF_TIER") == "thorough"
)

// a report of what was explored
type report struct {
	Evaluations int64            `json:"evaluations"`
	NonTrivial  int64            `json:"nontrivial"`
	Distinct    []uint64         `json:"distinct"`
	Labels      map[string]int64 `json:"labels"`
	Samples     []string         `json:"samples"`
	Skipped     int64            `json:"skipped"`
	Failed      bool             `json:"failed"`
}

var (
	repMu  sync.Mutex
	rep    = report{Labels: map[string]int64{}}
	hashes = map[uint64]bool{}
)

// Case is one generated case.
type Case struct {
	*rapid.T
	C      gen.Ch
	Dir    string
	labels []string
	key    []string
	non    bool
	sample string
}

// Label counts cases by what they contain.
func (c *Case) Label(format string, args ...interface{}) {
	c.labels = append(c.labels, fmt.Sprintf(format, args...))
}

// NonTrivial marks the case as such, with what makes it distinct.
func (c *Case) NonTrivial(key ...interface{}) {
	c.non = true
	c.key = append(c.key, fmt.Sprint(key...))
}

// Sample describes the case.
func (c *Case) Sample(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	if len(s) > 400 {
		s = s[:400] + "..."
	}
	c.sample = strings.ToValidUTF8(s, "?")
}

// File writes a file for this case.
func (c *Case) File(name string, data []byte) string {
	fn := filepath.Join(c.Dir, name)
	if err := os.WriteFile(fn, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ENV", err)
		os.Exit(79)
	}
	return fn
}

var (
	caseStartCPU  atomic.Int64
	caseStartWall atomic.Int64
	inCase        atomic.Bool
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

func envInt(name string, def int64) int64 {
	if n, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return n
	}
	return def
}

// watchdog ends the process when a case takes far too much time or memory.
func watchdog() {
	limit := time.Duration(envInt("HARNESS_CPU", 30)) * time.Second
	maxRSS := envInt("HARNESS_RSS_MB", 3000) << 20
	for {
		time.Sleep(200 * time.Millisecond)
		if rss() > maxRSS {
			debug.FreeOSMemory()
			if rss() > maxRSS {
				fmt.Fprintln(os.Stderr, "HARNESS-MEMORY: more than", maxRSS>>20, "MB used")
				saveReport()
				os.Exit(78)
			}
		}
		if !inCase.Load() {
			continue
		}
		start, wall := time.Duration(caseStartCPU.Load()), time.Duration(caseStartWall.Load())
		cpu := cpuTime() - start
		idle := time.Since(started) - wall
		if cpu > limit || (idle > 150*time.Second && cpu < 2*time.Second) {
			if inCase.Load() && start == time.Duration(caseStartCPU.Load()) {
				fmt.Fprintln(os.Stderr, "HARNESS-HANG: a case has used", cpu, "of CPU and", idle, "of wall time")
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				saveReport()
				os.Exit(77)
			}
		}
	}
}

func saveReport() {
	repMu.Lock()
	defer repMu.Unlock()
	rep.Distinct = nil
	for h := range hashes {
		rep.Distinct = append(rep.Distinct, h)
	}
	if fn := os.Getenv("HARNESS_STATS"); fn != "" {
		b, _ := json.Marshal(rep)
		os.WriteFile(fn, b, 0o644)
	}
}

// prop runs a property over generated cases.
func prop(t *testing.T, f func(c *Case)) {
	n := 0
	dir := filepath.Join(scratch, "case")
	defer func() {
		if t.Failed() {
			rep.Failed = true
		}
		saveReport()
	}()
	rapid.Check(t, func(rt *rapid.T) {
		if time.Since(started) > deadline {
			repMu.Lock()
			rep.Skipped++
			repMu.Unlock()
			return
		}
		os.RemoveAll(dir)
		os.MkdirAll(dir, 0o755)
		c := &Case{T: rt, C: gen.Rapid{T: rt}, Dir: dir}
		caseStartWall.Store(int64(time.Since(started)))
		caseStartCPU.Store(int64(cpuTime()))
		inCase.Store(true)
		defer inCase.Store(false)
		f(c)
		n++
		repMu.Lock()
		defer repMu.Unlock()
		rep.Evaluations++
		for _, l := range c.labels {
			rep.Labels[l]++
		}
		if c.non {
			rep.NonTrivial++
			h := fnv.New64a()
			for _, k := range c.key {
				io.WriteString(h, k)
				h.Write([]byte{0})
			}
			if len(hashes) < 200000 {
				hashes[h.Sum64()] = true
			}
			if c.sample != "" && len(rep.Samples) < 400 && (n&(n-1) == 0 || n%37 == 0) {
				rep.Samples = append(rep.Samples, c.sample)
			}
		}
	})
}

func TestMain(m *testing.M) {
	flag.Parse()
	log.SetOutput(io.Discard)
	if envInt("HARNESS_SHARD", 0)%8 == 5 {
		// detailed logging makes no difference
		// NB io.Discard itself would not even format the messages
		grate.Debug = true
		log.SetOutput(struct{ io.Writer }{io.Discard})
	}
	debug.SetGCPercent(200)
	var err error
	scratch = os.Getenv("HARNESS_DIR")
	if scratch == "" {
		scratch, err = os.MkdirTemp("", "grate-props-")
		if err != nil {
			fmt.Fprintln(os.Stderr, "HARNESS-ENV", err)
			os.Exit(79)
		}
	}
	deadline = time.Duration(envInt("HARNESS_DEADLINE", 600)) * time.Second
	go watchdog()
	code := m.Run()
	if os.Getenv("HARNESS_DIR") == "" && code == 0 {
		os.RemoveAll(scratch)
	}
	os.Exit(code)
}

// Package pbt is a thin layer over rapid: deterministic seeding from
// VERIF_SEED, sharding, evidence counters, and a watchdog which turns hangs
// into a distinguished process exit.
package pbt

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes understood by /verif/run.py.
const (
	exitHang = 77
)

func envInt(key string, def int) int {
	v := os.Getenv(key)
	if v == "" {
		return def
	}
	n, err := strconv.Atoi(v)
	if err != nil {
		return def
	}
	return n
}

// Seed is the value of VERIF_SEED.
func Seed() int { return envInt("VERIF_SEED", 1) }

// Shard returns the index of the current shard and the number of shards.
func Shard() (int, int) { return envInt("VERIF_SHARD", 0), max(1, envInt("VERIF_SHARDS", 1)) }

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Replaying reports whether a single fail file is being replayed.
func Replaying() bool { return os.Getenv("VERIF_REPLAY") != "" }

type testStats struct {
	Evaluations int64            `json:"evaluations"`
	NonTrivial  int64            `json:"nontrivial"`
	Classes     map[string]int64 `json:"classes"`
	Samples     []string         `json:"samples"`
	hashes      map[uint64]struct{}
}

var (
	mu    sync.Mutex
	stats = map[string]*testStats{}
	notes []string

	curTest  atomic.Value // string
	curCase  atomic.Int64 // case counter
	cpuStart atomic.Int64 // process CPU nanoseconds at case start
	wallBeg  atomic.Int64
	inCase   atomic.Bool
	curDesc  atomic.Value // func() string or string
)

// Case collects information about one generated case.
type Case struct {
	st *testStats
	nt bool
}

// Class counts the case as a member of the given class.
func (c *Case) Class(names ...string) {
	mu.Lock()
	defer mu.Unlock()
	for _, n := range names {
		c.st.Classes[n]++
	}
}

// ClassIf is like Class, but conditional.
func (c *Case) ClassIf(cond bool, name string) {
	if cond {
		c.Class(name)
	}
}

// NonTrivial marks the case as non-trivial; key identifies the case for the
// purpose of counting distinct cases.
func (c *Case) NonTrivial(key []byte) {
	h := Hash(key)
	mu.Lock()
	defer mu.Unlock()
	if !c.nt {
		c.st.NonTrivial++
		c.nt = true
	}
	if len(c.st.hashes) < 4_000_000 {
		c.st.hashes[h] = struct{}{}
	}
}

// Sample records a human readable description of the case.
func (c *Case) Sample(f func() string) {
	mu.Lock()
	n := len(c.st.Samples)
	ev := c.st.Evaluations
	mu.Unlock()
	if n >= 3 || (n > 0 && ev < int64(n)*17) {
		return
	}
	s := f()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	mu.Lock()
	c.st.Samples = append(c.st.Samples, s)
	mu.Unlock()
}

// Doing records a description of the running case for the watchdog report.
func Doing(f func() string) { curDesc.Store(f) }

// Hash is FNV-1a (64 bit).
func Hash(key []byte) uint64 {
	h := uint64(14695981039346656037)
	for len(key) >= 8 {
		h ^= binary.LittleEndian.Uint64(key)
		h *= 1099511628211
		h ^= h >> 29
		key = key[8:]
	}
	for _, b := range key {
		h ^= uint64(b)
		h *= 1099511628211
	}
	h ^= h >> 32
	return h
}

// Note records a line which the driver prints (e.g. KNOWN-FINDING lines).
func Note(format string, args ...any) {
	mu.Lock()
	defer mu.Unlock()
	notes = append(notes, fmt.Sprintf(format, args...))
}

// Known reports a failing specimen.  If the key is listed in the file of known
// findings, a note is recorded; otherwise the test fails.
func Known(property, key, detail string) {
	dir := os.Getenv("VERIF_DIR")
	if dir == "" {
		dir = "/verif"
	}
	body, _ := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	prefix := fmt.Sprintf("KNOWN property=%s key=%s ", property, key)
	for _, line := range strings.Split(string(body), "\n") {
		if strings.HasPrefix(line, prefix) {
			Note("KNOWN-FINDING: property=%s %s", property, strings.TrimPrefix(line, prefix))
			return
		}
	}
	Failf("%s: %s", key, detail)
}

func splitmix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func getStats(name string) *testStats {
	mu.Lock()
	defer mu.Unlock()
	st := stats[name]
	if st == nil {
		st = &testStats{Classes: map[string]int64{}, hashes: map[uint64]struct{}{}}
		stats[name] = st
	}
	return st
}

// Check runs prop on generated inputs.  The numbers of cases are totals over
// all shards.
func Check(t *testing.T, quick, thorough int, prop func(t *rapid.T, c *Case)) {
	t.Helper()
	shard, shards := Shard()
	n := quick
	if Thorough() {
		n = thorough
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			n = int(float64(n) * f)
		}
	}
	k := (n + shards - 1) / shards
	if k < 1 {
		k = 1
	}
	st := getStats(t.Name())
	seed := splitmix(splitmix(uint64(int64(Seed())))+uint64(shard)*0x1000193+Hash([]byte(t.Name()))) >> 1
	if seed == 0 {
		seed = 1
	}
	must(flag.Set("rapid.checks", strconv.Itoa(k)))
	must(flag.Set("rapid.seed", strconv.FormatUint(seed, 10)))
	if os.Getenv("VERIF_SHRINK") != "" {
		must(flag.Set("rapid.shrinktime", os.Getenv("VERIF_SHRINK")))
	}
	curTest.Store(t.Name())
	rapid.Check(t, func(rt *rapid.T) {
		mu.Lock()
		st.Evaluations++
		mu.Unlock()
		begin()
		defer func() {
			end()
			if r := recover(); r != nil {
				if fmt.Sprintf("%T", r) != "rapid.invalidData" {
					failing(r)
				}
				panic(r)
			}
		}()
		prop(rt, &Case{st: st})
	})
}

// Enumerate runs f over an explicitly enumerated space [0,n), divided between
// the shards.  f returns false to stop.
func Enumerate(t *testing.T, n int, f func(i int, c *Case)) {
	t.Helper()
	if Replaying() {
		// enumerations are replayed as a whole
		os.Setenv("VERIF_SHARDS", "1")
	}
	shard, shards := Shard()
	st := getStats(t.Name())
	curTest.Store(t.Name())
	for i := shard; i < n; i += shards {
		st.Evaluations++
		begin()
		func() {
			defer end()
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(stop); ok {
						t.Errorf("case %d: %s", i, string(s))
						return
					}
					t.Errorf("case %d: panic: %v\n%s", i, r, debug.Stack())
				}
			}()
			f(i, &Case{st: st})
		}()
		if t.Failed() {
			t.FailNow()
		}
	}
}

type stop string

// Failf aborts an enumerated case as a failure.
func Failf(format string, args ...any) { panic(stop(fmt.Sprintf(format, args...))) }

type failer struct{ prefix string }

func (f failer) Fatalf(format string, args ...any) {
	Failf("%s: %s", f.prefix, fmt.Sprintf(format, args...))
}

// Failer is a reporter for use inside [Enumerate].
func Failer(t *testing.T, prefix string) interface{ Fatalf(string, ...any) } { return failer{prefix} }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func cpuNow() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func begin() {
	cpuStart.Store(cpuNow())
	wallBeg.Store(time.Now().UnixNano())
	curCase.Add(1)
	inCase.Store(true)
}

func end() { inCase.Store(false) }

var (
	firstFailure atomic.Value // string
	failureTime  atomic.Int64
)

// failing records that a failing case was found, and that shrinking starts.
func failing(r any) {
	if failureTime.CompareAndSwap(0, time.Now().UnixNano()) {
		firstFailure.Store(fmt.Sprint(r))
	}
}

// ShrinkLimit is the time after which shrinking is abandoned.  Some of the
// shrinker's passes take very long for large cases.
const ShrinkLimit = 60 * time.Second

// Limits of the watchdog.  They are far above anything a case needs.
var (
	CPULimit  = 60 * time.Second
	WallLimit = 240 * time.Second // for dead-locks: no CPU used
)

func watchdog() {
	var last int64 = -1
	for {
		time.Sleep(500 * time.Millisecond)
		if t := failureTime.Load(); t != 0 && time.Now().UnixNano()-t > int64(ShrinkLimit) {
			name, _ := curTest.Load().(string)
			msg, _ := firstFailure.Load().(string)
			fmt.Printf("    %s: case not minimised: %s\n--- FAIL: %s\n", name, msg, name)
			os.Exit(1)
		}
		if !inCase.Load() {
			continue
		}
		c := curCase.Load()
		if c != last {
			last = c
			continue
		}
		cpu := time.Duration(cpuNow() - cpuStart.Load())
		wall := time.Duration(time.Now().UnixNano() - wallBeg.Load())
		kind := ""
		if cpu > CPULimit {
			kind = "no progress (CPU limit exceeded)"
		} else if wall > WallLimit && cpu < wall/20 {
			kind = "no progress (blocked)"
		}
		if kind == "" || curCase.Load() != c {
			continue
		}
		name, _ := curTest.Load().(string)
		fmt.Printf("WATCHDOG %s: %s: case %d, cpu %v, wall %v\n", name, kind, c, cpu, wall)
		if f, ok := curDesc.Load().(func() string); ok && f != nil {
			func() {
				defer func() { _ = recover() }()
				s := f()
				if len(s) > 20000 {
					s = s[:20000] + "..."
				}
				fmt.Println("CASE:", s)
			}()
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		fmt.Printf("%s\n", buf)
		os.Exit(exitHang)
	}
}

// Main is to be called from TestMain.
func Main(m *testing.M) {
	debug.SetMaxStack(256 << 20)
	flag.Parse()
	if fl := flag.Lookup("test.fuzz"); fl != nil && fl.Value.String() != "" {
		os.Exit(m.Run()) // coverage-guided fuzzing has its own time limit
	}
	go watchdog()
	code := m.Run()
	flush()
	os.Exit(code)
}

func flush() {
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		if testing.Verbose() {
			for name, st := range stats {
				fmt.Fprintf(os.Stderr, "%s: ev=%d nt=%d distinct=%d %v\n", name, st.Evaluations, st.NonTrivial, len(st.hashes), st.Classes)
				if os.Getenv("VERIF_SAMPLES") != "" {
					fmt.Fprintln(os.Stderr, "   ", strings.Join(st.Samples, "\n    "))
				}
			}
		}
		return
	}
	shard, _ := Shard()
	type file struct {
		Tests map[string]*testStats `json:"tests"`
		Notes []string              `json:"notes"`
	}
	b, err := json.Marshal(file{stats, notes})
	must(err)
	must(os.WriteFile(filepath.Join(out, fmt.Sprintf("stats-%d.json", shard)), b, 0o644))
	var hb []byte
	for name, st := range stats {
		nh := Hash([]byte(name))
		for h := range st.hashes {
			hb = binary.LittleEndian.AppendUint64(hb, h^nh)
		}
	}
	must(os.WriteFile(filepath.Join(out, fmt.Sprintf("hashes-%d.bin", shard)), hb, 0o644))
}

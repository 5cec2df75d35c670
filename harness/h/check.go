// Package h is the small framework around rapid the checks use: it counts what
// was generated, keeps samples, remembers the case in progress (so that a dead
// process can be attributed), watches for hangs in CPU time, and writes all
// this out for the runner (/verif/run.py).
package h

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Tier is "quick" or "thorough".
var Tier = func() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}()

// Scratch is a directory of this process's own, removed by the runner.
var Scratch = func() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = filepath.Join(os.TempDir(), fmt.Sprintf("verif-scratch-%d", os.Getpid()))
	}
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}()

// Shard / Shards split fixed enumerations over processes; random checks get
// different seeds per shard from the runner.
var Shard, Shards = func() (int, int) {
	s, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHARDS"))
	if n < 1 {
		n = 1
	}
	return s, n
}()

// Rec accumulates the evidence of one check function.
type Rec struct {
	Property string         `json:"property"`
	Test     string         `json:"test"`
	Rule     string         `json:"rule"`
	Evals    int            `json:"evaluations"`
	Discard  int            `json:"discarded"`
	Classes  map[string]int `json:"classes"`
	Samples  []string       `json:"samples"`
	Hashes   []uint64       `json:"nontrivial_hashes"`
	seen     map[uint64]bool
	next     int
	mu       sync.Mutex
}

var (
	recsMu sync.Mutex
	recs   []*Rec
)

func newRec(property, test, rule string) *Rec {
	r := &Rec{Property: property, Test: test, Rule: rule, Classes: map[string]int{}, seen: map[uint64]bool{}, next: 1}
	recsMu.Lock()
	recs = append(recs, r)
	recsMu.Unlock()
	return r
}

// Case records one evaluated case. desc identifies and describes it.
func (r *Rec) Case(nontrivial bool, desc string, classes ...string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.Evals++
	for _, c := range classes {
		r.Classes[c]++
	}
	if nontrivial {
		f := fnv.New64a()
		f.Write([]byte(r.Test))
		f.Write([]byte(desc))
		hash := f.Sum64()
		if !r.seen[hash] {
			r.seen[hash] = true
			if len(r.seen) >= r.next && len(r.Samples) < 6 {
				s := desc
				if len(s) > 1500 {
					s = s[:1500] + "..."
				}
				r.Samples = append(r.Samples, s)
				r.next *= 4
			}
		}
	}
}

// Class counts an event without counting a case.
func (r *Rec) Class(c string) {
	r.mu.Lock()
	r.Classes[c]++
	r.mu.Unlock()
}

// Discarded counts a generated case that was not evaluated (and why).
func (r *Rec) Discarded(why string) {
	r.mu.Lock()
	r.Discard++
	r.Classes["discarded: "+why]++
	r.mu.Unlock()
}

// N picks the number of cases by tier; VERIF_SCALE multiplies it.
func N(quick, thorough int) int {
	n := quick
	if Tier == "thorough" {
		n = thorough
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			n = int(float64(n) * f)
		}
	}
	n = n / Shards
	if n < 1 {
		n = 1
	}
	return n
}

// limit is how long one check function goes on generating cases.
var limit = func() time.Duration {
	s, _ := strconv.Atoi(os.Getenv("VERIF_LIMIT"))
	return time.Duration(s) * time.Second
}()

// Check runs f over generated cases. quick and thorough are totals over all shards.
func Check(t *testing.T, property, rule string, quick, thorough int, f func(rt *rapid.T, r *Rec)) {
	t.Helper()
	r := newRec(property, t.Name(), rule)
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			panic(err)
		}
	}
	if os.Getenv("VERIF_REPLAY") == "" {
		set("rapid.checks", strconv.Itoa(N(quick, thorough)))
	}
	start, failed := time.Now(), false
	rapid.Check(t, func(rt *rapid.T) {
		if limit > 0 && time.Since(start) > limit && !failed {
			r.Class("not run: out of time")
			return
		}
		Begin("")
		defer End()
		ok := false
		defer func() {
			if !ok && !failed {
				failed = true
			}
			if !ok {
				DumpCurrent()
			}
		}()
		f(rt, r)
		ok = true
	})
}

// Enum is for enumerations and fixed regressions: no rapid, failures through t.
func Enum(t *testing.T, property, rule string, f func(r *Rec)) {
	t.Helper()
	r := newRec(property, t.Name(), rule)
	Begin("")
	defer End()
	f(r)
}

// listed reads the ids in /verif/known_findings.txt.
var listed = sync.OnceValue(func() map[string]bool {
	ret := map[string]bool{}
	b, err := os.ReadFile(os.Getenv("VERIF_KNOWN"))
	if err != nil {
		return ret
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		f := strings.Fields(l)
		if len(f) > 2 {
			ret[strings.TrimPrefix(f[1], "property=")+" "+f[2]] = true
		}
	}
	return ret
})

// IsKnown tells whether a known finding is listed.
func IsKnown(property, id string) bool { return listed()[property+" ["+id+"]"] }

// Known runs the demonstration of a listed known finding: still must report
// whether the defect is still there. It prints the KNOWN-FINDING line then. If the
// finding is not listed in /verif/known_findings.txt it is a violation.
func Known(t *testing.T, property, id, what string, still func() bool) {
	t.Helper()
	if Shard != 0 {
		return
	}
	if !still() {
		return
	}
	if !IsKnown(property, id) {
		t.Errorf("%s: %s", id, what)
		return
	}
	fmt.Printf("\nKNOWN-FINDING: property=%s [%s] %s\n", property, id, what)
}

// ---- case in progress, hang watchdog ----

var (
	curMu    sync.Mutex
	curDesc  string
	curFile  []byte
	curName  string
	caseCPU  atomic.Int64 // CPU ns at case start, 0 when idle
	hangOnce sync.Once
)

// HangCPU is the CPU time one case may take before it counts as a hang; normal
// cases take milliseconds.
var HangCPU = 120 * time.Second

func cpu() int64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// Begin marks the start of a case.
func Begin(desc string) {
	curMu.Lock()
	curDesc = desc
	curFile = nil
	curMu.Unlock()
	caseCPU.Store(cpu())
	hangOnce.Do(func() {
		go func() {
			case0, idle, cpu0 := int64(0), 0, int64(0)
			for {
				time.Sleep(2 * time.Second)
				s, c := caseCPU.Load(), cpu()
				if s == 0 || s != case0 || c-cpu0 > int64(idle+1)*int64(20*time.Millisecond) {
					case0, idle, cpu0 = s, 0, c
				} else {
					idle++
				}
				if s != 0 && (c-s > int64(HangCPU) || idle > 75) {
					buf := make([]byte, 1<<20)
					n := runtime.Stack(buf, true)
					fmt.Printf("\nVERIF-HANG: a case used over %v of CPU time, or none for %v\ncase: %s\n%s\n", HangCPU, 2*idle, curDesc, buf[:n])
					DumpCurrent()
					os.Exit(97)
				}
			}
		}()
	})
}

// Describe sets the description of the case in progress.
func Describe(desc string) {
	curMu.Lock()
	curDesc = desc
	curMu.Unlock()
}

// Input notes the raw input in progress. With persist it is written out at once, so
// that it survives the death of the process.
func Input(name string, b []byte, persist bool) {
	curMu.Lock()
	curName, curFile = name, b
	curMu.Unlock()
	if persist {
		_ = os.WriteFile(filepath.Join(Scratch, "current-input"), b, 0o644)
	}
}

// DumpCurrent writes the current input to the scratch directory for the runner.
func DumpCurrent() {
	curMu.Lock()
	defer curMu.Unlock()
	if curFile != nil {
		_ = os.WriteFile(filepath.Join(Scratch, "current-input"), curFile, 0o644)
	}
	_ = os.WriteFile(filepath.Join(Scratch, "current-case"), []byte(curDesc), 0o644)
}

// End marks the end of a case.
func End() { caseCPU.Store(0) }

// NoPanic runs f and returns what it panicked with, if anything, as text.
func NoPanic(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			// keep the frames from the panic on, they name the place
			if i := strings.Index(st, "panic("); i >= 0 {
				st = st[i:]
			}
			lines := strings.Split(st, "\n")
			if len(lines) > 24 {
				lines = lines[:24]
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, strings.Join(lines, "\n"))
		}
	}()
	f()
	return ""
}

// Main is the TestMain of the check binary.
func Main(m *testing.M) {
	flag.Parse()
	debug.SetMaxStack(512 << 20)
	code := m.Run()
	if p := os.Getenv("VERIF_OUT"); p != "" {
		recsMu.Lock()
		for _, r := range recs {
			r.Hashes = r.Hashes[:0]
			for k := range r.seen {
				r.Hashes = append(r.Hashes, k)
			}
			sort.Slice(r.Hashes, func(i, j int) bool { return r.Hashes[i] < r.Hashes[j] })
		}
		var buf bytes.Buffer
		_ = json.NewEncoder(&buf).Encode(recs)
		_ = os.WriteFile(p, buf.Bytes(), 0o644)
		recsMu.Unlock()
	}
	fmt.Printf("VERIF-END code=%d\n", code)
	os.Exit(code)
}

// Path returns a scratch file name.
func Path(name string) string { return filepath.Join(Scratch, name) }

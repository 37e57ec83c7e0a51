package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A Check decides one property by running cases of a workload and judging
// every observed execution with an oracle.
type Check struct {
	ID       string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Workers  int // 0: one per CPU
	Race     bool
	Rule     string
	Run      func(c *Ctx)
	// Floors are the minimal numbers of observed events per thousand cases. A
	// run that observes less decides nothing: it ends as inconclusive.
	Floors map[string]int
	// Known reports the known findings for this property that still fail.
	Known func() []string
	// Cold runs ColdRuns times, each in a process that has not used the library
	// before, and returns a violation or the number of judged operations.
	Cold     func(seed uint64, k int) (string, int)
	ColdRuns int
	// Final runs once after all cases, in the child.
	Final func(res *Result)
	// Assumptions recorded in the evidence.
	Assumptions []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is the context of a single case.
type Ctx struct {
	Idx  int
	Seed uint64
	Tier string
	R    *Rng
	w    *worker
	// inputs are recorded in the replay file if the case fails
	inputs [][2]string
}

type violation struct{ msg string }

// Fail reports a violation of the property and ends the case.
func (c *Ctx) Fail(format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Input records an input of the case for the replay file.
func (c *Ctx) Input(name, value string) {
	c.inputs = append(c.inputs, [2]string{name, value})
}

func (c *Ctx) ResetInputs() { c.inputs = c.inputs[:0] }

// Note counts an observed event.
func (c *Ctx) Note(key string) { c.w.notes[key]++ }

func (c *Ctx) NoteN(key string, n int) { c.w.notes[key] += int64(n) }

// Eval counts one judged execution.
func (c *Ctx) Eval() { c.w.evals++ }

// Nontrivial counts the current input as non-trivial, if it is new.
func (c *Ctx) Nontrivial(hash uint64, sample func() string) {
	c.w.hashes[hash] = struct{}{}
	if len(c.w.samples) < 2 && sample != nil {
		c.w.samples = append(c.w.samples, clip(sample(), 700))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	return s
}

type worker struct {
	id      int
	notes   map[string]int64
	hashes  map[uint64]struct{}
	samples []string
	evals   int64
	cur     atomic.Int64 // current case, -1 if idle
	since   atomic.Int64 // start of the current case, unix nanoseconds
}

type Violation struct {
	Case   int         `json:"case"`
	Msg    string      `json:"message"`
	Inputs [][2]string `json:"inputs,omitempty"`
	Stack  string      `json:"stack,omitempty"`
}

type Result struct {
	Evals      int64            `json:"evals"`
	Cases      int              `json:"cases"`
	Distinct   int              `json:"distinct"`
	Notes      map[string]int64 `json:"notes"`
	Samples    []string         `json:"samples"`
	Violations []Violation      `json:"violations"`
	Internal   []string         `json:"internal"`
	Stuck      []int            `json:"stuck"`
	OOM        []int            `json:"oom"`
}

// runCase runs one case and returns a violation, if any, or an internal error.
func runCase(ck *Check, c *Ctx) (v *Violation, internal string) {
	defer func() {
		e := recover()
		if e == nil {
			return
		}
		stack := string(debug.Stack())
		switch e := e.(type) {
		case violation:
			v = &Violation{Case: c.Idx, Msg: e.msg, Inputs: c.inputs}
		case runaway:
			v = &Violation{Case: c.Idx, Msg: "no progress: " + e.msg, Inputs: c.inputs, Stack: clip(stack, 4000)}
		default:
			if libraryPanicked(stack) {
				v = &Violation{Case: c.Idx, Msg: fmt.Sprintf("library panicked: %v", e), Inputs: c.inputs, Stack: clip(stack, 4000)}
			} else {
				internal = fmt.Sprintf("case %d: harness panic: %v\n%s", c.Idx, e, clip(stack, 4000))
			}
		}
	}()
	ck.Run(c)
	return nil, ""
}

// libraryPanicked returns true if the panic was raised while library code was
// running, that is, if a library frame is above any harness frame.
func libraryPanicked(stack string) bool {
	i := strings.Index(stack, "\npanic(")
	if i >= 0 {
		stack = stack[i+1:]
	}
	for _, line := range strings.Split(stack, "\n") {
		if strings.HasPrefix(line, "github.com/bluekeyes/go-gitdiff/gitdiff.") {
			return true
		}
		if strings.HasPrefix(line, "main.") {
			// harness code called back by the library (readers, writers) is
			// harness code: it panics only with runaway values
			return false
		}
	}
	return false
}

const (
	exitViolation = 1
	exitInternal  = 2
	exitStuck     = 77
	exitOOM       = 78

	stuckAfter = 45 * time.Second
	heapLimit  = 6 << 30
)

func cpus() int {
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	return n
}

// runChild runs all cases of the check.
func runChild(ck *Check, seed uint64, tier string, out, journal string) int {
	n := ck.Quick
	if tier == "thorough" {
		n = ck.Thorough
	}
	nw := ck.Workers
	if nw == 0 {
		nw = cpus()
	}
	var jf *os.File
	if journal != "" {
		jf, _ = os.OpenFile(journal, os.O_CREATE|os.O_RDWR, 0o644)
	}

	var next atomic.Int64
	var stop atomic.Bool
	var mu sync.Mutex
	res := &Result{Notes: map[string]int64{}}

	workers := make([]*worker, nw)
	for i := range workers {
		workers[i] = &worker{id: i, notes: map[string]int64{}, hashes: map[uint64]struct{}{}}
		workers[i].cur.Store(-1)
	}

	inflight := func() (ids []int) {
		for _, w := range workers {
			if cur := w.cur.Load(); cur >= 0 {
				ids = append(ids, int(cur))
			}
		}
		return
	}
	writeOut := func(r *Result) {
		b, _ := json.Marshal(r)
		os.WriteFile(out, b, 0o644)
	}

	// watchdogs: they never decide, they only end the run and name the cases
	// that the supervisor replays in isolation, under a CPU time limit
	// their clock does not count times in which the whole machine stood still
	var clock atomic.Int64
	go func() {
		var ms runtime.MemStats
		for last := time.Now(); ; {
			time.Sleep(100 * time.Millisecond)
			d := time.Since(last)
			last = last.Add(d)
			if d > time.Second {
				d = time.Second
			}
			clock.Add(int64(d))
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit {
				writeOut(&Result{OOM: inflight()})
				os.Exit(exitOOM)
			}
			now := clock.Load()
			var stuck []int
			for _, w := range workers {
				if cur := w.cur.Load(); cur >= 0 && now-w.since.Load() > int64(stuckAfter) {
					stuck = append(stuck, int(cur))
				}
			}
			if len(stuck) > 0 {
				writeOut(&Result{Stuck: stuck})
				os.Exit(exitStuck)
			}
		}
	}()

	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			var jb [8]byte
			for !stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= n {
					break
				}
				if jf != nil {
					binary.LittleEndian.PutUint64(jb[:], uint64(i)+1)
					jf.WriteAt(jb[:], int64(w.id)*8)
				}
				w.since.Store(clock.Load())
				w.cur.Store(int64(i))
				c := &Ctx{Idx: i, Seed: seed, Tier: tier, R: newRng(seed, ck.ID, uint64(i)), w: w}
				v, internal := runCase(ck, c)
				w.cur.Store(-1)
				if v != nil || internal != "" {
					mu.Lock()
					if v != nil {
						res.Violations = append(res.Violations, *v)
						if len(res.Violations) >= 5 {
							stop.Store(true)
						}
					}
					if internal != "" {
						res.Internal = append(res.Internal, internal)
						if len(res.Internal) >= 3 {
							stop.Store(true)
						}
					}
					mu.Unlock()
				}
			}
			if jf != nil {
				var zero [8]byte
				jf.WriteAt(zero[:], int64(w.id)*8)
			}
		}(w)
	}
	wg.Wait()

	all := map[uint64]struct{}{}
	for _, w := range workers {
		res.Evals += w.evals
		for k, v := range w.notes {
			res.Notes[k] += v
		}
		for h := range w.hashes {
			all[h] = struct{}{}
		}
		for _, s := range w.samples {
			if len(res.Samples) < 4 {
				res.Samples = append(res.Samples, s)
			}
		}
	}
	res.Distinct = len(all)
	res.Cases = int(next.Load())
	if res.Cases > n {
		res.Cases = n
	}
	if ck.Final != nil && len(res.Violations) == 0 {
		ck.Final(res)
	}
	sort.Slice(res.Violations, func(i, j int) bool { return res.Violations[i].Case < res.Violations[j].Case })
	writeOut(res)
	switch {
	case len(res.Violations) > 0:
		return exitViolation
	case len(res.Internal) > 0:
		return exitInternal
	}
	return 0
}

// runOne replays a single case in this process.
func runOne(ck *Check, seed uint64, tier string, idx int, out string) int {
	w := &worker{notes: map[string]int64{}, hashes: map[uint64]struct{}{}}
	c := &Ctx{Idx: idx, Seed: seed, Tier: tier, R: newRng(seed, ck.ID, uint64(idx)), w: w}
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(50 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > heapLimit/2 {
				os.Exit(exitOOM)
			}
		}
	}()
	v, internal := runCase(ck, c)
	res := &Result{Notes: w.notes, Evals: w.evals}
	code := 0
	if v != nil {
		res.Violations = append(res.Violations, *v)
		code = exitViolation
	}
	if internal != "" {
		res.Internal = append(res.Internal, internal)
		code = exitInternal
	}
	if out != "" {
		b, _ := json.Marshal(res)
		os.WriteFile(out, b, 0o644)
	} else {
		b, _ := json.MarshalIndent(res, "", "  ")
		fmt.Println(string(b))
	}
	return code
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func evidencePath(id string) string {
	return filepath.Join(verifDir(), "evidence", id+".json")
}

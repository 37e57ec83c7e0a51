package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: rvmon run ID | replay FILE | list | child ... | one ...")
		os.Exit(exitInternal)
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			seed = v
		} else {
			seed = fnv64(s)
		}
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(heapLimit / 5 * 2) // collects garbage long before the watchdogs see too much memory in use

	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, checks[id].Race)
		}
	case "run":
		os.Exit(supervise(getCheck(os.Args[2]), seed, tier))
	case "child":
		os.Exit(runChild(getCheck(os.Args[2]), seed, tier, os.Args[3], os.Args[4]))
	case "known":
		if ck := getCheck(os.Args[2]); ck.Known != nil {
			for _, s := range ck.Known() {
				fmt.Println(s)
			}
		}
	case "one":
		idx, _ := strconv.Atoi(os.Args[3])
		out := ""
		if len(os.Args) > 4 {
			out = os.Args[4]
			// CPU time, not wall clock, bounds an isolated replay
			lim := syscall.Rlimit{Cur: 90, Max: 95}
			syscall.Setrlimit(syscall.RLIMIT_CPU, &lim)
		}
		os.Exit(runOne(getCheck(os.Args[2]), seed, tier, idx, out))
	case "cold":
		k, _ := strconv.Atoi(os.Args[3])
		failure, ops := getCheck(os.Args[2]).Cold(seed, k)
		b, _ := json.Marshal(coldResult{failure, ops})
		if err := os.WriteFile(os.Args[4], b, 0o644); err != nil {
			os.Exit(exitInternal)
		}
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitInternal)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(exitInternal)
		}
		if rf.Case < 0 { // not a single case: a race or a recorded finding
			os.Exit(supervise(getCheck(rf.Property), rf.Seed, rf.Tier))
		}
		os.Exit(runOne(getCheck(rf.Property), rf.Seed, rf.Tier, rf.Case, ""))
	default:
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(exitInternal)
	}
}

func getCheck(id string) *Check {
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "unknown check", id)
		os.Exit(exitInternal)
	}
	return ck
}

type coldResult struct {
	Failure string
	Ops     int
}

type replayFile struct {
	Property string      `json:"property"`
	Seed     uint64      `json:"seed"`
	Tier     string      `json:"tier"`
	Case     int         `json:"case"`
	Message  string      `json:"message"`
	Inputs   [][2]string `json:"inputs,omitempty"`
	Stack    string      `json:"stack,omitempty"`
	How      string      `json:"how_to_replay"`
}

func writeReplay(ck *Check, seed uint64, tier string, v Violation) string {
	dir := filepath.Join(verifDir(), "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-case%d.json", ck.ID, seed, v.Case))
	b, _ := json.MarshalIndent(replayFile{
		Property: ck.ID, Seed: seed, Tier: tier, Case: v.Case, Message: v.Msg,
		Inputs: v.Inputs, Stack: v.Stack,
		How: fmt.Sprintf("cd /verif && bash run.sh replay %s", path),
	}, "", "  ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "writing replay:", err)
	}
	return path
}

// supervise runs the workload in a child process, so that crashes, hangs and
// memory exhaustion of the code under test are observed instead of ending the
// check, and turns what was observed into a verdict.
func supervise(ck *Check, seed uint64, tier string) int {
	runtime.LockOSThread() // Pdeathsig follows the thread
	start := time.Now()
	tmp, err := os.MkdirTemp("", "rvmon-"+ck.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return exitInternal
	}
	defer os.RemoveAll(tmp)
	os.MkdirAll(filepath.Dir(evidencePath(ck.ID)), 0o755)
	// evidence and replays of an earlier run never survive into this one
	os.Remove(evidencePath(ck.ID))
	if old, _ := filepath.Glob(filepath.Join(verifDir(), "evidence", "replay", ck.ID+"-*.json")); len(old) > 0 {
		for _, f := range old {
			os.Remove(f)
		}
	}

	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 6 * time.Hour
	}
	out, journal := filepath.Join(tmp, "result.json"), filepath.Join(tmp, "journal")
	raceLog := filepath.Join(tmp, "race")
	code, stderr, timedOut := spawn(tmp, limit, []string{"child", ck.ID, out, journal},
		"GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+raceLog,
		"TMPDIR="+tmp)

	var res Result
	if b, err := os.ReadFile(out); err == nil {
		json.Unmarshal(b, &res)
	}
	violations := res.Violations

	confirm := func(ids []int, what string) {
		for _, id := range ids {
			o := filepath.Join(tmp, fmt.Sprintf("one-%d.json", id))
			c, se, to := spawn(tmp, 300*time.Second, []string{"one", ck.ID, strconv.Itoa(id), o}, "TMPDIR="+tmp)
			var r Result
			if b, err := os.ReadFile(o); err == nil {
				json.Unmarshal(b, &r)
			}
			switch {
			case c == exitViolation && len(r.Violations) > 0:
				violations = append(violations, r.Violations...)
			case c == exitOOM:
				violations = append(violations, Violation{Case: id, Msg: "memory use without bound (heap above limit in an isolated replay)"})
			case c == 128+int(syscall.SIGXCPU) || c == 128+int(syscall.SIGKILL) && !to:
				violations = append(violations, Violation{Case: id, Msg: "no progress: isolated replay used its CPU time limit of 90 s"})
			case c != 0 && c != exitInternal && !to && strings.Contains(se, "go-gitdiff/gitdiff."):
				violations = append(violations, Violation{Case: id, Msg: "library crashed the process: " + what, Stack: clip(se, 4000)})
			}
			if len(violations) > 0 {
				return
			}
		}
	}

	switch {
	case timedOut:
		fmt.Fprintf(os.Stderr, "%s: inconclusive: run exceeded its watchdog of %v\n", ck.ID, limit)
		return exitInternal
	case code == exitStuck:
		confirm(res.Stuck, "stuck")
	case code == exitOOM:
		confirm(res.OOM, "memory")
	case code != 0 && code != exitViolation && code != exitInternal || code == exitInternal && len(res.Internal) == 0:
		// the process crashed: replay the cases that were in flight
		confirm(readJournal(journal), firstLine(stderr))
		if len(violations) == 0 && strings.Contains(stderr, "go-gitdiff/gitdiff.") {
			id := -1
			if ids := readJournal(journal); len(ids) > 0 {
				id = ids[0]
			}
			violations = append(violations, Violation{Case: id, Msg: "library crashed the process: " + firstLine(stderr), Stack: clip(stderr, 6000)})
		}
	}

	// first uses, each in a new process
	coldRuns, coldOps := 0, 0
	if ck.Cold != nil && len(violations) == 0 && code == 0 {
		n := ck.ColdRuns
		if tier == "thorough" {
			n *= 10
		}
		for k := 0; k < n && len(violations) == 0; k++ {
			o := filepath.Join(tmp, fmt.Sprintf("cold-%d.json", k))
			c, se, to := spawn(tmp, 120*time.Second, []string{"cold", ck.ID, strconv.Itoa(k), o},
				"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=50 history_size=3 log_path="+raceLog, "TMPDIR="+tmp)
			var r coldResult
			if b, err := os.ReadFile(o); err == nil {
				json.Unmarshal(b, &r)
			}
			switch {
			case r.Failure != "":
				violations = append(violations, Violation{Case: -1, Msg: r.Failure})
			case c != 0 && !to && strings.Contains(se, "go-gitdiff/gitdiff."):
				violations = append(violations, Violation{Case: -1, Msg: "library crashed a new process: " + firstLine(se), Stack: clip(se, 6000)})
			case c != 0 || r.Ops == 0:
				fmt.Fprintf(os.Stderr, "%s: inconclusive: process %d for first uses ended with %d\n%s\n", ck.ID, k, c, clip(se, 2000))
				return exitInternal
			}
			coldRuns++
			coldOps += r.Ops
		}
		res.Evals += int64(coldOps)
	}

	// recorded findings that still fail; only listed ones are no violations
	var known []string
	if ck.Known != nil {
		list, _ := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
		for _, k := range ck.Known() {
			if strings.Contains("\n"+string(list)+"\n", fmt.Sprintf("\nfinding: property=%s %s\n", ck.ID, k)) {
				known = append(known, k)
			} else {
				violations = append(violations, Violation{Case: -1, Msg: k})
			}
		}
	}

	// data races
	races, foreign := collectRaces(raceLog)
	if len(races) > 0 {
		violations = append(violations, Violation{Case: -1, Msg: fmt.Sprintf("%d data races reported by the race detector", len(races)), Stack: clip(races[0], 6000)})
	}

	// thresholds of observation
	var missing []string
	for k, perThousand := range ck.Floors {
		want := int64(perThousand) * int64(res.Cases) / 1000
		if want < 1 {
			want = 1
		}
		if res.Notes[k] < want {
			missing = append(missing, fmt.Sprintf("%s: observed %d, need %d", k, res.Notes[k], want))
		}
	}
	sort.Strings(missing)

	sort.Slice(violations, func(i, j int) bool { return violations[i].Case < violations[j].Case })
	wall := time.Since(start).Seconds()
	ev := map[string]any{
		"property": ck.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":         res.Evals,
			"distinct_nontrivial": res.Distinct,
			"rule":                ck.Rule,
			"samples":             nonNil(res.Samples),
			"cases":               res.Cases,
			"observed":            res.Notes,
			"data_race_reports":   len(races),
			"race_detector":       ck.Race,
		},
		"assumptions": nonNil(ck.Assumptions),
		"wall_s":      float64(int(wall*100)) / 100,
		"violations":  len(violations),
	}
	if ck.Cold != nil {
		ev["coverage"].(map[string]any)["new_processes"] = coldRuns
		ev["coverage"].(map[string]any)["first_uses_in_new_processes"] = coldOps
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(evidencePath(ck.ID), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "writing evidence:", err)
		return exitInternal
	}

	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", ck.ID, k)
	}
	if len(violations) > 0 {
		v := violations[0]
		path := writeReplay(ck, seed, tier, v)
		fmt.Printf("%s: case %d: %s\n", ck.ID, v.Case, clip(v.Msg, 3000))
		if v.Stack != "" {
			fmt.Println(clip(v.Stack, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.ID, path)
		return exitViolation
	}
	switch {
	case len(res.Internal) > 0:
		fmt.Fprintf(os.Stderr, "%s: internal error: %s\n", ck.ID, strings.Join(res.Internal, "\n"))
		return exitInternal
	case code != 0:
		fmt.Fprintf(os.Stderr, "%s: inconclusive: child ended with %d (stuck %v, memory %v)\n%s\n", ck.ID, code, res.Stuck, res.OOM, clip(stderr, 4000))
		return exitInternal
	case len(foreign) > 0:
		fmt.Fprintf(os.Stderr, "%s: race report without library frames:\n%s\n", ck.ID, clip(foreign[0], 3000))
		return exitInternal
	case len(missing) > 0:
		fmt.Fprintf(os.Stderr, "%s: inconclusive: too little observed: %s\n", ck.ID, strings.Join(missing, "; "))
		return exitInternal
	case res.Evals == 0:
		fmt.Fprintf(os.Stderr, "%s: inconclusive: nothing observed\n", ck.ID)
		return exitInternal
	}

	fmt.Printf("%s: held on %d judged executions of %d cases, %d distinct non-trivial (%s, seed %d, %.1f s)\n",
		ck.ID, res.Evals, res.Cases, res.Distinct, tier, seed, wall)
	return 0
}

func nonNil(s []string) []string {
	if s == nil {
		return []string{}
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func readJournal(path string) (ids []int) {
	b, _ := os.ReadFile(path)
	for ; len(b) >= 8; b = b[8:] {
		if v := binary.LittleEndian.Uint64(b); v > 0 {
			ids = append(ids, int(v-1))
		}
	}
	return
}

func collectRaces(prefix string) (lib, foreign []string) {
	files, _ := filepath.Glob(prefix + ".*")
	for _, f := range files {
		b, _ := os.ReadFile(f)
		for _, block := range strings.Split(string(b), "==================") {
			if !strings.Contains(block, "WARNING: DATA RACE") {
				continue
			}
			if strings.Contains(block, "go-gitdiff/gitdiff.") {
				lib = append(lib, block)
			} else {
				foreign = append(foreign, block)
			}
		}
	}
	return
}

// spawn runs this program again and returns its exit code (128+signal if it
// was killed) and the end of its standard error.
func spawn(tmp string, limit time.Duration, args []string, env ...string) (code int, stderr string, timedOut bool) {
	self, err := os.Executable()
	if err != nil {
		return exitInternal, err.Error(), false
	}
	ef, err := os.CreateTemp(tmp, "stderr")
	if err != nil {
		return exitInternal, err.Error(), false
	}
	defer ef.Close()
	cmd := exec.Command(self, args...)
	cmd.Env = append(os.Environ(), env...)
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return exitInternal, err.Error(), false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(limit):
		cmd.Process.Kill()
		err = <-done
		timedOut = true
	}
	b, _ := os.ReadFile(ef.Name())
	if len(b) > 200000 {
		b = b[:200000]
	}
	stderr = string(b)
	if err == nil {
		return 0, stderr, timedOut
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			return 128 + int(ws.Signal()), stderr, timedOut
		}
		return ee.ExitCode(), stderr, timedOut
	}
	return exitInternal, err.Error(), timedOut
}

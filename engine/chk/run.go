// Package chk drives the checks: it runs jobs on workers that own a term factory, a solver and a symbolic
// machine for the repository's code, replays counterexamples on the natively built code and collects evidence.
package chk

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/gosym"
	"verif/harness"
	"verif/sym"
)

// VerifDir is the root of the verification tree.
var VerifDir = "/verif"

// Run is one execution of one check.
type Run struct {
	Prop, Tier string
	Seed       int
	Only       string
	Dump       bool
	P          *gosym.Program
	N          *harness.Native
	words      map[string][]string
	Scratch    string
	Start      time.Time
	Deadline   time.Time
	Workers    int

	mu         sync.Mutex
	Stats      map[string]int64
	Solver     sym.Stats
	Viol       []Violation
	Known      map[string]string // known finding keys -> text
	KnownHit   map[string]bool
	Notes      map[string]int
	Samples    []any
	Covered    map[string]bool
	stop       bool
	MaxViol    int
	Families   map[string]int
	Slow       []string
	NoteSample map[string]string
	curMu      sync.Mutex
	cur        map[int]string
	std        map[string]string
	pressure   atomic.Bool // memory is short: end the current jobs
}

// Violation is a confirmed violation.
type Violation struct {
	Key    string
	What   string
	Replay string
}

// KnownFile lists recorded findings.
type KnownFile struct {
	Findings []struct {
		Property string `json:"property"`
		Key      string `json:"key"`
		What     string `json:"what"`
	} `json:"findings"`
	Fixed []string `json:"fixed"`
}

// NewRun loads the program and builds the native drivers from the current tree.
func NewRun(prop, tier string, limit time.Duration, opts ...string) (*Run, error) {
	r := &Run{Prop: prop, Tier: tier, Start: time.Now(), Stats: map[string]int64{}, Known: map[string]string{}, KnownHit: map[string]bool{},
		Notes: map[string]int{}, Covered: map[string]bool{}, MaxViol: 1, Families: map[string]int{}, NoteSample: map[string]string{}, cur: map[int]string{}}
	r.Deadline = r.Start.Add(limit)
	r.Workers = runtime.NumCPU()
	if r.Workers > 8 {
		r.Workers = 8
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(14 << 30)
	var err error
	if r.Scratch, err = os.MkdirTemp("", "tscheck-"); err != nil {
		return nil, err
	}
	lex, tsh := false, false
	for _, o := range opts {
		lex = lex || o == "lexer"
		tsh = tsh || o == "tsh"
	}
	var wg sync.WaitGroup
	var err2 error
	wg.Add(1)
	go func() {
		defer wg.Done()
		r.N, err2 = harness.BuildNative(r.Scratch, lex, tsh)
	}()
	r.P, err = gosym.Load(harness.RepoDir, ".", "./lexer", "./parser", "./transpiler", "./converters/...")
	wg.Wait()
	if err == nil {
		err = err2
	}
	if err != nil {
		return nil, err
	}
	if b, e := os.ReadFile(filepath.Join(VerifDir, "known_findings.json")); e == nil {
		var k KnownFile
		if e := json.Unmarshal(b, &k); e != nil {
			return nil, fmt.Errorf("known_findings.json: %v", e)
		}
		for _, f := range k.Findings {
			if f.Property == prop {
				r.Known[f.Key] = f.What
			}
		}
	}
	return r, nil
}

// Close removes scratch data.
func (r *Run) Close() {
	if r.N != nil {
		r.N.Close()
	}
	if r.Scratch != "" && strings.Contains(r.Scratch, "tscheck-") {
		os.RemoveAll(r.Scratch)
	}
}

// Add counts.
func (r *Run) Add(k string, n int64) {
	r.mu.Lock()
	r.Stats[k] += n
	r.mu.Unlock()
}

// Note records an inconclusive or unusual event.
func (r *Run) Note(k, sample string) {
	r.mu.Lock()
	r.Notes[k]++
	if r.NoteSample[k] == "" {
		r.NoteSample[k] = sample
	}
	r.mu.Unlock()
}

// Sample keeps a few example cases for the evidence.
func (r *Run) Sample(v any) {
	r.mu.Lock()
	if len(r.Samples) < 8 {
		r.Samples = append(r.Samples, v)
	}
	r.mu.Unlock()
}

// Stopped reports whether workers should stop.
func (r *Run) Stopped() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.stop || time.Now().After(r.Deadline)
}

// Violate records a confirmed violation; key identifies the input.
func (r *Run) Violate(key, what string, files map[string]string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if w, ok := r.Known[key]; ok {
		if !r.KnownHit[key] {
			r.KnownHit[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", r.Prop, w, key)
		}
		return
	}
	for _, v := range r.Viol {
		if v.Key == key {
			return
		}
	}
	if len(r.Viol) >= r.MaxViol {
		return
	}
	h := fmt.Sprintf("%x", sha256.Sum256([]byte(key+what)))[:10]
	dir := filepath.Join(VerifDir, "evidence", "replay", r.Prop+"-"+h)
	os.MkdirAll(dir, 0755)
	for n, c := range files {
		os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755)
		os.WriteFile(filepath.Join(dir, n), []byte(c), 0644)
	}
	os.WriteFile(filepath.Join(dir, "WHAT.txt"), []byte("property "+r.Prop+"\nkey "+key+"\n\n"+what+"\n"), 0644)
	r.Viol = append(r.Viol, Violation{key, what, dir})
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, dir)
	fmt.Printf("  %s\n  %s\n", key, strings.ReplaceAll(what, "\n", "\n  "))
	if len(r.Viol) >= r.MaxViol {
		r.stop = true
	}
}

// Worker owns the per-thread symbolic state.
type Worker struct {
	R   *Run
	ID  int
	F   *sym.Factory
	S   *sym.Solver
	M   *gosym.Machine
	Dir string
	n   int

	sampling bool
	jobBad   bool // the current job found a violation
	replays  int  // replays of undecided paths of the current job
	jobEnd   time.Time
}

func (w *Worker) reset() {
	w.F = sym.NewFactory()
	if w.S == nil {
		w.S = sym.NewSolver(w.F)
	} else {
		w.S.Reset(w.F)
	}
	if w.M != nil {
		w.flushCov()
	}
	w.M = gosym.NewMachine(w.R.P, w.F)
	w.F.Stop = func() bool {
		return time.Now().After(w.jobEnd) || w.R.pressure.Load()
	}
}

func (w *Worker) flushCov() {
	w.R.mu.Lock()
	for fn := range w.M.Covered {
		if fn.Pkg != nil {
			w.R.Covered[fn.String()] = true
		} else {
			w.R.Covered[fn.Name()] = true
		}
	}
	w.R.mu.Unlock()
}

// Job is a unit of work.
type Job struct {
	ID     string
	Family string
	Do     func(w *Worker)
}

// Do runs the jobs on all workers.
func (r *Run) Do(jobs []Job) {
	ch := make(chan Job)
	var wg sync.WaitGroup
	for i := 0; i < r.Workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := &Worker{R: r, ID: id, Dir: filepath.Join(r.Scratch, fmt.Sprintf("w%d", id))}
			os.MkdirAll(w.Dir, 0755)
			w.reset()
			defer func() {
				w.flushCov()
				r.mu.Lock()
				r.Solver.Add(w.S.Stats)
				r.mu.Unlock()
				w.S.Close()
			}()
			for j := range ch {
				w.n++
				if w.n%40 == 0 {
					w.reset()
				}
				t0 := time.Now()
				w.one(j)
				if d := time.Since(t0); d > 3*time.Second {
					r.mu.Lock()
					r.Slow = append(r.Slow, fmt.Sprintf("%s %.1fs", j.ID, d.Seconds()))
					r.mu.Unlock()
				}
			}
		}(i)
	}
	done := make(chan bool)
	defer close(done)
	go r.watchMemory(done)
	skipped := 0
	for _, j := range jobs {
		if !r.Selected(j.ID) {
			skipped++
			continue
		}
		if r.Stopped() {
			skipped++
			continue
		}
		ch <- j
	}
	close(ch)
	wg.Wait()
	r.Add("jobs", int64(len(jobs)-skipped))
	if skipped > 0 {
		r.Add("jobs_skipped", int64(skipped))
	}
}

// watchMemory ends the running jobs when the heap grows too large.
func (r *Run) watchMemory(done chan bool) {
	for {
		select {
		case <-done:
			return
		case <-time.After(300 * time.Millisecond):
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 12<<30 {
			r.Note("memory pressure", "")
			r.pressure.Store(true)
			time.Sleep(time.Second)
			debug.FreeOSMemory()
			r.pressure.Store(false)
		}
	}
}

func (w *Worker) one(j Job) {
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(sym.Abort); ok {
				w.R.Note("abort: "+a.Kind, j.ID+": "+a.Msg)
				return
			}
			w.R.Note("internal error", fmt.Sprintf("%s: %v\n%s", j.ID, e, debug.Stack()))
			w.reset()
		}
	}()
	w.jobBad, w.replays = false, 0
	lim := 40 * time.Second
	if w.R.Tier == "thorough" {
		lim = 120 * time.Second
	}
	w.jobEnd = time.Now().Add(lim)
	j.Do(w)
	w.R.mu.Lock()
	w.R.Families[j.Family]++
	w.R.mu.Unlock()
}

// Finish writes evidence and returns the exit code.
func (r *Run) Finish(level string, coverage map[string]any, assumptions []string) int {
	cov := map[string]any{}
	for k, v := range r.Stats {
		cov[k] = v
	}
	cov["solver_queries"] = r.Solver.Queries
	cov["solver_unsat"] = r.Solver.Unsat
	cov["solver_sat"] = r.Solver.Sat
	cov["solver_unknown"] = r.Solver.Unknown
	cov["solver_seconds"] = r.Solver.Time.Seconds()
	cov["families"] = r.Families
	notes := map[string]any{}
	for k, v := range r.Notes {
		s := r.NoteSample[k]
		if len(s) > 600 {
			s = s[:600]
		}
		notes[k] = map[string]any{"count": v, "first": s}
	}
	cov["inconclusive_or_notes"] = notes
	var fns []string
	for f := range r.Covered {
		if strings.Contains(f, "typeshell") {
			fns = append(fns, strings.ReplaceAll(f, "github.com/monstermichl/typeshell/", ""))
		}
	}
	sort.Strings(fns)
	cov["functions_encoded"] = fns
	if len(r.Slow) > 6 {
		r.Slow = r.Slow[:6]
	}
	if len(r.Slow) > 0 {
		cov["slow_jobs"] = r.Slow
	}
	for k, v := range coverage {
		cov[k] = v
	}
	if len(r.Samples) == 0 {
		r.Samples = append(r.Samples, "none")
	}
	cov["samples"] = r.Samples
	var viol []map[string]any
	for _, v := range r.Viol {
		viol = append(viol, map[string]any{"key": v.Key, "what": v.What, "replay": v.Replay})
	}
	ev := map[string]any{"property": r.Prop, "tier": r.Tier, "seed": r.Seed, "level": level, "coverage": cov, "assumptions": assumptions,
		"wall_s": time.Since(r.Start).Seconds(), "violations": len(r.Viol)}
	if len(viol) > 0 {
		cov["violation_list"] = viol
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.MkdirAll(filepath.Join(VerifDir, "evidence"), 0755)
	os.WriteFile(filepath.Join(VerifDir, "evidence", r.Prop+".json"), b, 0644)
	fmt.Printf("%s %s: jobs=%d", r.Prop, r.Tier, r.Stats["jobs"])
	keys := []string{}
	for k := range r.Stats {
		if k != "jobs" {
			keys = append(keys, k)
		}
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf(" %s=%d", k, r.Stats[k])
	}
	fmt.Printf(" queries=%d solver=%.1fs wall=%.1fs\n", r.Solver.Queries, r.Solver.Time.Seconds(), time.Since(r.Start).Seconds())
	nk := []string{}
	for k := range r.Notes {
		nk = append(nk, k)
	}
	sort.Strings(nk)
	for _, k := range nk {
		s := r.NoteSample[k]
		if len(s) > 1500 {
			s = s[:1500]
		}
		fmt.Printf("note %s x%d, e.g. %s\n", k, r.Notes[k], s)
	}
	if len(r.Slow) > 0 {
		fmt.Println("slow:", strings.Join(r.Slow, "; "))
	}
	if len(r.Viol) > 0 {
		return 1
	}
	return 0
}

// Selected tells whether the job was selected with -only (comma-separated substrings).
func (r *Run) Selected(id string) bool {
	if r.Only == "" {
		return true
	}
	for _, o := range strings.Split(r.Only, ",") {
		if strings.Contains(id, o) {
			return true
		}
	}
	return false
}

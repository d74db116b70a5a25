package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Worker explores paths; each has its own term pool and solver process.
type Worker struct {
	ex      *Explorer
	eng     *Engine
	pool    *TermPool
	solver  *Solver
	harness string
	shallow bool

	models   map[string]int
	fns      map[string]int
	forks    map[string]int
	covers   map[string]int
	assertsN map[string]int
	asserts  map[string]int
	ended    map[string]int
	incon    map[string]int

	paths, completed, branches, trivial, proved, timedOut, unknownPaths int
	instrs                                                              int64
	maxSteps                                                            int
	samples                                                             []*Candidate
	probes                                                              int
}

// Explorer runs one harness function to exhaustion of its bounded path space.
type Explorer struct {
	eng      *Engine
	fn       *ssa.Function
	mu       sync.Mutex
	cv       *sync.Cond
	queue    [][]Dec
	active   int
	stop     bool
	deadline time.Time
	onCand   func(*Candidate) bool // true: confirmed, stop
	left     int                   // prefixes left unexplored

	paths, completed int
	wall             float64
}

func newWorker(ex *Explorer) *Worker {
	w := &Worker{ex: ex, eng: ex.eng, harness: ex.fn.Name(), pool: NewPool(),
		models: map[string]int{}, fns: map[string]int{}, forks: map[string]int{}, covers: map[string]int{},
		asserts: map[string]int{}, ended: map[string]int{}, incon: map[string]int{}}
	w.solver = NewSolver(w.pool, solverTimeout)
	return w
}

var solverTimeout = 20000

func (w *Worker) push(prefix []Dec) {
	ex := w.ex
	ex.mu.Lock()
	ex.queue = append(ex.queue, prefix)
	ex.mu.Unlock()
	ex.cv.Signal()
}

func (w *Worker) checkTime() {
	if w.ex.stop || time.Now().After(w.ex.deadline) {
		panic(pathEnd{"time"})
	}
}

func (w *Worker) candidate(c *Candidate) {
	if w.ex.onCand(c) {
		w.ex.mu.Lock()
		w.ex.stop = true
		w.ex.mu.Unlock()
		w.ex.cv.Broadcast()
	}
}

func (w *Worker) inconclusive(msg string) { w.incon[msg]++ }

func (w *Worker) loop() {
	ex := w.ex
	for {
		ex.mu.Lock()
		for len(ex.queue) == 0 && ex.active > 0 && !ex.stop {
			ex.cv.Wait()
		}
		if ex.stop || len(ex.queue) == 0 || time.Now().After(ex.deadline) {
			ex.left = len(ex.queue)
			ex.mu.Unlock()
			ex.cv.Broadcast()
			return
		}
		var pre []Dec
		if w.shallow {
			// some workers take the oldest alternatives, so that no subtree starves the others
			pre = ex.queue[0]
			ex.queue = ex.queue[1:]
		} else {
			pre = ex.queue[len(ex.queue)-1]
			ex.queue = ex.queue[:len(ex.queue)-1]
		}
		ex.active++
		ex.mu.Unlock()
		if w.pool.n > 3000000 {
			// drop the term table (terms are only compared within a path)
			w.pool = NewPool()
			w.solver.pool = w.pool
			w.solver.restart()
		}
		w.runPath(ex.fn, pre)
		ex.mu.Lock()
		ex.active--
		ex.mu.Unlock()
		ex.cv.Broadcast()
	}
}

// Result aggregates the workers of one or more harness functions.
type Result struct {
	Models, Fns, Forks, Covers, Asserts, Ended, Incon map[string]int
	Paths, Completed, Branches, Trivial, Proved       int
	TimedOut, UnknownPaths, Left                      int
	Instrs                                            int64
	MaxSteps                                          int
	Samples                                           []*Candidate
	Solver                                            SolverStats
	PerHarness                                        []map[string]interface{}
}

func newResult() *Result {
	m := func() map[string]int { return map[string]int{} }
	return &Result{Models: m(), Fns: m(), Forks: m(), Covers: m(), Asserts: m(), Ended: m(), Incon: m()}
}

func addMap(d, s map[string]int) {
	for k, v := range s {
		d[k] += v
	}
}

func newExplorer(eng *Engine, fn *ssa.Function, onCand func(*Candidate) bool) *Explorer {
	ex := &Explorer{eng: eng, fn: fn, onCand: onCand}
	ex.cv = sync.NewCond(&ex.mu)
	ex.queue = [][]Dec{nil}
	return ex
}

// run explores until the deadline; it can be called again to go on.
func (ex *Explorer) run(nw int, deadline time.Time, cross bool, res *Result) (violated bool) {
	fn := ex.fn
	ex.deadline = deadline
	var ws []*Worker
	var wg sync.WaitGroup
	t0 := time.Now()
	for i := 0; i < nw; i++ {
		w := newWorker(ex)
		w.solver.cross = cross
		w.shallow = i%4 == 3
		ws = append(ws, w)
		wg.Add(1)
		go func() { defer wg.Done(); w.loop() }()
	}
	wg.Wait()
	paths, completed := 0, 0
	for _, w := range ws {
		addMap(res.Models, w.models)
		addMap(res.Fns, w.fns)
		addMap(res.Forks, w.forks)
		for k, v := range w.covers {
			res.Covers[fn.Name()+":"+k] += v
		}
		for k, v := range w.asserts {
			res.Asserts[fn.Name()+":"+k] += v
		}
		addMap(res.Ended, w.ended)
		for k, v := range w.incon {
			res.Incon[fn.Name()+": "+k] += v
		}
		res.Paths += w.paths
		res.Completed += w.completed
		res.Branches += w.branches
		res.Trivial += w.trivial
		res.Proved += w.proved
		res.TimedOut += w.timedOut
		res.UnknownPaths += w.unknownPaths
		res.Instrs += w.instrs
		if w.maxSteps > res.MaxSteps {
			res.MaxSteps = w.maxSteps
		}
		res.Samples = append(res.Samples, w.samples...)
		s := w.solver.Stats
		res.Solver.Queries += s.Queries
		res.Solver.Sat += s.Sat
		res.Solver.Unsat += s.Unsat
		res.Solver.Unknown += s.Unknown
		res.Solver.Fallback += s.Fallback
		res.Solver.Time += s.Time
		res.Solver.CrossChecked += s.CrossChecked
		res.Solver.CrossDiff += s.CrossDiff
		w.solver.Close()
		paths += w.paths
		completed += w.completed
	}
	ex.paths += paths
	ex.completed += completed
	ex.wall += time.Since(t0).Seconds()
	return ex.stop
}

// finish adds the summary of the harness to the result.
func (ex *Explorer) finish(res *Result) {
	res.Left += len(ex.queue)
	res.PerHarness = append(res.PerHarness, map[string]interface{}{
		"harness": ex.fn.Name(), "paths": ex.paths, "completed": ex.completed, "unexplored_prefixes": len(ex.queue),
		"wall_s": round2(ex.wall),
	})
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func topN(m map[string]int, n int) []string {
	type kv struct {
		k string
		v int
	}
	var l []kv
	for k, v := range m {
		l = append(l, kv{k, v})
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].v != l[j].v {
			return l[i].v > l[j].v
		}
		return l[i].k < l[j].k
	})
	var o []string
	for i, x := range l {
		if i >= n {
			break
		}
		o = append(o, fmt.Sprintf("%d× %s", x.v, x.k))
	}
	return o
}

func logf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, strings.TrimRight(f, "\n")+"\n", a...)
}
